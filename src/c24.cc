// C24 -- orders dumped as JSON are read back.
#include <istream>
#include <limits>
#include <memory>
#include <sstream>
#include <streambuf>

#include <boost/optional.hpp>

#include "sdd/sdd.hh"
#include "sdd/tools/order.hh"
#include "vf.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C24";
const char* const rule =
  "case = a random tree of identifiers (strings of any bytes of valid UTF-8, or integers over the whole range of the "
  "identifier type), the order built from it dumped and the text parsed by an independent reader, which must find the "
  "tree of flat identifiers; loading the text, or a hand-written one with random spacing and numbers given as strings, "
  "must give the tree with levels holding a single level collapsed. Non-trivial: at least four flat identifiers with a "
  "nested level, or identifiers that need escaping or exceed 31 bits.";
}

using vf::G;

namespace {

template <typename I> struct conf : public sdd::flat_set_default_configuration
{
  using Identifier = I;
  using Values = sdd::values::flat_set<unsigned int>;
};

// A tree: a leaf holds an identifier, an inner node only children.
template <typename I>
struct T { I id{}; std::vector<T> sub; bool leaf = true; };

template <typename I> bool operator==(const T<I>& a, const T<I>& b) { return a.leaf == b.leaf && (a.leaf ? a.id == b.id : a.sub == b.sub); }

std::string quote(const std::string& s)
{
  std::ostringstream os;
  os << '"';
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') os << '\\' << c;
    else if (c < 0x20) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); os << b; }
    else os << c;
  }
  os << '"';
  return os.str();
}
template <typename I> std::string quote(const I& i) { return std::to_string(i); }

template <typename I> std::string show(const T<I>& t)
{
  if (t.leaf) return quote(t.id);
  std::string r = "[";
  for (std::size_t i = 0; i < t.sub.size(); ++i) r += (i ? "," : "") + show(t.sub[i]);
  return r + "]";
}

// Independent reader of JSON arrays of strings and integers.
template <typename I>
struct Reader
{
  G& g;
  const std::string& s;
  std::size_t p = 0;

  [[noreturn]] void bad(const char* what) { VF_FAIL(g, "the dump isn't well-formed JSON (" << what << " at " << p << "): " << s.substr(0, 300)); }
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }

  T<I> value()
  {
    ws();
    if (p >= s.size()) bad("end");
    T<I> t;
    if (s[p] == '[')
    {
      t.leaf = false;
      ++p;
      ws();
      if (p < s.size() && s[p] == ']') { ++p; return t; }
      while (true)
      {
        t.sub.push_back(value());
        ws();
        if (p < s.size() && s[p] == ',') { ++p; continue; }
        if (p < s.size() && s[p] == ']') { ++p; return t; }
        bad("expected , or ]");
      }
    }
    leaf(t.id);
    return t;
  }

  void leaf(std::string& out)
  {
    if (s[p] != '"') bad("expected a string");
    for (++p; p < s.size() && s[p] != '"'; ++p)
    {
      if (static_cast<unsigned char>(s[p]) < 0x20) bad("raw control character");
      if (s[p] != '\\') { out += s[p]; continue; }
      if (++p >= s.size()) bad("end");
      switch (s[p])
      {
        case '"': case '\\': case '/': out += s[p]; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u':
        {
          if (p + 4 >= s.size()) bad("end");
          const unsigned c = static_cast<unsigned>(std::stoul(s.substr(p + 1, 4), nullptr, 16));
          if (c < 0x80) out += static_cast<char>(c);
          else if (c < 0x800) { out += static_cast<char>(0xc0 | (c >> 6)); out += static_cast<char>(0x80 | (c & 0x3f)); }
          else { out += static_cast<char>(0xe0 | (c >> 12)); out += static_cast<char>(0x80 | ((c >> 6) & 0x3f)); out += static_cast<char>(0x80 | (c & 0x3f)); }
          p += 4;
          break;
        }
        default: bad("escape");
      }
    }
    if (p >= s.size()) bad("end");
    ++p;
  }

  template <typename N>
  void leaf(N& out)
  {
    std::size_t e = p;
    if (e < s.size() && s[e] == '-') ++e;
    while (e < s.size() && std::isdigit(static_cast<unsigned char>(s[e]))) ++e;
    if (e == p) bad("expected a number");
    std::istringstream is(s.substr(p, e - p));
    is >> out;
    if (!is) bad("number out of range");
    p = e;
  }

  T<I> document() { T<I> t = value(); ws(); if (p != s.size()) bad("trailing text"); return t; }
};

std::string gen_id(G& g, const std::string&)
{
  switch (g.range(0, 5))
  {
    case 0: case 1: return "v" + std::to_string(g.below(1000));
    case 2: { std::string r; for (int i = 0, n = g.range(0, 6); i < n; ++i) r += static_cast<char>('!' + g.below(94)); return r; }
    case 3: { std::string r; for (int i = 0, n = g.range(1, 6); i < n; ++i) r += g.oneof<std::string>({"\"", "\\", "/", "\n", "\t", " ", "a", "\r", "\b", "[", "]", ",", "u0041", std::string(1, 0), "\x01", "\x1f", "\x7f"}); return r; }
    case 4: { std::string r; for (int i = 0, n = g.range(1, 4); i < n; ++i) r += g.oneof<std::string>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "x"}); return r; }
    default: return std::string(g.range(1, 300), static_cast<char>('a' + g.below(26)));
  }
}

template <typename I>
I gen_id(G& g, const I&)
{
  using L = std::numeric_limits<I>;
  switch (g.range(0, 4))
  {
    case 0: case 1: return static_cast<I>(g.below(1000));
    case 2: return static_cast<I>(L::max() - static_cast<I>(g.below(100)));
    case 3: return static_cast<I>(L::min() + static_cast<I>(g.below(100)));
    default: { std::uint64_t s = g.bulk_seed(); return static_cast<I>(vf::mix(s)); }
  }
}

template <typename I>
I fresh(G& g, std::set<I>& used)
{
  for (int k = 0; k < 50; ++k) { I i = gen_id(g, I{}); if (used.insert(i).second) return i; }
  throw vf::Discard{};
}

template <typename I>
T<I> gen_tree(G& g, std::set<I>& used, int depth, bool allow_empty, int& budget)
{
  T<I> t;
  t.leaf = false;
  for (int i = 0, n = g.range(allow_empty ? 0 : 1, 5); i < n && (budget > 0 || t.sub.empty()); ++i)
  {
    --budget;
    if (depth > 0 && g.chance(35)) t.sub.push_back(gen_tree<I>(g, used, depth - 1, false, budget));
    else { T<I> l; l.id = fresh(g, used); t.sub.push_back(l); }
  }
  if (t.sub.empty() && !allow_empty) { T<I> l; l.id = fresh(g, used); t.sub.push_back(l); }
  return t;
}

// Levels which hold a single level are that level.
template <typename I>
T<I> collapse(const T<I>& t)
{
  if (t.leaf) return t;
  T<I> r;
  r.leaf = false;
  for (const auto& x : t.sub) r.sub.push_back(collapse(x));
  return r.sub.size() == 1 ? r.sub[0] : r;
}

template <typename I>
T<I> expected_load(const T<I>& t)
{
  T<I> c = collapse(t);
  if (!c.leaf) return c;
  T<I> r;
  r.leaf = false;
  r.sub.push_back(c);
  return r;
}

template <typename Cf, typename I>
sdd::order_builder<Cf> to_builder(G& g, const T<I>& t, std::set<I>& used)
{
  sdd::order_builder<Cf> b;
  for (const auto& x : t.sub)
  {
    if (x.leaf) b << sdd::order_builder<Cf>(x.id);
    else if (g.below(2)) b << sdd::order_builder<Cf>(sdd::order_identifier<Cf>(), to_builder<Cf>(g, x, used));
    else { const I i = fresh(g, used); b << sdd::order_builder<Cf>(i, to_builder<Cf>(g, x, used)); }
  }
  return b;
}

template <typename Cf, typename I>
T<I> of_builder(G& g, sdd::order_builder<Cf> b)
{
  T<I> t;
  t.leaf = false;
  while (!b.empty())
  {
    if (b.nested().empty())
    {
      VF_CHECK(g, b.identifier().artificial() == 0, "a flat level without identifier is loaded");
      T<I> l;
      l.id = b.identifier().user();
      t.sub.push_back(l);
    }
    else
    {
      VF_CHECK(g, b.identifier().artificial() != 0, "a hierarchical level is given an identifier");
      t.sub.push_back(of_builder<Cf, I>(g, b.nested()));
    }
    b = b.next();
  }
  return t;
}

template <typename Cf, typename I>
void load_and_compare(G& g, const std::string& text, const T<I>& t, const char* what)
{
  std::istringstream in(text);
  const auto r = sdd::tools::load_order<Cf>(in);
  VF_CHECK(g, r, what << ": nothing loaded from " << text.substr(0, 300));
  const T<I> got = of_builder<Cf, I>(g, *r), e = t.sub.empty() ? t : expected_load(t);
  VF_CHECK(g, got == e, what << ": loaded " << show(got).substr(0, 400) << " instead of " << show(e).substr(0, 400));
}

template <typename I> bool hard(const T<I>& t)
{
  if (!t.leaf) { for (const auto& x : t.sub) if (hard(x)) return true; return false; }
  return quote(t.id).size() > 9;
}
template <typename I> int flats(const T<I>& t) { if (t.leaf) return 1; int n = 0; for (const auto& x : t.sub) n += flats(x); return n; }

template <typename I>
void round_trip(G& g)
{
  using Cf = conf<I>;
  std::set<I> used;
  int budget = g.range(1, 40);
  const T<I> t = gen_tree<I>(g, used, g.range(0, 5), true, budget);
  g.desc << "dump and load " << show(t).substr(0, 300);
  const sdd::order<Cf> o(to_builder<Cf>(g, t, used));
  std::ostringstream os;
  sdd::tools::dump_order<Cf>(o, os);
  const std::string text = os.str();
  const T<I> read = Reader<I>{g, text}.document();
  VF_CHECK(g, read == t, "dumped " << text.substr(0, 400) << " for " << show(t).substr(0, 400));
  load_and_compare<Cf>(g, text, t, "round trip");
  // The loaded order is dumped as itself.
  std::istringstream in(text);
  const sdd::order<Cf> o2(*sdd::tools::load_order<Cf>(in));
  std::ostringstream os2;
  sdd::tools::dump_order<Cf>(o2, os2);
  const std::string text2 = os2.str();
  VF_CHECK(g, (Reader<I>{g, text2}.document()) == (t.sub.empty() ? t : expected_load(t)), "second dump");
  if (flats(t) >= 4 || hard(t)) g.nontrivial();
  if (hard(t)) g.label("escaped or large identifiers");
  if (flats(t) == 0) g.label("empty order");
}

template <typename I>
void spaced(G& g, std::ostream& os, const T<I>& t)
{
  auto ws = [&] { for (int i = g.small(0, 3); i > 0; --i) os << g.oneof({' ', '\n', '\t', '\r'}); };
  ws();
  if (t.leaf)
  {
    const std::string q = quote(t.id);
    if (std::is_integral<I>::value && g.chance(30))
    {
      const bool neg = q[0] == '-';
      os << '"' << (neg ? "-" : "") << (g.chance(15) ? std::string(g.range(1, 3), '0') : "") << q.substr(neg) << '"';
    }
    else os << q;
  }
  else
  {
    os << '[';
    for (std::size_t i = 0; i < t.sub.size(); ++i) { if (i) os << ','; spaced(g, os, t.sub[i]); }
    ws();
    os << ']';
  }
  ws();
}

template <typename I>
void handwritten(G& g)
{
  std::set<I> used;
  int budget = g.range(1, 30);
  const T<I> t = gen_tree<I>(g, used, g.range(0, 5), true, budget);
  std::ostringstream os;
  spaced(g, os, t);
  g.desc << "load " << os.str().substr(0, 300);
  load_and_compare<conf<I>>(g, os.str(), t, "hand-written");
  if (flats(t) >= 4 || hard(t)) g.nontrivial();
}

// Strings that aren't numbers are refused where integers are expected; an empty file gives nothing.
template <typename I>
void refused(G& g)
{
  using Cf = conf<I>;
  std::set<I> used;
  int budget = g.range(1, 12);
  const T<I> t = gen_tree<I>(g, used, g.range(0, 3), false, budget);
  std::string text = show(t);
  const std::string junk = g.oneof<std::string>({"\"x\"", "\"\"", "\"abc12\"", "\"--3\"", "\" \"", "\"12abc\"", "\"3 4\""
                                                 , "\"1.5\"", "\"0x10\"", "\"7,\"", "\"99999999999999999999999\"", "1.5", "true", "false", "null", "{}", "{\"a\":1}"});
  text = "[" + junk + "," + text + "]";
  if (g.below(2)) text = "[[" + show(t) + "," + junk + "]," + show(t) + "]";
  g.desc << "refused " << text.substr(0, 300);
  std::istringstream in(text);
  bool thrown = false;
  try { (void)sdd::tools::load_order<Cf>(in); } catch (const std::runtime_error& e) { thrown = true; VF_CHECK(g, std::string(e.what()).size() > 3, "no message"); }
  VF_CHECK(g, thrown, "accepted: " << text.substr(0, 300));
  std::istringstream empty("");
  VF_CHECK(g, !sdd::tools::load_order<Cf>(empty), "an order loaded from nothing");
  load_and_compare<Cf>(g, show(t), t, "after a refused text");
  g.nontrivial();
}

// Very many identifiers in an array, or very deep arrays.
template <typename I>
void large(G& g)
{
  using Cf = conf<I>;
  if (g.below(5) != 0) { round_trip<I>(g); return; }
  std::uint64_t seed = g.bulk_seed();
  T<I> t;
  t.leaf = false;
  int next = 0;
  auto leaf = [&](T<I>& in) { T<I> l; std::istringstream(std::to_string(next++ * 3)) >> l.id; in.sub.push_back(l); };
  if (g.below(2))
  {
    const int n = g.oneof<int>({100, 256, 300, 700, 1100});
    for (int i = 0; i < n; ++i)
    {
      if (vf::mix(seed) % 50 == 0) { T<I> in; in.leaf = false; for (int k = 0; k < 3; ++k) leaf(in); t.sub.push_back(in); }
      else leaf(t);
    }
    g.desc << "an array of " << n;
  }
  else
  {
    const int depth = g.oneof<int>({20, 60, 150, 300});
    for (int i = 0; i < depth; ++i)
    {
      T<I> out;
      out.leaf = false;
      if (i && vf::mix(seed) % 2) leaf(out);
      if (i) out.sub.push_back(t);
      if (!i || out.sub.size() == 1 || vf::mix(seed) % 2) leaf(out);
      if (!i) leaf(out);
      t = out;
    }
    g.desc << depth << " nested arrays";
  }
  std::set<I> used;
  // All levels are artificial: identifiers of hierarchies don't matter here.
  struct B
  {
    static sdd::order_builder<Cf> of(const T<I>& x)
    {
      sdd::order_builder<Cf> b;
      for (auto it = x.sub.rbegin(); it != x.sub.rend(); ++it)
      {
        if (it->leaf) b.push(it->id);
        else b.push(sdd::order_identifier<Cf>(), of(*it));
      }
      return b;
    }
  };
  const sdd::order<Cf> o(B::of(t));
  std::ostringstream os;
  sdd::tools::dump_order<Cf>(o, os);
  const std::string text = os.str();
  VF_CHECK(g, (Reader<I>{g, text}.document()) == t, "dumped " << text.substr(0, 300) << " for " << show(t).substr(0, 300));
  load_and_compare<Cf>(g, text, t, "large");
  g.label("large");
  g.nontrivial();
}

VF_CASE("large/unsigned", 1, large<unsigned int>);
VF_CASE("large/string", 1, large<std::string>);
VF_CASE("round-trip/string", 20, round_trip<std::string>);
VF_CASE("round-trip/unsigned", 10, round_trip<unsigned int>);
VF_CASE("round-trip/int", 5, round_trip<int>);
VF_CASE("round-trip/int64", 5, round_trip<std::int64_t>);
VF_CASE("round-trip/uint64", 5, round_trip<std::uint64_t>);
VF_CASE("hand-written/string", 10, handwritten<std::string>);
VF_CASE("hand-written/unsigned", 10, handwritten<unsigned int>);
VF_CASE("hand-written/int", 5, handwritten<int>);
VF_CASE("hand-written/int64", 3, handwritten<std::int64_t>);
VF_CASE("hand-written/uint64", 3, handwritten<std::uint64_t>);
VF_CASE("refused/unsigned", 5, refused<unsigned int>);
VF_CASE("refused/int", 5, refused<int>);
VF_CASE("refused/uint64", 2, refused<std::uint64_t>);

} // namespace
#endif
