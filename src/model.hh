// Explicit-set reference model of SDDs, and generators of orders, alphabets, sets and diagrams.
#pragma once

#include <algorithm>
#include <cstdint>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "sdd/sdd.hh"

#include "vf.hh"

#ifndef VF_CONF
#define VF_CONF 1
#endif

namespace md {

/*------------------------------------------------------------------------------------------------*/
// Configurations.

// A user-defined configuration, with a wide bitset.
struct wide_conf
  : public sdd::default_configuration
{
  using Identifier = unsigned int;
  using Values     = sdd::values::bitset<128>;
};

#if VF_CONF == 0
using C = sdd::conf0;
#define VF_CONF_NAME "conf0"
#elif VF_CONF == 1
using C = sdd::conf1;
#define VF_CONF_NAME "conf1"
#elif VF_CONF == 2
using C = sdd::conf2;
#define VF_CONF_NAME "conf2"
#else
using C = wide_conf;
#define VF_CONF_NAME "wide"
#endif

namespace { // one copy per translation unit: each is compiled for its own configuration

using SDD = sdd::SDD<C>;
using Hom = sdd::homomorphism<C>;
using Order = sdd::order<C>;
using Builder = sdd::order_builder<C>;
using Id = C::Identifier;
using Values = C::Values;
using vf::G;

/*------------------------------------------------------------------------------------------------*/
// Values.

template <typename V> struct VT;

template <typename T>
struct VT<sdd::values::flat_set<T>>
{
  static sdd::values::flat_set<T> make(const std::vector<unsigned>& xs)
  {
    return sdd::values::flat_set<T>(xs.begin(), xs.end());
  }
  static std::vector<unsigned> elems(const sdd::values::flat_set<T>& v)
  {
    return std::vector<unsigned>(v.begin(), v.end());
  }
  static constexpr unsigned max_value = 0xffffffffu;
  static constexpr bool flat = true;
};

template <std::size_t N>
struct VT<sdd::values::bitset<N>>
{
  static sdd::values::bitset<N> make(const std::vector<unsigned>& xs)
  {
    sdd::values::bitset<N> b;
    for (auto x : xs) b.insert(x);
    return b;
  }
  static std::vector<unsigned> elems(const sdd::values::bitset<N>& b)
  {
    std::vector<unsigned> r;
    for (unsigned i = 0; i < N; ++i) if (b.content().test(i)) r.push_back(i);
    return r;
  }
  static constexpr unsigned max_value = N - 1;
  static constexpr bool flat = false;
};

using vt = VT<Values>;

inline Values mkv(const std::vector<unsigned>& xs) { return vt::make(xs); }

/*------------------------------------------------------------------------------------------------*/
// Identifiers.

template <typename T> struct IT;
template <> struct IT<std::string> { static std::string make(int i) { return "v" + std::to_string(i); } };
template <> struct IT<unsigned int> { static unsigned int make(int i) { return static_cast<unsigned>(i) * 7 + 3; } };
inline Id ident(int i) { return IT<Id>::make(i); }

/*------------------------------------------------------------------------------------------------*/
// Shapes: the structure of an order, from top to bottom.

struct Level
{
  int id;
  std::vector<Level> sub; // empty: flat
  bool artificial = false;
  int leaves = 1;         // flat positions covered
};
using Shape = std::vector<Level>;

inline int count_leaves(const Shape& s)
{
  int n = 0;
  for (const auto& l : s) n += l.leaves;
  return n;
}

inline int count_levels(const Shape& s)
{
  int n = 0;
  for (const auto& l : s) n += 1 + count_levels(l.sub);
  return n;
}

inline int shape_depth(const Shape& s)
{
  int d = 0;
  for (const auto& l : s) if (!l.sub.empty()) d = std::max(d, shape_depth(l.sub));
  return d + 1;
}

struct ShapeOpts
{
  int max_leaves = 6;
  int max_depth = 3;
  bool artificial = true;
};

inline Shape gen_scope(G& g, int leaves, int depth, bool artificial, int& next_id, int nest = 40)
{
  // Exactly `leaves` flat positions.
  Shape s;
  while (leaves > 0)
  {
    Level l;
    l.id = next_id++;
    if (depth > 1 && g.chance(nest))
    {
      l.leaves = g.range(1, leaves);
      l.artificial = artificial && g.chance(15);
      const int n = l.leaves;
      l.sub = gen_scope(g, n, depth - 1, artificial, next_id, nest);
    }
    leaves -= l.leaves;
    s.push_back(l);
  }
  return s;
}

inline Shape gen_shape(G& g, const ShapeOpts& o)
{
  int next_id = 0;
  const int leaves = g.range(1, o.max_leaves);
  const int depth = g.range(1, o.max_depth);
  // Now and then a deep hierarchy.
  if (o.max_depth >= 3 && g.chance(15)) return gen_scope(g, leaves, depth + g.range(1, 3), o.artificial, next_id, 75);
  return gen_scope(g, leaves, depth, o.artificial, next_id);
}

inline Builder make_builder(const Shape& s)
{
  Builder b;
  for (auto it = s.rbegin(); it != s.rend(); ++it)
  {
    const Builder nested = it->sub.empty() ? Builder() : make_builder(it->sub);
    if (it->artificial) b.push(sdd::order_identifier<C>(), nested);
    else                b.push(ident(it->id), nested);
  }
  return b;
}

inline std::string show(const Shape& s)
{
  std::string r = "(";
  for (const auto& l : s)
  {
    r += (r.size() > 1 ? " " : "") + std::string(l.artificial ? "@" : "") + std::to_string(l.id);
    if (!l.sub.empty()) r += show(l.sub);
  }
  return r + ")";
}

/*------------------------------------------------------------------------------------------------*/
// Words (assignments, from top to bottom) and sets of words.

using Word = std::u32string;
using Set = std::vector<Word>; // sorted, unique

inline void normalize(Set& s)
{
  std::sort(s.begin(), s.end());
  s.erase(std::unique(s.begin(), s.end()), s.end());
}

inline Set set_union(const Set& a, const Set& b)
{
  Set r;
  std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  return r;
}
inline Set set_inter(const Set& a, const Set& b)
{
  Set r;
  std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  return r;
}
inline Set set_minus(const Set& a, const Set& b)
{
  Set r;
  std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  return r;
}

inline std::string show(const Word& w)
{
  std::string r;
  for (std::size_t i = 0; i < w.size(); ++i) r += (i ? "." : "") + std::to_string(static_cast<unsigned>(w[i]));
  return r;
}

inline std::string show(const Set& s, std::size_t max = 12)
{
  std::string r = "{";
  for (std::size_t i = 0; i < s.size() && i < max; ++i) r += (i ? " " : "") + show(s[i]);
  if (s.size() > max) r += " ...#" + std::to_string(s.size());
  return r + "}";
}

/*------------------------------------------------------------------------------------------------*/
// Alphabets.

inline std::vector<unsigned> gen_alphabet(G& g, int lo, int hi)
{
  const int n = g.range(lo, hi);
  std::set<unsigned> s;
  const int kind = g.range(0, 4);
  unsigned cur = 0;
  const unsigned M = vt::max_value;
  for (int guard = 0; static_cast<int>(s.size()) < n && guard < 200; ++guard)
  {
    unsigned v;
    switch (kind)
    {
      case 0: v = cur++; break;                                  // 0,1,2,...
      case 1: v = M - cur++; break;                              // top of the domain
      case 2: v = cur; cur += 1 + g.below(3); break;             // gaps
      case 3: { static const unsigned b[] = {0, 1, 31, 32, 33, 62, 63, 64, 65, 100, 127, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu};
                v = b[g.below(sizeof(b) / sizeof(b[0]))]; break; }
      default: v = g.below(vt::max_value < 1000 ? vt::max_value + 1 : 1u << 30) ; break;
    }
    if (v <= M) s.insert(v);
  }
  if (s.empty()) s.insert(0);
  return std::vector<unsigned>(s.begin(), s.end());
}

/*------------------------------------------------------------------------------------------------*/
// World: an order, its shape and an alphabet.

struct World
{
  Shape shape;
  int leaves;
  std::vector<unsigned> alpha;
  std::shared_ptr<Order> ord;

  const Order& order() const { return *ord; }
};

inline World make_world(const Shape& s, const std::vector<unsigned>& alpha)
{
  return World{s, count_leaves(s), alpha, std::make_shared<Order>(make_builder(s))};
}

inline std::string show(const World& w)
{
  std::string r = "order=" + show(w.shape) + " alphabet={";
  for (std::size_t i = 0; i < w.alpha.size(); ++i) r += (i ? "," : "") + std::to_string(w.alpha[i]);
  return r + "}";
}

// A world whose universe (alphabet^leaves) has at most max_universe words.
inline World gen_world(G& g, const ShapeOpts& o, int max_alpha, double max_universe)
{
  const Shape s = gen_shape(g, o);
  const int n = count_leaves(s);
  int k = 1;
  double u = 1;
  for (int a = 2; a <= max_alpha; ++a)
  {
    u = 1;
    for (int i = 0; i < n; ++i) u *= a;
    if (u > max_universe) break;
    k = a;
  }
  if (k < 2 && max_alpha >= 2) k = 2;
  return make_world(s, gen_alphabet(g, 1, k));
}

// SDD configurations: from roomy to so small that tables rehash and caches evict all the time.
struct ConfOpts { bool tiny_caches = true; };

template <typename Conf>
auto set_flat(Conf& c, std::size_t n, int) -> decltype(c.flat_set_unique_table_size, void()) { c.flat_set_unique_table_size = n; }
template <typename Conf>
void set_flat(Conf&, std::size_t, long) {}

inline C roomy_conf()
{
  C c;
  c.sdd_unique_table_size = 5000;
  c.sdd_difference_cache_size = 2000;
  c.sdd_intersection_cache_size = 2000;
  c.sdd_sum_cache_size = 2000;
  c.sdd_arena_size = 1024 * 256;
  c.hom_unique_table_size = 2000;
  c.hom_cache_size = 2000;
  set_flat(c, 1000, 0);
  return c;
}

inline C gen_conf(G& g, std::string* txt = nullptr)
{
  C c = roomy_conf();
  const int kind = g.range(0, 3);
  auto pick = [&](std::size_t roomy) -> std::size_t
  {
    if (kind == 0) return roomy;
    if (kind == 1) return g.oneof<std::size_t>({2, 3, 4, 8, 16, 64});
    return g.chance(50) ? roomy : g.oneof<std::size_t>({2, 4, 10, 32, 128});
  };
  c.sdd_unique_table_size = pick(5000);
  c.sdd_difference_cache_size = pick(2000);
  c.sdd_intersection_cache_size = pick(2000);
  c.sdd_sum_cache_size = pick(2000);
  c.hom_unique_table_size = pick(2000);
  c.hom_cache_size = pick(2000);
  set_flat(c, pick(1000), 0);
  if (kind != 0) c.sdd_arena_size = g.oneof<std::size_t>({1024 * 64, 1024, 4096, 256, 64, 1});
  if (txt)
  {
    std::ostringstream os;
    os << "conf{ut=" << c.sdd_unique_table_size << ",diff=" << c.sdd_difference_cache_size
       << ",inter=" << c.sdd_intersection_cache_size << ",sum=" << c.sdd_sum_cache_size
       << ",arena=" << c.sdd_arena_size << ",hut=" << c.hom_unique_table_size
       << ",hc=" << c.hom_cache_size << "}";
    *txt = os.str();
  }
  return c;
}

/*------------------------------------------------------------------------------------------------*/
// From words to diagrams.

// Diagram of the product of the given sets of values (one per flat position from `pos`).
inline SDD product(const Shape& s, const std::vector<std::vector<unsigned>>& vals, int& end)
{
  // Bottom-up: find the positions of each level first.
  std::vector<int> start;
  int pos = end;
  for (const auto& l : s) { start.push_back(pos); pos += l.leaves; }
  SDD res = sdd::one<C>();
  for (int i = static_cast<int>(s.size()) - 1; i >= 0; --i)
  {
    const unsigned var = static_cast<unsigned>(s.size() - 1 - i);
    if (s[i].sub.empty())
    {
      res = SDD(var, mkv(vals[start[i]]), res);
    }
    else
    {
      int p = start[i];
      const SDD nested = product(s[i].sub, vals, p);
      res = SDD(var, nested, res);
    }
  }
  end = pos;
  return res;
}

inline SDD product(const World& w, const std::vector<std::vector<unsigned>>& vals)
{
  int p = 0;
  return product(w.shape, vals, p);
}

inline SDD singleton(const World& w, const Word& word)
{
  std::vector<std::vector<unsigned>> v;
  for (auto c : word) v.push_back({static_cast<unsigned>(c)});
  return product(w, v);
}

inline Set product_set(const std::vector<std::vector<unsigned>>& vals)
{
  Set s{Word()};
  for (const auto& vs : vals)
  {
    Set n;
    for (const auto& w : s) for (auto v : vs) { Word x = w; x.push_back(v); n.push_back(x); }
    s.swap(n);
  }
  normalize(s);
  return s;
}

// The canonical diagram of a set, built bottom-up from the structure of the set itself: no two
// arcs to merge, no set operation but the final sum of disjoint single-arc nodes at each level.
inline SDD build_canonical(const Shape& s, std::size_t lvl, const Set& set)
{
  if (set.empty()) return sdd::zero<C>();
  if (lvl == s.size()) return sdd::one<C>();
  const Level& l = s[lvl];
  const unsigned var = static_cast<unsigned>(s.size() - 1 - lvl);
  std::map<Word, Set> by_prefix; // prefix -> suffixes
  for (const auto& w : set) by_prefix[w.substr(0, l.leaves)].push_back(w.substr(l.leaves));
  std::map<Set, Set> by_suffix;  // suffixes -> prefixes
  for (auto& p : by_prefix) by_suffix[p.second].push_back(p.first);
  std::vector<SDD> ops;
  for (const auto& p : by_suffix)
  {
    const SDD succ = build_canonical(s, lvl + 1, p.first);
    if (l.sub.empty())
    {
      std::vector<unsigned> vs;
      for (const auto& x : p.second) vs.push_back(static_cast<unsigned>(x[0]));
      ops.push_back(SDD(var, mkv(vs), succ));
    }
    else
    {
      ops.push_back(SDD(var, build_canonical(l.sub, 0, p.second), succ));
    }
  }
  return sdd::sum<C>(ops.begin(), ops.end());
}

inline SDD build_canonical(const World& w, const Set& s) { return build_canonical(w.shape, 0, s); }

inline SDD build_sum(const World& w, const Set& s)
{
  std::vector<SDD> ops;
  for (const auto& x : s) ops.push_back(singleton(w, x));
  return sdd::sum<C>(ops.begin(), ops.end());
}

inline SDD build_incremental(const World& w, const Set& s)
{
  SDD r = sdd::zero<C>();
  for (const auto& x : s) r += singleton(w, x);
  return r;
}

/*------------------------------------------------------------------------------------------------*/
// From diagrams to words, by our own traversal; checks that every node is reduced.

struct Bad { std::string what; };

class Extractor
{
public:

  explicit Extractor(std::size_t limit = 200000) : limit_(limit) {}

  // Words of x over levels [lvl, s.size()).
  Set operator()(const Shape& s, const SDD& x) { return go(s, 0, x); }

private:

  std::size_t limit_;
  std::map<std::tuple<const Level*, std::size_t, const void*>, Set> memo_;

  struct Visitor
  {
    Extractor& e;
    const Shape& s;
    std::size_t lvl;

    Set operator()(const sdd::zero_terminal<C>&) const { return {}; }

    Set operator()(const sdd::one_terminal<C>&) const
    {
      if (lvl != s.size()) throw Bad{"|1| reached before the bottom of the order"};
      return {Word()};
    }

    template <typename Node>
    void common(const Node& n) const
    {
      if (lvl >= s.size()) throw Bad{"node below the bottom of the order"};
      if (n.variable() != s.size() - 1 - lvl) throw Bad{"node with an unexpected variable"};
      if (n.size() == 0) throw Bad{"node without arcs"};
      std::size_t k = 0;
      for (const auto& a : n)
      {
        ++k;
        if (a.successor().empty()) throw Bad{"arc leading to |0|"};
        for (const auto& b : n)
        {
          if (&a != &b && a.successor() == b.successor()) throw Bad{"two arcs with the same successor"};
        }
      }
      if (k != n.size()) throw Bad{"number of arcs and arcs disagree"};
    }

    Set combine(std::vector<std::pair<Set, SDD>>& arcs) const
    {
      Set r;
      for (auto& a : arcs)
      {
        const Set tail = e.go(s, lvl + 1, a.second);
        if (a.first.size() * tail.size() + r.size() > e.limit_) throw vf::Discard{};
        for (const auto& p : a.first) for (const auto& t : tail) r.push_back(p + t);
      }
      const std::size_t n = r.size();
      normalize(r);
      if (r.size() != n) throw Bad{"two paths with a common assignment"};
      return r;
    }

    Set operator()(const sdd::flat_node<C>& n) const
    {
      common(n);
      if (!s[lvl].sub.empty()) throw Bad{"flat node at a hierarchical level"};
      std::vector<std::pair<Set, SDD>> arcs;
      std::set<unsigned> seen;
      for (const auto& a : n)
      {
        const auto vs = vt::elems(a.valuation());
        if (vs.empty()) throw Bad{"arc with an empty valuation"};
        Set p;
        for (auto v : vs)
        {
          if (!seen.insert(v).second) throw Bad{"overlapping flat arcs"};
          p.push_back(Word(1, v));
        }
        arcs.emplace_back(p, a.successor());
      }
      return combine(arcs);
    }

    Set operator()(const sdd::hierarchical_node<C>& n) const
    {
      common(n);
      if (s[lvl].sub.empty()) throw Bad{"hierarchical node at a flat level"};
      std::vector<std::pair<Set, SDD>> arcs;
      std::set<Word> seen;
      for (const auto& a : n)
      {
        if (a.valuation().empty()) throw Bad{"arc with an empty valuation"};
        const Set p = e.go(s[lvl].sub, 0, a.valuation());
        for (const auto& w : p) if (!seen.insert(w).second) throw Bad{"overlapping hierarchical arcs"};
        arcs.emplace_back(p, a.successor());
      }
      return combine(arcs);
    }
  };

  Set go(const Shape& s, std::size_t lvl, const SDD& x)
  {
    const auto key = std::make_tuple(s.data(), lvl, static_cast<const void*>(&*x));
    const auto it = memo_.find(key);
    if (it != memo_.end()) return it->second;
    Set r = sdd::visit(Visitor{*this, s, lvl}, x);
    memo_[key] = r;
    return r;
  }
};

// Words of x, or fail the case if x isn't a well-formed, reduced diagram over the order.
inline Set words(G& g, const World& w, const SDD& x, const char* what)
{
  try { return Extractor()(w.shape, x); }
  catch (const Bad& b) { VF_FAIL(g, what << ": not a reduced diagram over the order: " << b.what); }
}

inline void expect_set(G& g, const World& w, const SDD& x, const Set& expected, const std::string& what)
{
  const Set got = words(g, w, x, what.c_str());
  if (got != expected)
  {
    VF_FAIL(g, what << ": expected " << show(expected) << " got " << show(got)
              << " missing " << show(set_minus(expected, got)) << " extra " << show(set_minus(got, expected))
              << " (" << show(w) << ")");
  }
}

/*------------------------------------------------------------------------------------------------*/
// Generators of sets.

inline Word gen_word(G& g, const World& w)
{
  Word r;
  for (int i = 0; i < w.leaves; ++i) r.push_back(g.pick(w.alpha));
  return r;
}

inline std::vector<unsigned> gen_subset(G& g, const std::vector<unsigned>& alpha)
{
  std::vector<unsigned> r;
  for (auto a : alpha) if (g.below(2) == 0) r.push_back(a);
  if (r.empty()) r.push_back(g.pick(alpha));
  return r;
}

inline std::vector<std::vector<unsigned>> gen_box(G& g, const World& w, std::size_t max)
{
  std::vector<std::vector<unsigned>> b;
  double n = 1;
  for (int i = 0; i < w.leaves; ++i)
  {
    auto s = n < static_cast<double>(max) ? gen_subset(g, w.alpha) : std::vector<unsigned>{g.pick(w.alpha)};
    if (n * s.size() > max) s.resize(1);
    n *= s.size();
    b.push_back(s);
  }
  return b;
}

// Random, sparse to dense, product-structured or correlated sets.
inline Set gen_set(G& g, const World& w, int max_words)
{
  Set s;
  switch (g.range(0, 5))
  {
    case 0: // a few random words
    {
      const int n = g.range(0, std::min(max_words, 8));
      for (int i = 0; i < n; ++i) s.push_back(gen_word(g, w));
      break;
    }
    case 1: // many random words
    {
      const int n = g.range(1, max_words);
      std::uint64_t seed = g.bulk_seed();
      for (int i = 0; i < n; ++i)
      {
        Word x;
        for (int k = 0; k < w.leaves; ++k) x.push_back(w.alpha[vf::mix(seed) % w.alpha.size()]);
        s.push_back(x);
      }
      break;
    }
    case 2: // union of boxes
    {
      const int n = g.range(1, 4);
      for (int i = 0; i < n; ++i)
      {
        const Set b = product_set(gen_box(g, w, max_words));
        s.insert(s.end(), b.begin(), b.end());
      }
      break;
    }
    case 3: // correlated: all positions equal, or shifted
    {
      for (std::size_t i = 0; i < w.alpha.size(); ++i)
      {
        Word x;
        for (int k = 0; k < w.leaves; ++k) x.push_back(w.alpha[(i + (k % 2 ? g.below(2) : 0)) % w.alpha.size()]);
        s.push_back(x);
      }
      break;
    }
    case 4: // small mutations of a word
    {
      const Word base = gen_word(g, w);
      s.push_back(base);
      const int n = g.range(0, std::min(max_words, 12));
      for (int i = 0; i < n; ++i)
      {
        Word x = base;
        x[g.below(x.size())] = g.pick(w.alpha);
        s.push_back(x);
      }
      break;
    }
    default: // everything, if affordable
    {
      double u = 1;
      for (int i = 0; i < w.leaves; ++i) u *= w.alpha.size();
      if (u <= max_words)
      {
        s = product_set(std::vector<std::vector<unsigned>>(w.leaves, w.alpha));
        if (!s.empty() && g.chance(50)) s.erase(s.begin() + g.below(s.size()));
      }
      else s.push_back(gen_word(g, w));
    }
  }
  normalize(s);
  return s;
}

inline SDD build(G& g, const World& w, const Set& s)
{
  switch (g.range(0, 2))
  {
    case 0: return build_canonical(w, s);
    case 1: return build_sum(w, s);
    default: return build_incremental(w, s);
  }
}

} // namespace
} // namespace md
