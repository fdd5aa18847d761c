// C25 -- serialized statistics carry every figure under its name.
#include "model.hh"

#include "sdd/tools/arcs.hh"
#include "sdd/tools/manager_statistics.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/size.hh"
#include "sdd/tools/serialization.hh"

#include <cereal/archives/json.hpp>

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C25";
const char* const rule =
  "case = a random history of operations on diagrams and homomorphisms with a random configuration, after some steps of "
  "which the statistics of the manager and of random diagrams are serialized as JSON, read by an independent reader and "
  "compared, name by name, with the counters of the manager and with an own traversal of the diagrams. Non-trivial: a "
  "serialized diagram had at least 3 nodes and the counters of at least two tables or caches differed.";
}
#endif

using namespace md;
namespace {

// A JSON document: objects, arrays, numbers.
struct J
{
  std::map<std::string, J> fields;
  std::vector<J> items;
  std::string number;
};

struct Reader
{
  G& g;
  const std::string& s;
  std::size_t p = 0;

  [[noreturn]] void bad(const char* what) { VF_FAIL(g, "not well-formed JSON (" << what << " at " << p << "): " << s.substr(0, 400)); }
  char peek()
  {
    while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p]))) ++p;
    if (p >= s.size()) bad("end");
    return s[p];
  }
  void eat(char c) { if (peek() != c) bad("unexpected character"); ++p; }

  std::string text()
  {
    eat('"');
    std::string r;
    while (p < s.size() && s[p] != '"') r += s[p++];
    eat('"');
    return r;
  }

  J value()
  {
    J j;
    switch (peek())
    {
      case '{':
        ++p;
        if (peek() == '}') { ++p; return j; }
        while (true)
        {
          const std::string k = text();
          eat(':');
          if (!j.fields.emplace(k, value()).second) bad("duplicate name");
          if (peek() == ',') { ++p; continue; }
          eat('}');
          return j;
        }
      case '[':
        ++p;
        if (peek() == ']') { ++p; return j; }
        while (true)
        {
          j.items.push_back(value());
          if (peek() == ',') { ++p; continue; }
          eat(']');
          return j;
        }
      case '"': j.number = text(); return j; // wide integers may be given as strings
      default:
        while (p < s.size() && (std::isalnum(static_cast<unsigned char>(s[p])) || s[p] == '.' || s[p] == '-' || s[p] == '+')) j.number += s[p++];
        if (j.number.empty()) bad("expected a value");
        return j;
    }
  }
};

J parse(G& g, const std::string& s) { Reader r{g, s}; J j = r.value(); return j; }

const J& at(G& g, const J& j, const std::string& k, const std::string& where)
{
  auto it = j.fields.find(k);
  if (it == j.fields.end()) VF_FAIL(g, where << ": no field '" << k << "'");
  return it->second;
}

void expect(G& g, const J& j, const std::string& k, std::size_t v, const std::string& where)
{
  const std::string& n = at(g, j, k, where).number;
  VF_CHECK(g, n == std::to_string(v), where << ": '" << k << "' is " << n << ", expected " << v);
}

void expect_real(G& g, const J& j, const std::string& k, double v, const std::string& where)
{
  const std::string& n = at(g, j, k, where).number;
  const double r = std::strtod(n.c_str(), nullptr);
  VF_CHECK(g, std::abs(r - v) <= 1e-9 * std::abs(v), where << ": '" << k << "' is " << n << ", expected " << v);
}

/*------------------------------------------------------------------------------------------------*/

struct Count
{
  std::set<const void*> seen;
  std::size_t flat = 0, hier = 0, flat_arcs = 0, hier_arcs = 0;
  std::map<std::size_t, std::pair<std::size_t, std::size_t>> freq;

  struct V
  {
    Count& c;
    void operator()(const sdd::zero_terminal<C>&) const {}
    void operator()(const sdd::one_terminal<C>&) const {}
    void operator()(const sdd::flat_node<C>& n) const
    {
      std::size_t k = 0;
      for (const auto& a : n) { ++k; c(a.successor()); }
      ++c.flat;
      c.flat_arcs += k;
      ++c.freq[k].first;
    }
    void operator()(const sdd::hierarchical_node<C>& n) const
    {
      std::size_t k = 0;
      for (const auto& a : n) { ++k; c(a.valuation()); c(a.successor()); }
      ++c.hier;
      c.hier_arcs += k;
      ++c.freq[k].second;
    }
  };
  void operator()(const SDD& x) { if (seen.insert(&*x).second) sdd::visit(V{*this}, x); }
};

template <typename T>
std::string serialize(G& g, const T& x)
{
  std::ostringstream os;
  { cereal::JSONOutputArchive a(os); a(cereal::make_nvp("it", x)); }
  VF_CHECK(g, bool(os), "the stream of the archive failed");
  return os.str();
}

std::size_t check_diagram(G& g, const SDD& x)
{
  const std::string txt = serialize(g, sdd::tools::statistics(x));
  const J doc = parse(g, txt);
  const J& j = at(g, doc, "it", "document");
  Count c;
  c(x);
  const std::string where = "diagram statistics " + txt.substr(0, 600);
  expect(g, j, "bytes", sdd::tools::size(x), where);
  expect(g, j, "flat nodes", c.flat, where);
  expect(g, j, "hierarchical nodes", c.hier, where);
  expect(g, j, "flat arcs", c.flat_arcs, where);
  expect(g, j, "hierarchical arcs", c.hier_arcs, where);
  std::map<std::size_t, std::pair<std::size_t, std::size_t>> freq;
  const J& f = at(g, j, "arcs frequency", where);
  for (const J& e : f.items)
  {
    const J& v = at(g, e, "value", where);
    const auto num = [&](const J& o, const char* k) { return std::size_t(std::strtoull(at(g, o, k, where).number.c_str(), nullptr, 10)); };
    VF_CHECK(g, freq.emplace(num(e, "key"), std::make_pair(num(v, "first"), num(v, "second"))).second, where << ": a number of arcs given twice");
  }
  VF_CHECK(g, freq == c.freq, where << ": frequency of arcs");
  return c.flat + c.hier;
}

#if VF_CONF != 0 && VF_CONF != 3
void check_table(G& g, const J& doc, const char* name, const sdd::mem::unique_table_statistics& s)
{
  const J& j = at(g, doc, name, "manager statistics");
  expect(g, j, "#", s.size, name);
  expect(g, j, "# peak", s.peak, name);
  expect(g, j, "# accesses", s.access, name);
  expect(g, j, "# hits", s.hits, name);
  expect(g, j, "# misses", s.misses, name);
  expect(g, j, "# rehash", s.rehash, name);
  expect(g, j, "# collisions", s.collisions, name);
  expect(g, j, "# alone", s.alone, name);
  expect(g, j, "# empty", s.empty, name);
  expect(g, j, "# buckets", s.buckets, name);
  expect_real(g, j, "load factor", s.load_factor, name);
  VF_CHECK(g, s.collisions + s.alone + s.empty == s.buckets, name << ": the occupancy doesn't cover the buckets");
  VF_CHECK(g, s.alone + 2 * s.collisions <= s.size && s.hits + s.misses == s.access, name << ": inconsistent counters");
}

void check_cache(G& g, const J& doc, const char* name, const sdd::mem::cache_statistics& s)
{
  const J& j = at(g, doc, name, "manager statistics");
  expect(g, j, "#", s.size, name);
  expect(g, j, "# hits", s.hits, name);
  expect(g, j, "# misses", s.misses, name);
  expect(g, j, "# filtered", s.filtered, name);
  expect(g, j, "# discarded", s.discarded, name);
  expect(g, j, "# collisions", s.collisions, name);
  expect(g, j, "# alone", s.alone, name);
  expect(g, j, "# empty", s.empty, name);
  expect(g, j, "# buckets", s.buckets, name);
  expect_real(g, j, "load factor", s.load_factor, name);
  VF_CHECK(g, s.collisions + s.alone + s.empty == s.buckets, name << ": the occupancy doesn't cover the buckets");
  VF_CHECK(g, s.alone + 2 * s.collisions <= s.size, name << ": inconsistent counters");
}

bool check_manager(G& g, const sdd::manager<C>& m)
{
  // Copies: the counters of the manager itself, before the tools look at it.
  const sdd::mem::unique_table_statistics sdd_t = m.sdd_stats(), hom_t = m.hom_stats(), val_t = m.values_stats();
  const sdd::mem::cache_statistics diff = m.sdd_difference_cache_stats(), inter = m.sdd_intersection_cache_stats(),
                                   sum = m.sdd_sum_cache_stats(), hom = m.hom_cache_stats();
  const std::string txt = serialize(g, sdd::tools::statistics(m));
  const J doc = parse(g, txt);
  const J& j = at(g, doc, "it", "document");
  check_table(g, j, "SDD unique table", sdd_t);
  check_cache(g, j, "SDD differences cache", diff);
  check_cache(g, j, "SDD intersections cache", inter);
  check_cache(g, j, "SDD sums cache", sum);
  check_table(g, j, "hom unique table", hom_t);
  check_cache(g, j, "hom cache", hom);
  check_table(g, j, "values", val_t);
  return diff.misses != inter.misses && inter.misses != sum.misses && sdd_t.access != hom_t.access;
}
#else
bool check_manager(G&, const sdd::manager<C>&) { return true; }
#endif

void history(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 5, 400);
  std::string ctxt;
  const C conf = gen_conf(g, &ctxt);
  g.desc << show(w) << " " << ctxt << ":";
  auto m = sdd::init<C>(conf);
  std::vector<SDD> xs{sdd::zero<C>()};
  std::vector<Hom> homs;
  std::size_t biggest = 0;
  bool apart = false;
  for (int i = 0, n = g.range(1, 14); i < n; ++i)
  {
    switch (g.range(0, 8))
    {
      case 0: case 1: { const Set s = gen_set(g, w, 40); xs.push_back(build(g, w, s)); g.desc << " new" << s.size(); break; }
      case 2: case 3: case 4: case 5:
      {
        const SDD a = g.pick(xs), b = g.pick(xs);
        const int op = g.range(0, 2);
        xs.push_back(op == 0 ? a + b : op == 1 ? (a & b) : a - b);
        g.desc << " " << "+&-"[op];
        break;
      }
      case 6: { homs.push_back(sdd::constant<C>(g.pick(xs))); g.desc << " hom"; break; }
      case 7:
      {
        if (homs.empty()) break;
        const Hom h = g.chance(50) ? g.pick(homs) : sdd::composition(g.pick(homs), g.pick(homs));
        xs.push_back(h(w.order(), g.pick(xs)));
        g.desc << " apply";
        break;
      }
      default: if (xs.size() > 1) { xs.erase(xs.begin() + 1 + g.below(xs.size() - 1)); g.desc << " drop"; }
    }
    if (g.chance(35) || i + 1 == n)
    {
      if (g.chance(60) || i + 1 == n) apart = check_manager(g, m) || apart;
      biggest = std::max(biggest, check_diagram(g, g.chance(5) ? sdd::one<C>() : g.pick(xs)));
      g.desc << " ser";
    }
  }
  if (biggest >= 3 && apart) g.nontrivial();
}

VF_CASE("statistics as JSON/" VF_CONF_NAME, 40, history);

} // namespace
