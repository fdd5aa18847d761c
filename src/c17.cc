// C17 -- diagram statistics count the actual nodes, arcs and bytes.
#include "model.hh"

#include "sdd/tools/arcs.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/size.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C17";
const char* const rule =
  "case = a random diagram: of a random set over a random (nested) order, or made of random nodes over a growing pool of "
  "diagrams used both as successors and as nested diagrams, so that nodes are shared between levels and hierarchies. The "
  "results of all statistics tools are compared with our own traversal, which identifies nodes by equality. "
  "Non-trivial: at least 5 nodes, one of them reached by two arcs.";
}
#endif

using namespace md;
namespace {

struct Count
{
  std::vector<SDD> seen; // non-terminal nodes
  std::unordered_map<std::size_t, std::vector<std::size_t>> idx; // hash -> indexes
  unsigned flat = 0, hier = 0, flat_arcs = 0, hier_arcs = 0;
  std::map<unsigned, std::pair<unsigned, unsigned>> freq;
  bool zero = false, one = false, shared = false;

  struct V
  {
    Count& c;
    int operator()(const sdd::zero_terminal<C>&) const { c.zero = true; return 0; }
    int operator()(const sdd::one_terminal<C>&) const { c.one = true; return 0; }
    int operator()(const sdd::flat_node<C>& n) const
    {
      unsigned k = 0;
      for (const auto& a : n) { ++k; c.go(a.successor()); }
      ++c.flat;
      c.flat_arcs += k;
      ++c.freq[k].first;
      return 0;
    }
    int operator()(const sdd::hierarchical_node<C>& n) const
    {
      unsigned k = 0;
      for (const auto& a : n) { ++k; c.go(a.valuation()); c.go(a.successor()); }
      ++c.hier;
      c.hier_arcs += k;
      ++c.freq[k].second;
      return 0;
    }
  };

  void go(const SDD& x)
  {
    if (x == sdd::zero<C>()) { zero = true; return; }
    if (x == sdd::one<C>()) { one = true; return; }
    auto& v = idx[std::hash<SDD>()(x)];
    for (auto i : v) if (seen[i] == x) { shared = true; return; }
    v.push_back(seen.size());
    seen.push_back(x);
    sdd::visit(V{*this}, x);
  }
};

template <typename P, typename Q> bool same(const P& p, const Q& q) { return p.first == q.first && p.second == q.second; }

void verify(G& g, const SDD& x, const std::string& what)
{
  Count c;
  c.go(x);
  const auto n = sdd::tools::nodes(x);
  VF_CHECK(g, n.first == c.flat && n.second == c.hier, what << ": " << n.first << " flat and " << n.second << " hierarchical nodes instead of " << c.flat << " and " << c.hier);
  const auto f = sdd::tools::arcs(x);
  std::map<unsigned, std::pair<unsigned, unsigned>> got(f.begin(), f.end());
  VF_CHECK(g, got == c.freq, what << ": frequencies of arcs");
  const auto a = sdd::tools::number_of_arcs(f);
  VF_CHECK(g, a.first == c.flat_arcs && a.second == c.hier_arcs, what << ": " << a.first << " and " << a.second << " arcs instead of " << c.flat_arcs << " and " << c.hier_arcs);
  const std::size_t node = sizeof(SDD::unique_type);
  const std::size_t bytes = (c.flat + c.hier) * node + c.flat_arcs * sizeof(sdd::flat_node<C>::arc_type) + c.hier_arcs * sizeof(sdd::hierarchical_node<C>::arc_type)
                          + (c.zero ? sizeof(sdd::zero_terminal<C>) : 0) + (c.one ? sizeof(sdd::one_terminal<C>) : 0);
  VF_CHECK(g, sdd::tools::size(x) == bytes, what << ": " << sdd::tools::size(x) << " bytes instead of " << bytes);
  const auto s = sdd::tools::statistics(x);
  VF_CHECK(g, s.bytes() == bytes && s.arcs_frequency() == f && same(s.all_nodes(), n) && same(s.all_arcs(), a), what << ": summary");
  const sdd::tools::sdd_statistics<C> s2(x);
  VF_CHECK(g, s2.bytes() == bytes && s2.arcs_frequency() == f && same(s2.all_nodes(), n) && same(s2.all_arcs(), a), what << ": summary");
  if (c.flat + c.hier >= 5 && c.shared) g.nontrivial();
  g.desc << n.first << "+" << n.second << " nodes, " << a.first << "+" << a.second << " arcs; ";
}

void from_sets(G& g)
{
  ShapeOpts so;
  so.max_leaves = 8;
  const World w = gen_world(g, so, 4, 3000);
  auto m = sdd::init<C>(gen_conf(g));
  g.desc << show(w) << " ";
  for (int i = 0, n = g.range(1, 4); i < n; ++i)
  {
    const Set s = gen_set(g, w, 60);
    const SDD x = build(g, w, s);
    const std::size_t live = m.sdd_stats().size;
    verify(g, x, "a diagram of " + show(s) + " over " + show(w));
    VF_CHECK(g, m.sdd_stats().size == live, "the tools changed the number of nodes");
    expect_set(g, w, x, s, "after the tools");
  }
}

// Any nodes: the same diagrams as successors and nested diagrams, many arcs.
void from_nodes(G& g)
{
  auto m = sdd::init<C>(gen_conf(g));
  struct D { SDD x; unsigned height; };
  std::vector<D> pool{D{sdd::one<C>(), 0}};
  const unsigned dom = std::min<unsigned>(vt::max_value, 60);
  for (int i = 0, n = g.range(1, 40); i < n; ++i)
  {
    const D succ = g.pick(pool);
    if (succ.height >= 12) continue;
    if (g.below(3) == 2 && pool.size() > 2)
    {
      const D nested = g.pick(pool);
      pool.push_back(D{SDD(succ.height, nested.x, succ.x), succ.height + 1});
    }
    else
    {
      // Several arcs, to diagrams of the same height.
      std::vector<SDD> ops;
      std::set<unsigned> used;
      std::vector<D> same;
      for (const auto& d : pool) if (d.height == succ.height) same.push_back(d);
      for (int k = 0, q = g.range(1, 5); k < q; ++k)
      {
        std::vector<unsigned> vs;
        for (int v = 0, z = g.range(1, 4); v < z; ++v) { const unsigned y = g.below(dom); if (used.insert(y).second) vs.push_back(y); }
        if (vs.empty()) continue;
        ops.push_back(SDD(succ.height, mkv(vs), g.pick(same).x));
      }
      try { pool.push_back(D{sdd::sum<C>(ops.begin(), ops.end()), succ.height + 1}); }
      catch (const sdd::top<C>&) { continue; } // levels of different kinds can't be summed
    }
    if (pool.size() > 25) pool.erase(pool.begin() + 1 + g.below(pool.size() - 1));
  }
  verify(g, pool.back().x, "a diagram");
  const D& d = g.pick(pool);
  verify(g, d.x, "a diagram");
  verify(g, sdd::zero<C>(), "|0|");
  verify(g, sdd::one<C>(), "|1|");
  g.label("from nodes");
}

// Large diagrams, thousands of nodes.
void large(G& g)
{
  const int leaves = g.range(20, 200);
  Shape s;
  int id = 0;
  for (int i = 0; i < leaves; )
  {
    Level l;
    l.id = id++;
    if (g.below(3) == 2) { const int k = 1 + g.below(4); for (int j = 0; j < k && i < leaves; ++j, ++i) { Level q; q.id = id++; l.sub.push_back(q); } l.leaves = static_cast<int>(l.sub.size()); }
    else ++i;
    s.push_back(l);
  }
  const World w = make_world(s, gen_alphabet(g, 2, 4));
  auto m = sdd::init<C>(roomy_conf());
  std::uint64_t seed = g.bulk_seed();
  SDD x = sdd::zero<C>();
  for (int i = 0, n = g.range(1, 30); i < n; ++i)
  {
    Word word;
    for (int k = 0; k < w.leaves; ++k) word.push_back(w.alpha[vf::mix(seed) % w.alpha.size()]);
    x += singleton(w, word);
  }
  verify(g, x, "a large diagram");
}

// Very large ones: a tree of nested diagrams whose leaves are all different.
void trees(G& g)
{
  auto m = sdd::init<C>(roomy_conf());
  const unsigned n = g.below(10) == 0 ? 66000 + static_cast<unsigned>(g.below(3000)) : 100 + static_cast<unsigned>(g.below(3000));
  std::vector<SDD> level;
  for (unsigned i = 1; i <= n; ++i)
  {
    std::vector<unsigned> vs;
    for (unsigned b = 0; b < 20; ++b) if (i >> b & 1) vs.push_back(b);
    level.push_back(SDD(0, mkv(vs), sdd::one<C>()));
  }
  unsigned h = 1;
  while (level.size() > 1)
  {
    std::vector<SDD> up;
    for (std::size_t i = 0; i + 1 < level.size(); i += 2) up.push_back(SDD(h, level[i], level[i + 1]));
    if (level.size() % 2) up.push_back(level.back());
    level.swap(up);
    ++h;
  }
  verify(g, level[0], "a tree of " + std::to_string(n) + " leaves");
}

VF_CASE("trees/" VF_CONF_NAME, 1, trees);
VF_CASE("sets/" VF_CONF_NAME, 40, from_sets);
VF_CASE("nodes/" VF_CONF_NAME, 40, from_nodes);
VF_CASE("large/" VF_CONF_NAME, 2, large);

} // namespace
