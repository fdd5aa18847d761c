// C14 -- ordering strategies preserve identifiers and do what they promise.
#include "model.hh"

#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/force.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C14";
const char* const rule =
  "case = (a) a random order builder (nested, with artificial levels) given to flatten and to identifiers_per_hierarchy "
  "with group sizes from 1 to beyond its height, possibly several times, the result compared structurally with the input "
  "once the created levels are unfolded, and diagrams carried over; or (b) a random hypergraph (isolated vertices, repeated "
  "and duplicate hyperedges, weights) given to FORCE with 0 to 30 iterations, whose result must be a permutation with "
  "the smallest of the spans, computed again from the result. Non-trivial: (a) at least 4 levels and a change of structure, "
  "(b) at least 4 vertices, 3 hyperedges and 2 different spans.";
}
#endif

using namespace md;
namespace {

struct T { unsigned art = 0; Id id{}; std::vector<T> sub; };
using Ts = std::vector<T>;

Ts read(const Builder& b)
{
  Ts r;
  for (Builder cur = b; !cur.empty(); cur = cur.next())
  {
    T t;
    t.art = cur.identifier().artificial();
    if (!t.art) t.id = cur.identifier().user();
    t.sub = read(cur.nested());
    r.push_back(t);
  }
  return r;
}

bool same(const Ts& a, const Ts& b)
{
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if (a[i].art != b[i].art || a[i].id != b[i].id || !same(a[i].sub, b[i].sub)) return false;
  return true;
}

std::string showt(const Ts& t)
{
  std::ostringstream os;
  os << "(";
  for (const auto& x : t) { os << " "; if (x.art) os << "@" << x.art; else os << x.id; if (!x.sub.empty()) os << showt(x.sub); }
  os << " )";
  return os.str();
}

void arts(const Ts& t, std::set<unsigned>& s) { for (const auto& x : t) { if (x.art) s.insert(x.art); arts(x.sub, s); } }
void flats(const Ts& t, std::vector<Id>& f) { for (const auto& x : t) { if (x.sub.empty()) f.push_back(x.id); else flats(x.sub, f); } }
std::size_t total(const Ts& t) { std::size_t n = t.size(); for (const auto& x : t) n += total(x.sub); return n; }

// Unfolds levels created since; checks the size of each scope created.
Ts unfold(G& g, const Ts& t, const std::set<unsigned>& old, std::size_t nb, std::set<unsigned>& created)
{
  Ts r;
  for (const auto& x : t)
  {
    if (x.art && !old.count(x.art))
    {
      VF_CHECK(g, created.insert(x.art).second, "an artificial identifier appears twice");
      VF_CHECK(g, !x.sub.empty(), "a flat level with an artificial identifier");
      VF_CHECK(g, x.sub.size() <= nb, "a group of " << x.sub.size() << " levels instead of at most " << nb);
      const Ts s = unfold(g, x.sub, old, nb, created);
      r.insert(r.end(), s.begin(), s.end());
    }
    else r.push_back(x);
  }
  return r;
}

void strategies(G& g)
{
  ShapeOpts so;
  so.max_leaves = g.oneof<int>({5, 12, 60, 200});
  so.max_depth = g.range(1, 4);
  const Shape s = gen_shape(g, so);
  Builder b = g.chance(3) ? Builder() : make_builder(s);
  const std::size_t levels = b.size();
  bool changed = false;
  std::string log;
  for (int step = 0, n = g.range(1, 4); step < n; ++step)
  {
    const Ts before = read(b);
    std::vector<Id> fb, fa;
    flats(before, fb);
    if (g.below(4) == 3)
    {
      const Builder r = sdd::flatten<C>()(b);
      const Ts after = read(r);
      flats(after, fa);
      for (const auto& x : after) VF_CHECK(g, x.sub.empty() && !x.art, "a hierarchy is left by flatten in " << showt(after));
      VF_CHECK(g, fa == fb, "flatten changes identifiers: " << showt(before) << " becomes " << showt(after));
      changed = changed || !same(before, after);
      VF_CHECK(g, same(read(b), before), "flatten modified its operand");
      b = r;
      log += "flatten ";
    }
    else
    {
      const std::size_t h = before.size();
      const unsigned nb = g.below(2) ? 1 + g.below(static_cast<unsigned>(h + 2)) : g.oneof<unsigned>({2, 1, 3, 4, 5, 7});
      const Builder r = sdd::identifiers_per_hierarchy<C>(nb)(b);
      const Ts after = read(r);
      std::set<unsigned> old, created;
      arts(before, old);
      const Ts back = unfold(g, after, old, nb, created);
      VF_CHECK(g, same(back, before), "grouping by " << nb << " changes identifiers: " << showt(before) << " becomes " << showt(after));
      flats(after, fa);
      VF_CHECK(g, fa == fb, "grouping changes flat identifiers");
      if (nb == 1 || h <= nb) VF_CHECK(g, created.empty(), "grouping by " << nb << " creates levels in " << showt(before));
      if (nb > 1) VF_CHECK(g, after.size() <= nb, "grouping by " << nb << " leaves " << after.size() << " levels at the top");
      VF_CHECK(g, same(read(b), before), "grouping modified its operand");
      changed = changed || !created.empty();
      b = r;
      log += "per_hierarchy(" + std::to_string(nb) + ") ";
    }
  }
  // The order made of the result contains the same flat identifiers.
  {
    const Order o(b);
    std::vector<Id> f, got;
    flats(read(b), f);
    o.flat(std::back_inserter(got));
    VF_CHECK(g, got == f, "flat identifiers of the resulting order");
  }
  g.desc << show(s).substr(0, 80) << " " << log;
  if (levels >= 4 && changed) g.nontrivial();
}

/*------------------------------------------------------------------------------------------------*/

void force(G& g)
{
  const int n = g.oneof<int>({1, 2, 4, 6, 10, 30});
  std::vector<Id> ids;
  for (int i = 0; i < n; ++i) ids.push_back(ident(i));
  g.shuffle(ids);
  const bool weights = g.chance(30);
  struct Edge { std::vector<Id> ids; double w; };
  std::vector<Edge> edges;
  for (int i = 0, m = g.range(0, g.oneof<int>({3, 8, 30})); i < m; ++i)
  {
    Edge e;
    if (!edges.empty() && g.chance(10)) e = g.pick(edges);
    else for (int k = 0, q = g.small(0, std::min(n + 1, 6)); k < q; ++k) e.ids.push_back(g.pick(ids));
    e.w = weights ? g.oneof<double>({1, 2, 0.5, 3, 10, 0}) : 1;
    edges.push_back(e);
  }
  auto make = [&]
  {
    sdd::force::hypergraph<C> hg(ids.begin(), ids.end());
    for (const auto& e : edges) { if (e.w != 1 || g.below(1)) hg.add_hyperedge(e.ids.begin(), e.ids.end(), e.w); else hg.add_hyperedge(e.ids.begin(), e.ids.end()); }
    return hg;
  };
  auto list = [&](const Builder& b)
  {
    std::vector<Id> r;
    for (Builder c = b; !c.empty(); c = c.next())
    {
      VF_CHECK(g, c.nested().empty() && !c.identifier().is_artificial(), "FORCE creates a hierarchy");
      r.push_back(c.identifier().user());
    }
    std::vector<Id> x(r), y(ids);
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    VF_CHECK(g, x == y, "FORCE returns " << r.size() << " identifiers, not a permutation of the " << ids.size() << " given");
    return r;
  };
  auto span = [&](const std::vector<Id>& o)
  {
    double t = 0;
    std::map<Id, int> pos;
    for (std::size_t i = 0; i < o.size(); ++i) pos[o[i]] = static_cast<int>(i);
    for (const auto& e : edges)
    {
      if (e.ids.empty()) continue;
      int lo = n, hi = -1;
      for (const auto& x : e.ids) { lo = std::min(lo, pos[x]); hi = std::max(hi, pos[x]); }
      t += hi - lo;
    }
    return t;
  };
  const unsigned iterations = g.oneof<unsigned>({10, 0, 1, 2, 3, 30});
  auto graph = make();
  std::set<double> spans_seen;
  std::vector<Id> first;
  auto run = [&](sdd::force::hypergraph<C>& gr, bool rev)
  {
    sdd::force::worker<C> w(gr, rev);
    const auto r = list(w(iterations));
    VF_CHECK(g, w.spans().size() == iterations, w.spans().size() << " spans for " << iterations << " iterations");
    if (iterations > 0)
    {
      const double best = *std::min_element(w.spans().begin(), w.spans().end());
      VF_CHECK(g, span(r) == best, "the span of the result is " << span(r) << ", the smallest one is " << best << " among " << w.spans().size());
      spans_seen.insert(w.spans().begin(), w.spans().end());
    }
    return r;
  };
  const auto r1 = run(graph, false);
  if (!weights || iterations == 0)
  {
    auto graph2 = make();
    auto r2 = run(graph2, true);
    std::reverse(r2.begin(), r2.end());
    VF_CHECK(g, r1 == r2, "the reversed order isn't the reverse of the order");
  }
  else run(graph, true); // again on the same graph
  g.desc << n << " vertices, " << edges.size() << " hyperedges" << (weights ? " with weights" : "") << ", " << iterations << " iterations, " << spans_seen.size() << " spans";
  // Twice the same identifier.
  if (g.chance(10))
  {
    auto dup = ids;
    dup.push_back(g.pick(ids));
    bool thrown = false;
    try { sdd::force::hypergraph<C> hg(dup.begin(), dup.end()); } catch (const std::runtime_error&) { thrown = true; }
    VF_CHECK(g, thrown, "a hypergraph with a duplicate identifier is accepted");
  }
  if (n >= 4 && edges.size() >= 3 && spans_seen.size() >= 2) g.nontrivial();
}

// Orders of very many levels, and hypergraphs with many or large hyperedges.
void large(G& g)
{
  const int n = g.oneof<int>({300, 700, 1500});
  if (g.below(2))
  {
    Builder b;
    for (int i = 0; i < n; ++i)
    {
      if (g.below(400) == 0) { Builder in; for (int k = 0, q = g.range(2, 300); k < q; ++k) in.push(ident(10000 + i * 400 + k)); b.push(ident(1000000 + i), in); }
      else b.push(ident(i));
    }
    const Ts before = read(b);
    std::vector<Id> fb, fa;
    flats(before, fb);
    const unsigned nb = g.oneof<unsigned>({2, 3, 7, 64, 255, 256, 257, 299, 300, 1000});
    const Builder r = sdd::identifiers_per_hierarchy<C>(nb)(b);
    const Ts after = read(r);
    std::set<unsigned> old, created;
    arts(before, old);
    const Ts back = unfold(g, after, old, nb, created);
    VF_CHECK(g, same(back, before), "grouping " << before.size() << " levels by " << nb << " changes identifiers");
    VF_CHECK(g, after.size() <= nb, "grouping by " << nb << " leaves " << after.size() << " levels at the top");
    flats(after, fa);
    VF_CHECK(g, fa == fb, "grouping changes flat identifiers");
    const Ts flat = read(sdd::flatten<C>()(r));
    std::vector<Id> ff;
    flats(flat, ff);
    VF_CHECK(g, ff == fb && flat.size() == fb.size(), "flattening " << before.size() << " levels changes identifiers");
    for (const auto& x : flat) VF_CHECK(g, x.sub.empty() && !x.art, "a hierarchy is left by flatten");
    g.desc << before.size() << " levels, " << fb.size() << " flat identifiers, grouped by " << nb;
  }
  else
  {
    std::vector<Id> ids;
    for (int i = 0; i < n; ++i) ids.push_back(ident(i));
    std::vector<std::vector<int>> edges;
    std::uint64_t seed = g.bulk_seed();
    const int m = g.oneof<int>({5, 300, 1200});
    const int most = m > 100 ? 6 : g.oneof<int>({10, 300});
    sdd::force::hypergraph<C> graph(ids.begin(), ids.end());
    for (int i = 0; i < m; ++i)
    {
      std::vector<int> e;
      std::vector<Id> ei;
      for (int k = 0, q = 1 + static_cast<int>(vf::mix(seed) % most); k < q; ++k) { e.push_back(static_cast<int>(vf::mix(seed) % n)); ei.push_back(ids[e.back()]); }
      edges.push_back(e);
      graph.add_hyperedge(ei.begin(), ei.end());
    }
    const unsigned iterations = g.oneof<unsigned>({1, 5, 40});
    sdd::force::worker<C> w(graph, false);
    const Builder b = w(iterations);
    std::map<Id, int> number, pos;
    for (int i = 0; i < n; ++i) number[ids[i]] = i;
    std::vector<int> at(n, -1);
    int p = 0;
    for (Builder c = b; !c.empty(); c = c.next(), ++p)
    {
      const auto it = number.find(c.identifier().user());
      VF_CHECK(g, it != number.end() && at[it->second] == -1 && c.nested().empty(), "FORCE doesn't return a permutation");
      at[it->second] = p;
    }
    VF_CHECK(g, p == n, "FORCE returns " << p << " identifiers instead of " << n);
    double total = 0;
    for (const auto& e : edges)
    {
      int lo = n, hi = -1;
      for (int x : e) { lo = std::min(lo, at[x]); hi = std::max(hi, at[x]); }
      total += hi - lo;
    }
    VF_CHECK(g, w.spans().size() == iterations, w.spans().size() << " spans for " << iterations << " iterations");
    const double best = *std::min_element(w.spans().begin(), w.spans().end());
    VF_CHECK(g, total == best, "the span of the result is " << total << ", the smallest one is " << best);
    g.desc << n << " vertices, " << m << " hyperedges, " << iterations << " iterations";
  }
  g.label("large");
  g.nontrivial();
}

VF_CASE("large/" VF_CONF_NAME, 1, [](G& g) { if (g.below(10) == 0) large(g); else strategies(g); });
VF_CASE("strategies/" VF_CONF_NAME, 50, strategies);
VF_CASE("force/" VF_CONF_NAME, 50, force);

} // namespace
