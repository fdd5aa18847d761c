// C10 -- handles are plain values; unused nodes are reclaimed.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C10";
const char* const rule =
  "case = (a) a random history of copies, moves, swaps, self-assignments, assignments from a part of what the handle "
  "owns, container operations and destructions over handles of diagrams, homomorphisms and value sets, checked "
  "against a model after each step; or (b) a random program of set operations, homomorphism evaluations and rewritings "
  "whose handles are all released and caches flushed, after which all table sizes must equal those of a manager that "
  "never ran the program; or (c) whole manager lifetimes between which the number of live heap allocations must not "
  "change. Non-trivial: (a) ten or more handle operations including one that released a node, (b, c) the program "
  "created at least 10 nodes.";
}
#endif

using namespace md;
namespace {

// A part of the top node of x, inside of the node itself: a nested diagram, or a successor if it's
// given by reference.
const SDD* by_ref(const SDD& x) { return &x; }
const SDD* by_ref(SDD&&) { return nullptr; }

struct PartOf
{
  std::size_t k;
  bool nested;
  const SDD* operator()(const sdd::zero_terminal<C>&) const { return nullptr; }
  const SDD* operator()(const sdd::one_terminal<C>&) const { return nullptr; }
  const SDD* operator()(const sdd::flat_node<C>& n) const
  {
    auto it = n.begin();
    std::advance(it, k % n.size());
    return nested ? nullptr : by_ref(it->successor());
  }
  const SDD* operator()(const sdd::hierarchical_node<C>& n) const
  {
    auto it = n.begin();
    std::advance(it, k % n.size());
    return nested ? by_ref(it->valuation()) : by_ref(it->successor());
  }
};

void handles(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 300);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  struct H { SDD x; const Shape* sh; std::size_t lvl; Set s; }; // diagram over the levels of sh from lvl on
  std::vector<H> hs;
  auto fresh = [&]() { Set s = gen_set(g, w, 15); SDD x = build(g, w, s); return H{x, &w.shape, 0, s}; };
  auto check = [&](const H& h, const std::string& what)
  {
    const Shape ls(h.sh->begin() + h.lvl, h.sh->end());
    Set got;
    try { got = Extractor()(ls, h.x); } catch (const Bad& b) { VF_FAIL(g, what << ": " << b.what); }
    VF_CHECK(g, got == h.s, what << ": expected " << show(h.s) << " got " << show(got) << " " << show(w));
  };
  hs.push_back(fresh());
  int ops = 0;
  bool part = false;
  for (int i = 0, n = g.range(5, 50); i < n; ++i)
  {
    if (hs.empty()) hs.push_back(fresh());
    const std::size_t a = g.below(hs.size()), b = g.below(hs.size());
    ++ops;
    std::string what;
    switch (g.range(0, 11))
    {
      case 0: if (hs.size() < 12) hs.push_back(fresh()); what = "construction"; break;
      case 1: { H c = hs[a]; hs.push_back(c); what = "copy"; break; }
      case 2: hs[a].x = hs[b].x; hs[a].s = hs[b].s; hs[a].lvl = hs[b].lvl; hs[a].sh = hs[b].sh; what = "copy assignment"; break;
      case 3:
      {
        SDD y(std::move(hs[a].x));
        hs[a].x = a != b ? hs[b].x : y;
        if (a != b) { const H old{y, hs[a].sh, hs[a].lvl, hs[a].s}; hs[a].lvl = hs[b].lvl; hs[a].sh = hs[b].sh; hs[a].s = hs[b].s; check(old, "moved"); }
        what = "move construction";
        break;
      }
      case 4: if (a != b) { hs[a].x = std::move(hs[b].x); hs[a].s = hs[b].s; hs[a].lvl = hs[b].lvl; hs[a].sh = hs[b].sh; hs.erase(hs.begin() + b); } what = "move assignment"; break;
      case 5: { using std::swap; swap(hs[a].x, hs[b].x); if (a != b) { std::swap(hs[a].s, hs[b].s); std::swap(hs[a].lvl, hs[b].lvl); std::swap(hs[a].sh, hs[b].sh); } what = "swap"; break; }
      case 6: { SDD& r = hs[a].x; const SDD& q = r; r = q; what = "self assignment"; break; }
      case 7: // from a part of itself
      case 8:
      {
        if (hs[a].lvl >= hs[a].sh->size()) break;
        const Level& l = (*hs[a].sh)[hs[a].lvl];
        const bool nested = !l.sub.empty() && g.below(4) != 0;
        const SDD* p = sdd::visit(PartOf{g.below(5), nested}, hs[a].x);
        if (p == nullptr) break;
        H n{sdd::zero<C>(), nested ? &l.sub : hs[a].sh, nested ? 0 : hs[a].lvl + 1, {}};
        n.s = Extractor()(Shape(n.sh->begin() + n.lvl, n.sh->end()), *p);
        part = true;
        if (g.below(2)) hs[a].x = *p; else { SDD& r = hs[a].x; r = std::move(const_cast<const SDD&>(*p)); }
        hs[a].sh = n.sh;
        hs[a].lvl = n.lvl;
        hs[a].s = n.s;
        what = "assignment of a part of itself";
        break;
      }
      case 9: hs.erase(hs.begin() + a); what = "destruction"; break;
      case 10: { std::vector<H> copy(hs); copy.insert(copy.begin(), hs[a < hs.size() ? a : 0]); std::reverse(copy.begin(), copy.end()); hs.swap(copy); if (hs.size() > 16) hs.resize(8, hs[0]); what = "container"; break; }
      default:
      {
        if (hs[a].lvl == hs[b].lvl && hs[a].sh == hs[b].sh) { const SDD r = hs[a].x + hs[b].x; const Set s = set_union(hs[a].s, hs[b].s); hs[a].x = r; hs[a].s = s; }
        what = "sum";
      }
    }
    for (const auto& h : hs) check(h, "after " + what);
  }
  g.desc << show(w) << " " << ctxt << " " << ops << " operations";
  if (part) g.label("part of itself");
  if (ops >= 10) g.nontrivial();
}

// Handles of homomorphisms and value sets.
void other_handles(G& g)
{
  ShapeOpts so;
  so.max_leaves = 4;
  const World w = gen_world(g, so, 4, 100);
  auto m = sdd::init<C>(gen_conf(g));
  GenOpts go;
  go.depth = 2;
  HomGen hg(g, w, go);
  struct HH { Hom h; Ref ref; std::string txt; };
  struct VV { Values v; std::vector<unsigned> e; };
  std::vector<HH> hs;
  std::vector<VV> vs;
  const Set s = gen_set(g, w, 10);
  const SDD x = build(g, w, s);
  int ops = 0;
  for (int i = 0, n = g.range(5, 30); i < n; ++i)
  {
    ++ops;
    if (hs.empty() || (hs.size() < 6 && g.below(4) == 0)) { hg.nodes = 0; const E e = hg.expr(); hg.top->pool.clear(); hs.push_back(HH{e.h, e.ref, e.txt}); }
    if (vs.empty() || (vs.size() < 6 && g.below(4) == 0)) { const auto e = gen_subset(g, w.alpha); vs.push_back(VV{mkv(e), vt::elems(mkv(e))}); }
    {
      const std::size_t a = g.below(hs.size()), b = g.below(hs.size());
      switch (g.range(0, 5))
      {
        case 0: hs[a] = hs[b]; break;
        case 1: { Hom& r = hs[a].h; const Hom& q = r; r = q; break; }
        case 2: { using std::swap; swap(hs[a].h, hs[b].h); if (a != b) { std::swap(hs[a].ref, hs[b].ref); std::swap(hs[a].txt, hs[b].txt); } break; }
        case 3: if (a != b) { hs[a].h = std::move(hs[b].h); hs[a].ref = hs[b].ref; hs[a].txt = hs[b].txt; hs.erase(hs.begin() + b); } break;
        case 4: hs.erase(hs.begin() + a); break;
        default: m.reset_hom_cache();
      }
    }
    {
      const std::size_t a = g.below(vs.size()), b = g.below(vs.size());
      switch (g.range(0, 4))
      {
        case 0: vs[a] = vs[b]; break;
        case 1: { Values& r = vs[a].v; const Values& q = r; r = q; break; }
        case 2: { using std::swap; swap(vs[a].v, vs[b].v); if (a != b) std::swap(vs[a].e, vs[b].e); break; }
        case 3: if (a != b) { vs[a].v = std::move(vs[b].v); vs[a].e = vs[b].e; vs.erase(vs.begin() + b); } break;
        default: vs.erase(vs.begin() + a);
      }
    }
    for (const auto& v : vs) VF_CHECK(g, vt::elems(v.v) == v.e, "a value set changed");
    if (!hs.empty())
    {
      const auto& h = g.pick(hs);
      expect_set(g, w, h.h(w.order(), x), s.empty() ? Set{} : h.ref(s), "homomorphism " + h.txt);
    }
  }
  g.desc << show(w) << " homomorphisms and value sets, " << ops << " steps";
  if (ops >= 10) g.nontrivial();
}

/*------------------------------------------------------------------------------------------------*/

template <typename M> auto values_size(const M& m, int) -> decltype(m.values_stats().size) { return m.values_stats().size; }
template <typename M> std::size_t values_size(const M&, long) { return 0; }

struct Sizes
{
  std::size_t sdd, hom, values;
  friend bool operator==(const Sizes& l, const Sizes& r) { return l.sdd == r.sdd && l.hom == r.hom && l.values == r.values; }
};
std::ostream& operator<<(std::ostream& os, const Sizes& s) { return os << "{sdd=" << s.sdd << " hom=" << s.hom << " values=" << s.values << "}"; }

template <typename M> Sizes sizes(const M& m) { return Sizes{m.sdd_stats().size, m.hom_stats().size, values_size(m, 0)}; }

// Replaces everything in the caches by the same known entries.
template <typename M>
void flush(M& m, std::size_t cap)
{
  const SDD one = sdd::one<C>();
  const unsigned top = std::min<unsigned>(vt::max_value, 60);
  const std::size_t n = 8 * cap + 8;
  for (std::size_t i = 0; i < n; ++i)
  {
    // Two-level words, all different for i < top^2.
    const unsigned a = static_cast<unsigned>(i / top) % top, b = static_cast<unsigned>(i) % top;
    const SDD x(900, mkv({a}), SDD(899, mkv({b}), one)), y(900, mkv({a}), SDD(899, mkv({(b + 1) % top}), one));
    const SDD s = x + y;
    const SDD d = s - y;
    const SDD t = s & x;
    (void)d; (void)t;
  }
  m.reset_hom_cache();
}

// Overwrites the scratch space that holds operands of the last saturation fixpoint built.
void flush_scratch(const World& w, const Hom& f, const Hom& h)
{
  const Hom r = sdd::rewrite<C>(w.order(), sdd::fixpoint<C>(sdd::sum<C>(w.order(), {sdd::id<C>(), f, h})));
  (void)r;
}

void program(G& g, const World& w, std::size_t& created, int call)
{
  auto& mm = *sdd::global_ptr<C>();
  (void)mm;
  GenOpts go;
  go.depth = 2;
  HomGen hg(g, w, go);
  hg.tags = call * 10000; // user homomorphisms are identified by their tag
  std::vector<SDD> pool;
  for (int i = 0, n = g.range(1, 4); i < n; ++i) pool.push_back(build(g, w, gen_set(g, w, 25)));
  for (int i = 0, n = g.range(3, 25); i < n; ++i)
  {
    const SDD a = g.pick(pool), b = g.pick(pool);
    SDD r = a;
    switch (g.range(0, 6))
    {
      case 0: r = a + b; break;
      case 1: r = a & b; break;
      case 2: r = a - b; break;
      case 3: r = sdd::sum<C>(pool.begin(), pool.end()); break;
      case 4: { hg.nodes = 0; const E e = hg.expr(); r = e.h(w.order(), a); break; }
      case 5: { hg.nodes = 0; const E e = hg.extensive_fixpoint(*hg.top, 1, false); r = sdd::rewrite<C>(w.order(), e.h)(w.order(), a); break; }
      default: { auto p = a.paths(); int k = 0; for (const auto& y : p) { (void)y; if (++k > 3) break; } (void)a.size(); }
    }
    if (pool.size() < 8) pool.push_back(r); else pool[g.below(pool.size())] = r;
    if (g.below(5) == 0) pool.erase(pool.begin() + g.below(pool.size()));
    if (pool.empty()) pool.push_back(sdd::zero<C>());
  }
  created += pool.size();
}

C flushable_conf(std::size_t cap)
{
  C c = roomy_conf();
  c.sdd_difference_cache_size = c.sdd_intersection_cache_size = c.sdd_sum_cache_size = cap;
  c.hom_cache_size = 500;
  c.sdd_unique_table_size = 100;
  c.hom_unique_table_size = 100;
  return c;
}

Hom scratch_fun(const World& w, int which)
{
  std::vector<int> ids;
  flat_ids(w.shape, ids);
  FnBase b;
  Table t;
  t.m[w.alpha[0]] = {w.alpha[0], w.alpha[w.alpha.size() - 1], static_cast<unsigned>(which)};
  b.t = std::make_shared<Table>(t);
  b.sel = b.shift = false;
  Fn<0> f;
  static_cast<FnBase&>(f) = b;
  return sdd::function<C>(w.order(), ident(ids[0]), std::move(f));
}

void reclaim(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 300);
  const std::size_t cap = g.oneof<std::size_t>({2, 4, 16, 64});
  const C conf = flushable_conf(cap);
  Sizes expected{}, got{};
  {
    auto m = sdd::init<C>(conf);
    flush(m, cap);
    { const Hom a = scratch_fun(w, 1), b = scratch_fun(w, 2); flush_scratch(w, a, b); }
    expected = sizes(m);
  }
  std::size_t peak = 0;
  {
    auto m = sdd::init<C>(conf);
    std::size_t created = 0;
    for (int i = 0, n = g.range(1, 3); i < n; ++i) program(g, w, created, i);
    peak = m.sdd_stats().peak;
    flush(m, cap);
    { const Hom a = scratch_fun(w, 1), b = scratch_fun(w, 2); flush_scratch(w, a, b); }
    got = sizes(m);
  }
  g.desc << show(w) << " caches of " << cap << ", peak " << peak << ", left " << got.sdd;
  VF_CHECK(g, got == expected, "after a program, all handles released and all caches flushed, table sizes are " << got << " instead of " << expected << " " << show(w));
  if (peak >= 12) g.nontrivial();
}

// Nodes that no cache has seen disappear at once.
void at_once(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 5, 1000);
  auto m = sdd::init<C>(gen_conf(g));
  GenOpts go;
  go.depth = 2;
  struct Kept { SDD x; Sizes before; };
  const Sizes base = sizes(m);
  {
    std::vector<Kept> stack;
    for (int i = 0, n = g.range(1, 10); i < n; ++i)
    {
      const Sizes before = sizes(m);
      stack.push_back(Kept{product(w, gen_box(g, w, 100)), before});
    }
    while (!stack.empty())
    {
      const Sizes before = stack.back().before;
      stack.pop_back();
      VF_CHECK(g, sizes(m) == before, "releasing the last diagram built leaves " << sizes(m) << " instead of " << before);
    }
  }
  VF_CHECK(g, sizes(m) == base, "releasing everything leaves " << sizes(m) << " instead of " << base);
  {
    // Homomorphisms built, not evaluated. Diagrams they own may have been computed with cached operations.
    const std::size_t hom_before = m.hom_stats().size;
    {
      HomGen hg(g, w, go);
      E e = hg.leaf(*hg.top, false);
      for (int i = 0, n = g.range(0, 5); i < n; ++i)
      {
        const E f = hg.leaf(*hg.top, false);
        e = g.below(2) ? hg.compose(e, f) : hg.sum(*hg.top, {e, f});
        if (g.chance(30)) e = hg.fix(hg.sum(*hg.top, {e, hg.identity()}));
      }
      g.desc << show(w) << " " << e.txt.substr(0, 100);
      if (m.hom_stats().size > hom_before + 2) g.nontrivial();
    }
    VF_CHECK(g, m.hom_stats().size == hom_before, "releasing homomorphisms leaves " << m.hom_stats().size - hom_before << " of them in the table");
  }
}

// Managers release everything.
void lifetimes(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 300);
  const std::uint64_t seed = g.bulk_seed();
  const C conf = gen_conf(g);
  std::size_t created = 0, peak = 0;
  auto life = [&]
  {
    G sub(seed, nullptr);
    auto m = sdd::init<C>(conf);
    program(sub, w, created, 0);
    if (sub.below(2)) { auto copy = m; program(sub, w, created, 1); }
    peak = m.sdd_stats().peak;
  };
  const long l0 = vf::live_allocations();
  life();
  const long l1 = vf::live_allocations();
  life();
  const long l2 = vf::live_allocations();
  life();
  const long l3 = vf::live_allocations();
  g.desc << show(w) << " lifetimes, peak " << peak;
  VF_CHECK(g, l3 == l2 && l2 == l1, "live allocations around lifetimes of a manager: " << l0 << " " << l1 << " " << l2 << " " << l3);
  if (peak >= 12) g.nontrivial();
}

// Very many handles of the same things.
void crowd(G& g)
{
  ShapeOpts so;
  so.max_leaves = 4;
  const World w = gen_world(g, so, 4, 100);
  auto m = sdd::init<C>(gen_conf(g));
  const std::size_t n = g.below(3) == 0 ? 65500 + g.below(5000) : 200 + g.below(1000);
  const std::size_t keep = 1 + g.below(40);
  const auto e = gen_subset(g, w.alpha);
  {
    const Set s = gen_set(g, w, 10);
    GenOpts go;
    go.depth = 1;
    HomGen hg(g, w, go);
    const E h = hg.expr();
    std::vector<SDD> xs;
    std::vector<Hom> hs;
    std::vector<Values> vs;
    {
      const SDD x = build(g, w, s);
      const Values v = mkv(e);
      for (std::size_t i = 0; i < n; ++i) { xs.push_back(x); hs.push_back(h.h); vs.push_back(v); }
    }
    // Most of them go, in some order.
    if (g.below(2)) { std::reverse(xs.begin(), xs.end()); std::reverse(hs.begin(), hs.end()); std::reverse(vs.begin(), vs.end()); }
    const std::size_t left = std::min(keep, n);
    if (g.below(2)) { xs.erase(xs.begin(), xs.end() - left); hs.erase(hs.begin(), hs.end() - left); vs.erase(vs.begin(), vs.end() - left); }
    else { xs.resize(left, sdd::zero<C>()); hs.erase(hs.begin() + left, hs.end()); vs.erase(vs.begin() + left, vs.end()); }
    for (int i = 0; i < 3; ++i)
    {
      // Something else may take the place of what isn't used any more.
      const SDD other = build(g, w, gen_set(g, w, 10));
      (void)other;
      expect_set(g, w, g.pick(xs), s, "one handle among " + std::to_string(n));
      VF_CHECK(g, vt::elems(g.pick(vs)) == vt::elems(mkv(e)), "one value set among " << n);
      expect_set(g, w, g.pick(hs)(w.order(), g.pick(xs)), s.empty() ? Set{} : h.ref(s), "one homomorphism among " + std::to_string(n) + ": " + h.txt);
    }
    VF_CHECK(g, build(g, w, s) == xs.front(), "the diagram of a set isn't the one of " << n << " handles");
    g.desc << show(w) << " " << n << " handles of " << s.size() << " elements, then " << left;
    if (s.size() >= 2) g.nontrivial();
  }
}

VF_CASE("crowd/" VF_CONF_NAME, 1, crowd);
VF_CASE("handles/" VF_CONF_NAME, 30, handles);
VF_CASE("others/" VF_CONF_NAME, 15, other_handles);
VF_CASE("reclaim/" VF_CONF_NAME, 20, reclaim);
VF_CASE("at_once/" VF_CONF_NAME, 15, at_once);
VF_CASE("lifetimes/" VF_CONF_NAME, 15, lifetimes);

} // namespace
