// C07 -- combinators mean what their definition says.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C07";
const char* const rule =
  "case = random order with hierarchy, alphabet, manager configuration, a random homomorphism expression "
  "(functions, inductives, locals, constants, compositions, sums, intersections, if-then-else, fixpoints; "
  "up to 60 nodes) and 1..4 operand sets; the result is compared with the expression evaluated on explicit "
  "sets; also fixpoints that do not contain the identity, and combinations of up to 70000 operands. Non-trivial: the expression has at least one combinator, the operand has two or more assignments "
  "and the result is neither empty nor the operand.";
}
#endif

using namespace md;

#if VF_CONF != 0
namespace { // identical functions but for a number
struct Send // 0 to k (or nothing at all); everything else dropped
{
  unsigned k;
  bool active;
  Values operator()(const Values& v) const { if (active) for (auto x : vt::elems(v)) if (x == 0) return mkv({k}); return mkv({}); }
  bool operator==(const Send& o) const noexcept { return k == o.k && active == o.active; }
};
struct Drop // everything but k
{
  unsigned k;
  Values operator()(const Values& v) const { std::vector<unsigned> r; for (auto x : vt::elems(v)) if (x != k) r.push_back(x); return mkv(r); }
  bool selector() const noexcept { return true; }
  bool operator==(const Drop& o) const noexcept { return k == o.k; }
};
}
namespace std {
template <> struct hash<Send> { std::size_t operator()(const Send& s) const noexcept { return s.k; } };
template <> struct hash<Drop> { std::size_t operator()(const Drop& s) const noexcept { return s.k % 7; } };
}
#endif

namespace {

void expressions(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 6, 500);
  std::string ctxt;
  const C conf = gen_conf(g, &ctxt);
  auto m = sdd::init<C>(conf);
  GenOpts go;
  go.depth = g.range(1, 4);
  HomGen hg(g, w, go);
  const E e = hg.expr();
  g.desc << show(w) << " " << ctxt << " h=" << e.txt.substr(0, 300);
  bool interesting = false;
  for (int i = 0, n = g.range(1, 4); i < n; ++i)
  {
    const Set s = gen_set(g, w, 60);
    const SDD x = build(g, w, s);
    const Set expected = apply_ref(e, s);
    const SDD y = e.h(w.order(), x);
    if (i == 0) g.desc << " x=" << show(s, 5) << " h(x)=" << show(expected, 5);
    expect_set(g, w, y, expected, "application of " + e.txt + " to " + show(s));
    VF_CHECK(g, e.h(w.order(), x) == y, "second application differs");
    if (e.h.selector())
    {
      g.label("selector expression");
      VF_CHECK(g, set_minus(expected, s).empty(), "selector adds assignments: " << e.txt << " on " << show(s));
    }
    if (s.size() >= 2 && expected != s && !expected.empty() && hg.nodes > 1) interesting = true;
  }
  if (interesting) g.nontrivial();
  if (shape_depth(w.shape) > 1) g.label("hierarchical");
  if (!e.linear) g.label("non-linear");
}

template <typename F>
bool rejected(F f)
{
  try { (void)f(); }
  catch (const std::invalid_argument&) { return true; }
  return false;
}

// Invalid constructions.
void invalid(G& g)
{
  ShapeOpts so;
  const World w = gen_world(g, so, 4, 200);
  auto m = sdd::init<C>(gen_conf(g));
  GenOpts go;
  go.depth = 2;
  HomGen hg(g, w, go);
  const E p = hg.expr(), a = hg.expr(), b = hg.expr();
  g.desc << show(w) << " predicate " << p.txt.substr(0, 200);
  std::vector<Hom> none;
  VF_CHECK(g, rejected([&] { return sdd::sum<C>(w.order(), none.begin(), none.end()); }), "sum without operands accepted");
  VF_CHECK(g, rejected([&] { return sdd::sum<C>(w.order(), std::initializer_list<Hom>{}); }), "sum without operands accepted");
  VF_CHECK(g, rejected([&] { return sdd::intersection<C>(w.order(), none.begin(), none.end()); }), "intersection without operands accepted");
  const bool r = rejected([&] { return sdd::if_then_else<C>(p.h, a.h, b.h); });
  VF_CHECK(g, r == !p.h.selector(), "predicate " << p.txt << (p.h.selector() ? " rejected" : " accepted"));
  // Nothing was harmed.
  const Set s = gen_set(g, w, 20);
  expect_set(g, w, a.h(w.order(), build(g, w, s)), apply_ref(a, s), "afterwards " + a.txt);
  if (r) g.nontrivial();
  g.label(r ? "predicate rejected" : "predicate accepted");
}

// Fixpoints that forget where they come from.
void limits(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 5, 300);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  HomGen hg(g, w, GenOpts());
  const E e = hg.limit(hg.increasing_expr(*hg.top, g.range(0, 3)));
  g.desc << show(w) << " " << ctxt << " h=" << e.txt.substr(0, 300);
  for (int i = 0, n = g.range(1, 3); i < n; ++i)
  {
    const Set s = gen_set(g, w, 30);
    const SDD x = build(g, w, s);
    const Set expected = apply_ref(e, s);
    expect_set(g, w, e.h(w.order(), x), expected, "limit " + e.txt + " on " + show(s));
    const Hom r = sdd::rewrite<C>(w.order(), e.h);
    expect_set(g, w, r(w.order(), x), expected, "rewritten limit " + e.txt + " on " + show(s));
    if (s.size() >= 2 && expected != s && !expected.empty()) g.nontrivial();
  }
}

#if VF_CONF != 0
// Combinations of many operands.
void many(G& g)
{
  C conf = gen_conf(g);
  const int top = g.range(0, 11);
  const int n = top == 0 ? g.range(60000, 70000) : g.range(200, 3000);
  if (n > 10000)
  {
    conf.hom_cache_size = conf.hom_unique_table_size = 1u << 17;
    conf.sdd_unique_table_size = conf.sdd_sum_cache_size = 10000;
  }
  auto m = sdd::init<C>(conf);
  std::vector<Id> ids;
  for (int i = 0, k = g.range(1, 3); i < k; ++i) ids.push_back(ident(i));
  sdd::order_builder<C> b;
  const bool nested = g.below(2);
  for (const auto& id : ids) b = sdd::order_builder<C>(id) << b;
  if (nested) b = sdd::order_builder<C>(ident(50), b) << sdd::order_builder<C>(ident(51));
  const Order o(b);
  const Id id = g.pick(ids);
  g.desc << n << " operands on " << id << (nested ? " (nested)" : "");
  const SDD zeros(o, [](const Id&) { return mkv({0}); });
  std::vector<unsigned> all;
  for (int k = 0; k < n; ++k) all.push_back(k);
  {
    // A few of the operands matter; when there are not too many of them, all do.
    std::set<unsigned> active{0};
    for (int i = 0, k = g.range(1, 40); i < k; ++i) active.insert(g.below(n));
    if (n < 600) active.insert(all.begin(), all.end());
    const Values sent = mkv(std::vector<unsigned>(active.begin(), active.end()));
    const SDD product(o, [&](const Id& i) { return i == id ? sent : mkv({0}); });
    std::vector<Hom> hs;
    for (unsigned k : all) hs.push_back(sdd::function<C>(o, id, Send{k, active.count(k) > 0}));
    const Hom h = sdd::sum<C>(o, hs.begin(), hs.end());
    VF_CHECK(g, h(o, zeros) == product, "sum of " << n << " functions");
    VF_CHECK(g, sdd::rewrite<C>(o, h)(o, zeros) == product, "rewritten sum of " << n << " functions");
    hs.push_back(sdd::id<C>());
    const Hom f = sdd::fixpoint<C>(sdd::sum<C>(o, hs.begin(), hs.end()));
    VF_CHECK(g, f(o, zeros) == product, "fixpoint of " << n << " functions");
    VF_CHECK(g, sdd::rewrite<C>(o, f)(o, zeros) == product, "rewritten fixpoint of " << n << " functions");
  }
  {
    const unsigned d = std::min(n, 400);
    std::vector<Hom> hs;
    for (unsigned k = 0; k < d; ++k) hs.push_back(sdd::function<C>(o, id, Drop{k}));
    g.shuffle(hs);
    const Hom h = sdd::intersection<C>(o, hs.begin(), hs.end());
    std::vector<unsigned> rest;
    for (int k = 0; k < std::min(n, 500); ++k) rest.push_back(k);
    const Values few = mkv(rest);
    rest.erase(rest.begin(), rest.begin() + d);
    const Values left = mkv(rest);
    const SDD x(o, [&](const Id& i) { return i == id ? few : mkv({0}); });
    const SDD e(o, [&](const Id& i) { return i == id ? left : mkv({0}); });
    VF_CHECK(g, h(o, x) == e, "intersection of " << d << " selectors");
    VF_CHECK(g, sdd::rewrite<C>(o, h)(o, x) == e, "rewritten intersection of " << d << " selectors");
    Hom c = sdd::id<C>();
    for (const auto& y : hs) c = sdd::composition<C>(c, y);
    VF_CHECK(g, c(o, x) == e, "composition of " << d << " selectors");
  }
  g.nontrivial();
  g.label("many operands");
}
VF_CASE("many/" VF_CONF_NAME, 1, many);
#endif

VF_CASE("limits/" VF_CONF_NAME, 8, limits);
VF_CASE("expr/" VF_CONF_NAME, 50, expressions);
VF_CASE("invalid/" VF_CONF_NAME, 5, invalid);

} // namespace
