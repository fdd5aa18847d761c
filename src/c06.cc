// C06 -- elementary homomorphisms.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C06";
const char* const rule =
  "case = random order (up to 5 levels of hierarchy, artificial levels included), alphabet, manager configuration, "
  "elementary homomorphisms (identity, constants, cons chains, table functions that are plain, selectors or shifters, "
  "locals and carriers at any depth, inductive transducers with and without skipping) applied to several random "
  "sets; each result is compared with the definition applied word by word. Non-trivial: the operand has two or more "
  "words and the result is neither empty nor the operand.";
}
#endif

using namespace md;
namespace {

void run(G& g, const World& w, const std::vector<E>& es, int sets, int max_words)
{
  bool interesting = false;
  for (int i = 0; i < sets; ++i)
  {
    const Set s = gen_set(g, w, max_words);
    const SDD x = build(g, w, s);
    for (const auto& e : es)
    {
      const Set expected = apply_ref(e, s);
      const SDD y = e.h(w.order(), x);
      expect_set(g, w, y, expected, e.txt + " on " + show(s));
      if (s.size() > 1 && !expected.empty() && expected != s) interesting = true;
      if (e.h.selector()) VF_CHECK(g, set_minus(expected, s).empty(), "not a selector: " << e.txt);
    }
    expect_set(g, w, x, s, "operand afterwards");
  }
  for (const auto& e : es)
  {
    VF_CHECK(g, e.h(w.order(), sdd::zero<C>()).empty(), e.txt << " on the empty set");
  }
  if (interesting) g.nontrivial();
}

void functions(G& g)
{
  ShapeOpts so;
  so.max_leaves = 7;
  so.max_depth = 5;
  const World w = gen_world(g, so, 9, 5000);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  GenOpts go;
  HomGen hg(g, w, go);
  std::vector<E> es;
  for (int i = 0, n = g.range(1, 5); i < n; ++i)
  {
    es.push_back(hg.function(*hg.top, g.oneof({TKind::any, TKind::selector, TKind::shifter})));
  }
  g.desc << show(w) << " " << ctxt << " " << es[0].txt;
  run(g, w, es, g.range(1, 3), 80);
}

// Random elementary homomorphism at the end of a random chain of locals.
E deep_leaf(G& g, HomGen& hg, Scope& s)
{
  std::vector<int> hier;
  for (std::size_t i = 0; i < s.sub.size(); ++i) if (s.sub[i]) hier.push_back(static_cast<int>(i));
  if (hier.empty() || g.below(3) == 0)
  {
    switch (g.range(0, 5))
    {
      case 0: return hg.identity();
      case 1: return hg.constant(s);
      case 2: case 3: return hg.inductive(s, g.below(2));
      default: return hg.function(s, g.oneof({TKind::any, TKind::selector, TKind::shifter}));
    }
  }
  const int l = g.pick(hier);
  const E e = deep_leaf(g, hg, *s.sub[l]);
  return hg.local(s, l, e);
}

void locals(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  so.max_depth = 4;
  const World w = gen_world(g, so, 6, 1500);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  HomGen hg(g, w, GenOpts());
  std::vector<E> es;
  for (int i = 0, n = g.range(1, 4); i < n; ++i) es.push_back(deep_leaf(g, hg, *hg.top));
  g.desc << show(w) << " " << ctxt << " " << es[0].txt.substr(0, 200);
  run(g, w, es, g.range(1, 3), 60);
}

// sdd::carrier: a homomorphism over the scope of a named identifier, brought to the top.
struct Place { Scope* s; std::vector<std::pair<Scope*, int>> path; int name; };

void places(Scope& s, std::vector<std::pair<Scope*, int>>& path, std::vector<Place>& out)
{
  for (std::size_t i = 0; i < s.shape->size(); ++i)
  {
    if (!(*s.shape)[i].artificial) out.push_back(Place{&s, path, (*s.shape)[i].id});
    if (s.sub[i])
    {
      path.emplace_back(&s, static_cast<int>(i));
      places(*s.sub[i], path, out);
      path.pop_back();
    }
  }
}

void carriers(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  so.max_depth = 4;
  const World w = gen_world(g, so, 5, 1500);
  auto m = sdd::init<C>(gen_conf(g));
  HomGen hg(g, w, GenOpts());
  std::vector<Place> ps;
  std::vector<std::pair<Scope*, int>> path;
  places(*hg.top, path, ps);
  if (ps.empty()) throw vf::Discard{};
  std::vector<E> es;
  for (int i = 0, n = g.range(1, 3); i < n; ++i)
  {
    const Place& p = g.pick(ps);
    const E inner = hg.leaf(*p.s, g.below(3) == 0);
    E e = inner;
    for (auto it = p.path.rbegin(); it != p.path.rend(); ++it) e = hg.local(*it->first, it->second, e);
    const Hom c = sdd::carrier<C>(w.order(), ident(p.name), inner.h);
    VF_CHECK(g, c == e.h, "carrier differs from the chain of locals");
    e.h = c;
    e.txt = "carrier(" + std::to_string(p.name) + "," + inner.txt + ")";
    es.push_back(e);
    // In a strict sub-scope, a carrier of a hierarchical identifier applied with local.
  }
  g.desc << show(w) << " " << es[0].txt.substr(0, 200);
  run(g, w, es, g.range(1, 2), 60);
}

void inductives(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  so.max_depth = g.range(1, 3);
  so.artificial = g.below(2);
  const World w = gen_world(g, so, 6, 3000);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  HomGen hg(g, w, GenOpts());
  std::vector<E> es;
  for (int i = 0, n = g.range(1, 3); i < n; ++i) es.push_back(hg.inductive(*hg.top, g.below(2)));
  g.desc << show(w) << " " << ctxt << " " << es[0].txt;
  run(g, w, es, g.range(1, 3), 80);
}

// cons: puts value sets above the image of the operand. The operand is over the levels below.
void cons(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 5, 1500);
  auto m = sdd::init<C>(gen_conf(g));
  const int n = static_cast<int>(w.shape.size());
  // Number of levels made by cons: one above any operand, or all of them above |1| (cons(o, v, h) applies
  // h on operands over o.next()).
  const int k = g.below(2) ? n : 1;
  // Order, shape of the lower part.
  Order lower = w.order();
  int cut = 0;
  for (int i = 0; i < k; ++i) { lower = lower.next(); cut += w.shape[i].leaves; }
  World lw{Shape(w.shape.begin() + k, w.shape.end()), w.leaves - cut, w.alpha, nullptr};
  // Last homomorphism: identity, or a function on a flat level below.
  E last{sdd::id<C>(), [](const Set& s) { return s; }, true, true, "id"};
  Set s;
  SDD x = sdd::one<C>();
  if (lw.leaves > 0)
  {
    s = gen_set(g, lw, 30);
    x = build(g, lw, s);
    if (g.below(2))
    {
      HomGen hg(g, w, GenOpts());
      const Set c = [&]{ Set r; for (int i = 0; i < 2; ++i) r.push_back(gen_word(g, lw)); normalize(r); return r; }();
      last = E{sdd::constant<C>(build_canonical(lw, c)), [c](const Set& y) { return y.empty() ? Set{} : c; }, true, false, "constant"};
    }
  }
  else
  {
    if (g.chance(90)) s.push_back(Word());
    else x = sdd::zero<C>();
  }
  // Valuations.
  std::vector<Order> orders;
  Order o = w.order();
  for (int i = 0; i < k; ++i) { orders.push_back(o); o = o.next(); }
  Hom h = last.h;
  Set r = s.empty() ? Set{} : last.ref(s);
  bool empty_val = false;
  for (int i = k - 1; i >= 0; --i)
  {
    const Level& l = w.shape[i];
    Set vals;
    if (l.sub.empty())
    {
      std::vector<unsigned> v;
      if (!g.chance(5)) v = gen_subset(g, w.alpha);
      for (auto y : v) vals.push_back(Word(1, y));
      h = sdd::cons<C>(orders[i], mkv(v), h);
    }
    else
    {
      World nw{l.sub, l.leaves, w.alpha, nullptr};
      vals = gen_set(g, nw, 8);
      h = sdd::cons<C>(orders[i], build(g, nw, vals), h);
    }
    normalize(vals);
    if (vals.empty()) empty_val = true;
    Set nr;
    for (const auto& a : vals) for (const auto& b : r) nr.push_back(a + b);
    if (nr.size() > 5000) throw vf::Discard{};
    normalize(nr);
    r.swap(nr);
  }
  g.desc << show(w) << " cons on the " << k << " top levels over " << last.txt << " result " << show(r, 4);
  const SDD y = h(lower, x);
  if (s.empty()) { VF_CHECK(g, y.empty(), "cons on the empty set"); return; }
  expect_set(g, w, y, r, "cons chain");
  VF_CHECK(g, !h.selector(), "cons is no selector");
  if (!empty_val && r.size() > 1) g.nontrivial();
}

VF_CASE("functions/" VF_CONF_NAME, 25, functions);
VF_CASE("locals/" VF_CONF_NAME, 20, locals);
VF_CASE("carriers/" VF_CONF_NAME, 10, carriers);
VF_CASE("inductives/" VF_CONF_NAME, 15, inductives);
VF_CASE("cons/" VF_CONF_NAME, 10, cons);

} // namespace
