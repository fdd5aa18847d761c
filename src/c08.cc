// C08 -- rewriting preserves meaning.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C08";
const char* const rule =
  "case = random order, manager configuration, a homomorphism (free expression, or fixpoint / sum / intersection of "
  "parts that target levels below, at and inside the top, at every depth) and 1..4 sets; the rewritten homomorphism, "
  "its second rewriting and the original are evaluated, in random order, and compared with the explicit semantics. "
  "Non-trivial: rewriting changed the homomorphism, the operand has two or more words and the result is not empty.";
}
#endif

using namespace md;
namespace {

void compare(G& g, const World& w, const E& e, int max_words)
{
  const Hom r = sdd::rewrite<C>(w.order(), e.h);
  const Hom rr = sdd::rewrite<C>(w.order(), r);
  const bool changed = r != e.h;
  if (changed) g.label("rewritten");
  for (int i = 0, n = g.range(1, 3); i < n; ++i)
  {
    const Set s = gen_set(g, w, max_words);
    const SDD x = build(g, w, s);
    const Set expected = apply_ref(e, s);
    std::vector<int> seq{0, 1, 2};
    g.shuffle(seq);
    for (int k : seq)
    {
      const Hom& h = k == 0 ? r : k == 1 ? rr : e.h;
      expect_set(g, w, h(w.order(), x), expected
                , std::string(k == 0 ? "rewritten" : k == 1 ? "rewritten twice" : "original") + " of " + e.txt + " on " + show(s));
    }
    if (i == 0) g.desc << " on " << show(s, 4) << " gives " << show(expected, 4);
    if (changed && s.size() > 1 && !expected.empty()) g.nontrivial();
    VF_CHECK(g, r(w.order(), sdd::zero<C>()).empty(), "rewritten on the empty set");
  }
}

void expressions(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 5, 400);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  GenOpts go;
  go.depth = g.range(1, 4);
  HomGen hg(g, w, go);
  const E e = hg.expr();
  g.desc << show(w) << " " << ctxt << " " << e.txt.substr(0, 200);
  compare(g, w, e, 40);
}

// Parts by place: below the top level, at the top level, inside the top level, or across.
E part(G& g, HomGen& hg, Scope& s, bool selector)
{
  std::vector<int> ids;
  flat_ids(*s.shape, ids);
  auto table = [&] { return gen_table(g, hg.w.alpha, selector ? TKind::selector : g.oneof({TKind::any, TKind::shifter, TKind::selector, TKind::any})); };
  auto at = [&](int lo, int hi) { return hg.function_at(s, ids, g.range(lo, hi), table()); };
  const int n = static_cast<int>(ids.size());
  const int top = (*s.shape)[0].leaves;
  switch (g.range(0, 5))
  {
    case 0: return n > top ? at(top, n - 1) : at(0, n - 1);
    case 1: return at(0, top - 1);
    case 2:
    {
      std::vector<int> hier;
      for (std::size_t i = 0; i < s.sub.size(); ++i) if (s.sub[i]) hier.push_back(static_cast<int>(i));
      if (hier.empty()) return at(0, n - 1);
      const int l = g.below(2) ? hier[0] : g.pick(hier);
      std::vector<E> es;
      for (int i = 0, k = g.range(1, 3); i < k; ++i) es.push_back(part(g, hg, *s.sub[l], selector));
      E e = es[0];
      if (es.size() > 1) e = selector && g.below(2) ? hg.intersection(*s.sub[l], es) : hg.sum(*s.sub[l], es);
      else if (!selector && g.below(2)) e = hg.fix(hg.sum(*s.sub[l], {e, hg.identity()}));
      return hg.local(s, l, e);
    }
    case 3: return hg.compose(at(0, n - 1), at(0, n - 1));
    case 4: return hg.compose(at(0, top - 1), at(n > top ? top : 0, n - 1));
    default: return selector ? at(0, n - 1) : hg.leaf(s, false);
  }
}

void saturation(G& g)
{
  ShapeOpts so;
  so.max_leaves = 7;
  so.max_depth = 3;
  const World w = gen_world(g, so, 4, 1000);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  HomGen hg(g, w, GenOpts());
  auto& top = *hg.top;
  std::vector<E> es;
  const int kind = g.range(0, 4);
  const bool selector = kind == 2;
  for (int i = 0, n = g.range(2, 7); i < n; ++i) es.push_back(part(g, hg, top, selector));
  E e = es[0];
  switch (kind)
  {
    case 0: es.push_back(hg.identity()); g.shuffle(es); e = hg.fix(hg.sum(top, es)); break;
    case 1: if (g.below(3) == 0) es.push_back(hg.identity()); e = hg.sum(top, es); break;
    case 2: e = hg.intersection(top, es); break;
    case 3: e = hg.intersection(top, es); break; // not all selectors
    default:
    {
      // Nested saturation: fix(id + T + fix(id + ...)), composed with a filter.
      es.push_back(hg.identity());
      const E in = hg.fix(hg.sum(top, es));
      e = hg.compose(in, part(g, hg, top, true));
      if (g.below(2)) e = hg.sum(top, {e, hg.identity(), part(g, hg, top, false)});
    }
  }
  g.desc << show(w) << " " << ctxt << " " << e.txt.substr(0, 250);
  compare(g, w, e, 30);
}

VF_CASE("expr/" VF_CONF_NAME, 20, expressions);
VF_CASE("saturation/" VF_CONF_NAME, 40, saturation);

} // namespace
