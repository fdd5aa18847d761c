// C16 -- equality of homomorphisms.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C16";
const char* const rule =
  "case = a random order and 4..20 recipes of homomorphisms (elementary ones that differ by one parameter, and free "
  "expressions), built, evaluated, released and rebuilt in a random history with colliding user hashes and tiny "
  "tables, or 4..30 combinations of the same kind that differ by one operand and are alive together; rebuilding a recipe must give an equal homomorphism with an equal hash, and two homomorphisms that differ on "
  "some explicit set must be unequal. Non-trivial: at least one rebuild after a release of the recipe and at "
  "least three pairs told apart by their effect.";
}
#endif

using namespace md;
namespace {

struct Recipe
{
  std::uint64_t seed;
  int kind;
  int tag_base;
};

// Every choice comes from the seed of the recipe.
E make(const World& w, const Recipe& r)
{
  G g(r.seed, nullptr);
  GenOpts go;
  go.depth = 2;
  HomGen hg(g, w, go);
  hg.tags = r.tag_base;
  switch (r.kind)
  {
    case 0: return hg.expr();
    case 1: return hg.function(*hg.top, TKind::any);
    case 2: return hg.function(*hg.top, TKind::selector);
    case 3: return hg.constant(*hg.top);
    case 4: return hg.inductive(*hg.top, false);
    case 5: { const E a = hg.function(*hg.top, TKind::any), b = hg.function(*hg.top, TKind::any); return hg.compose(a, b); }
    case 6: { const E a = hg.leaf(*hg.top, false), b = hg.leaf(*hg.top, false); return hg.sum(*hg.top, {a, b}); }
    case 7: { const E a = hg.leaf(*hg.top, true), b = hg.leaf(*hg.top, true); return hg.intersection(*hg.top, {a, b}); }
    case 8: return hg.extensive_fixpoint(*hg.top, 1, false);
    case 9:
    {
      E p = hg.function(*hg.top, TKind::selector);
      if (!p.h.selector()) return p;
      const E a = hg.leaf(*hg.top, false), b = hg.leaf(*hg.top, false);
      return hg.ite(p, a, b);
    }
    case 10: { const E e = hg.expr(); return hg.rewritten(*hg.top, e); }
    default:
    {
      // One parameter among a few: pairs of recipes often differ by a single thing.
      std::vector<int> ids;
      flat_ids(*hg.top->shape, ids);
      Table t;
      t.m[w.alpha[0]] = {w.alpha[g.below(w.alpha.size())]};
      return hg.function_at(*hg.top, ids, static_cast<int>(g.below(ids.size())), t);
    }
  }
}

void history(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 200);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  std::vector<Recipe> rs;
  for (int i = 0, n = g.range(4, 12); i < n; ++i) rs.push_back(Recipe{g.bulk_seed(), g.range(0, 14), (i + 1) * 1000});
  std::vector<std::pair<Set, SDD>> probes;
  for (int i = 0; i < 3; ++i) { const Set s = gen_set(g, w, 15); probes.emplace_back(s, build(g, w, s)); }
  probes.emplace_back(Set{gen_word(g, w)}, sdd::zero<C>());
  probes.back().second = build_canonical(w, probes.back().first);
  g.desc << show(w) << " " << ctxt << " " << rs.size() << " recipes";
  struct Live { int recipe; E e; };
  std::vector<Live> live;
  std::set<int> ever;
  bool rebuilt = false;
  int apart = 0;
  for (int i = 0, n = g.range(6, 30); i < n; ++i)
  {
    switch (g.range(0, 5))
    {
      case 0: case 1: case 2:
      {
        const int k = static_cast<int>(g.below(rs.size()));
        const E e = make(w, rs[k]);
        bool has = false;
        for (const auto& l : live)
        {
          if (l.recipe == k)
          {
            has = true;
            VF_CHECK(g, l.e.h == e.h && !(l.e.h != e.h), "rebuilding gives another homomorphism: " << e.txt << " " << show(w));
            VF_CHECK(g, std::hash<Hom>()(l.e.h) == std::hash<Hom>()(e.h), "hash of " << e.txt);
            VF_CHECK(g, !(l.e.h < e.h) && !(e.h < l.e.h), "order of equal homomorphisms");
          }
          else
          {
            bool differ = false;
            for (const auto& p : probes) if (apply_ref(l.e, p.first) != apply_ref(e, p.first)) { differ = true; break; }
            if (differ)
            {
              ++apart;
              VF_CHECK(g, l.e.h != e.h && !(l.e.h == e.h), "different homomorphisms compare equal: " << l.e.txt << " and " << e.txt << " " << show(w));
              VF_CHECK(g, (l.e.h < e.h) != (e.h < l.e.h), "different homomorphisms aren't ordered");
            }
          }
        }
        if (!has && ever.count(k)) rebuilt = true;
        ever.insert(k);
        // Equal, but not only in name.
        const auto& p = probes[g.below(probes.size())];
        if (g.below(2)) expect_set(g, w, e.h(w.order(), p.second), apply_ref(e, p.first), e.txt + " on " + show(p.first));
        if (live.size() < 12) live.push_back(Live{k, e});
        break;
      }
      case 3: if (!live.empty()) live.erase(live.begin() + g.below(live.size())); break;
      case 4: if (g.below(3) == 0) live.clear(); break;
      default: m.reset_hom_cache();
    }
  }
  if (rebuilt && apart >= 3) g.nontrivial();
  if (rebuilt) g.label("rebuilt after release");
}

// Cons, locals and constants that differ by one part.
void parts(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 200);
  auto m = sdd::init<C>(gen_conf(g));
  const Order& o = w.order();
  std::vector<std::pair<std::string, Hom>> hs; // (description, homomorphism)
  auto add = [&](const std::string& d, const Hom& h)
  {
    for (const auto& p : hs)
    {
      VF_CHECK(g, (p.first == d) == (p.second == h), d << " and " << p.first << " compare " << (p.second == h ? "equal" : "different"));
    }
    hs.emplace_back(d, h);
  };
  add("id", sdd::id<C>());
  for (int i = 0, n = g.range(4, 24); i < n; ++i)
  {
    switch (g.range(0, 5))
    {
      case 0: { const Set s = gen_set(g, w, 4); add("constant" + show(s, 100), sdd::constant<C>(build(g, w, s))); break; }
      case 1:
      {
        // cons at a random level of the top scope, over one of two next homomorphisms.
        std::size_t lvl = g.below(w.shape.size());
        Order oo = o;
        for (std::size_t k = 0; k < lvl; ++k) oo = oo.next();
        const int nx = g.range(0, 1);
        const Hom next = nx == 0 ? sdd::id<C>() : sdd::constant<C>(sdd::one<C>());
        const Level& l = w.shape[lvl];
        std::string d = "cons" + std::to_string(lvl) + "/" + std::to_string(nx) + "/";
        if (l.sub.empty())
        {
          auto v = gen_subset(g, w.alpha);
          std::sort(v.begin(), v.end());
          for (auto x : v) d += std::to_string(x) + ",";
          add(d, sdd::cons<C>(oo, mkv(v), next));
        }
        else
        {
          World nw{l.sub, l.leaves, w.alpha, nullptr};
          const Set s = gen_set(g, nw, 3);
          add(d + show(s, 100), sdd::cons<C>(oo, build(g, nw, s), next));
        }
        break;
      }
      case 2:
      {
        const unsigned v = g.below(5);
        const int k = g.range(0, 2);
        const Set s{Word(static_cast<std::size_t>(w.leaves), w.alpha[static_cast<std::size_t>(k) % w.alpha.size()])};
        const Hom in = sdd::constant<C>(build_canonical(w, s));
        add("local" + std::to_string(v) + show(s), sdd::local<C>(v, in));
        break;
      }
      case 3: { const unsigned v = g.below(5); add("id", sdd::local<C>(v, sdd::id<C>())); break; }
      case 4:
      {
        // f o id = id o f = f
        std::vector<int> ids;
        flat_ids(w.shape, ids);
        const std::size_t p = g.below(ids.size());
        Table t;
        t.m[w.alpha[0]] = {};
        FnBase b;
        b.t = std::make_shared<Table>(t);
        b.sel = b.shift = false;
        Fn<0> f;
        static_cast<FnBase&>(f) = b;
        const Hom h = sdd::function<C>(o, ident(ids[p]), std::move(f));
        add("f" + std::to_string(ids[p]), g.below(2) ? h : sdd::composition<C>(h, sdd::id<C>()));
        break;
      }
      default: // release
        if (hs.size() > 1) hs.erase(hs.begin() + 1 + g.below(hs.size() - 1));
    }
  }
  g.desc << show(w) << " " << hs.size() << " homomorphisms, last " << hs.back().first.substr(0, 100);
  if (hs.size() > 4) g.nontrivial();
}

// Many homomorphisms of the same kind that differ by exactly one operand, alive together.
void siblings(G& g)
{
  ShapeOpts so;
  so.max_leaves = 4;
  World w = gen_world(g, so, 4, 40);
  std::string ctxt;
  C conf = gen_conf(g, &ctxt);
  if (g.chance(70)) conf.hom_unique_table_size = g.range(1, 8);
  auto m = sdd::init<C>(conf);
  GenOpts go;
  go.depth = 1;
  HomGen hg(g, w, go);
  Scope& top = *hg.top;
  std::vector<int> ids;
  flat_ids(w.shape, ids);
  const Set all = product_set(std::vector<std::vector<unsigned>>(static_cast<std::size_t>(w.leaves), w.alpha));
  auto effect = [&](const E& e)
  {
    std::vector<Set> r;
    for (const auto& x : all) r.push_back(apply_ref(e, Set{x}));
    r.push_back(apply_ref(e, all));
    return r;
  };
  // Functions on one or two identifiers that map one value to another, and some of everything else.
  std::vector<E> pool, sels;
  const std::size_t np = g.range(3, 14);
  while (pool.size() < np)
  {
    if (g.chance(75))
    {
      Table t;
      t.m[g.pick(w.alpha)] = {g.pick(w.alpha)};
      if (g.chance(50)) t.m[g.pick(w.alpha)] = {g.pick(w.alpha)};
      pool.push_back(hg.function_at(top, ids, static_cast<int>(g.below(ids.size() < 3 ? ids.size() : 2)), t));
    }
    else pool.push_back(hg.leaf(top, false));
  }
  for (int k = 0; k < 40 && sels.size() < 5; ++k)
  {
    const E p = hg.function(top, TKind::selector);
    if (p.h.selector()) sels.push_back(p);
  }
  const int kind = g.range(0, 9);
  const bool selectors = kind == 2 || kind == 9;
  if ((kind == 3 || selectors) && sels.empty()) throw vf::Discard{};
  const int slots = kind <= 1 ? 2 : kind == 3 ? 3 : g.range(2, 4);
  std::vector<std::size_t> base;
  for (int k = 0; k < slots; ++k) base.push_back(g.below(1000));
  const int moving = g.range(0, slots - 1);
  auto any = [&](std::size_t k) -> const E& { return pool[k % pool.size()]; };
  auto sel = [&](std::size_t k) -> const E& { return sels[k % sels.size()]; };
  auto build_it = [&](const std::vector<std::size_t>& c) -> E
  {
    std::vector<E> es;
    for (auto k : c) es.push_back(selectors ? sel(k) : any(k));
    switch (kind)
    {
      case 0: case 1: return hg.compose(es[0], es[1]);
      case 2: return hg.intersection(top, es);
      case 3: return hg.ite(sel(c[0]), es[1], es[2]);
      case 4: case 5: return hg.sum(top, es);
      case 8: return hg.rewritten(top, hg.sum(top, es));
      case 9: return hg.rewritten(top, hg.intersection(top, es));
      default: es.push_back(hg.identity()); return kind == 6 ? hg.fix(hg.sum(top, es)) : hg.rewritten(top, hg.fix(hg.sum(top, es)));
    }
  };
  struct Live { std::vector<std::size_t> c; E e; std::vector<Set> fx; };
  std::vector<Live> live;
  int apart = 0, again = 0;
  for (int i = 0, n = g.range(4, 30); i < n; ++i)
  {
    std::vector<std::size_t> c = base;
    const std::size_t size = (selectors || (kind == 3 && moving == 0)) ? sels.size() : pool.size();
    c[static_cast<std::size_t>(moving)] = g.below(size);
    const E e = build_it(c);
    const std::vector<Set> fx = effect(e);
    for (const auto& l : live)
    {
      if (l.c == c)
      {
        ++again;
        VF_CHECK(g, l.e.h == e.h, "rebuilding gives another homomorphism: " << e.txt << " " << show(w));
      }
      else if (l.fx != fx)
      {
        ++apart;
        VF_CHECK(g, l.e.h != e.h, "different homomorphisms compare equal: " << l.e.txt << " and " << e.txt << " " << show(w));
      }
    }
    if (g.chance(30)) expect_set(g, w, e.h(w.order(), build_canonical(w, all)), fx.back(), e.txt);
    live.push_back(Live{c, e, fx});
    if (g.chance(10)) live.erase(live.begin() + g.below(live.size()));
  }
  g.desc << show(w) << " " << ctxt << " " << live.size() << " siblings, operand " << moving << " of " << live.back().e.txt.substr(0, 200);
  static const char* const names[] = {"composition", "composition", "intersection", "if-then-else", "sum", "sum", "fixpoint", "rewritten fixpoint", "rewritten sum", "rewritten intersection"};
  g.label(std::string("siblings: ") + names[kind]);
  if (apart >= 3 && again >= 1) g.nontrivial();
}

VF_CASE("history/" VF_CONF_NAME, 40, history);
VF_CASE("siblings/" VF_CONF_NAME, 25, siblings);
VF_CASE("parts/" VF_CONF_NAME, 20, parts);

} // namespace
