// C02 -- canonicity.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C02";
const char* const rule =
  "case = random order, alphabet, manager configuration and a history of 6..40 steps that build diagrams by "
  "different routes (bottom-up, sums, unions, differences, intersections, complements, homomorphisms, initializers), "
  "release some and force evictions; after each step every pair of live diagrams must be equal (and hash equal) "
  "iff their explicit sets are, every diagram must be reduced, and < must be a strict total order. "
  "Non-trivial: some set of two or more assignments was reached by at least two different routes.";
}
#endif

using namespace md;
namespace {

struct Item { SDD x; Set s; int route; };

// Complement through a bounding box.
SDD universe(const World& w)
{
  return product(w, std::vector<std::vector<unsigned>>(w.leaves, w.alpha));
}

SDD build_divide(G& g, const World& w, const Set& s, std::size_t b, std::size_t e)
{
  if (b == e) return sdd::zero<C>();
  if (e - b == 1) return singleton(w, s[b]);
  const std::size_t m = b + 1 + g.below(e - b - 1);
  return build_divide(g, w, s, b, m) + build_divide(g, w, s, m, e);
}

// cons of values along the order.
Hom cons_chain(const Order& o, const Shape& s, std::size_t lvl, const Word& x, std::size_t pos)
{
  if (lvl == s.size()) return sdd::id<C>();
  const auto next = cons_chain(o.next(), s, lvl + 1, x, pos + s[lvl].leaves);
  if (s[lvl].sub.empty()) return sdd::cons<C>(o, mkv({static_cast<unsigned>(x[pos])}), next);
  std::vector<std::vector<unsigned>> v;
  for (auto c : x) v.push_back({static_cast<unsigned>(c)});
  int p = static_cast<int>(pos);
  return sdd::cons<C>(o, product(s[lvl].sub, v, p), next);
}

SDD by_route(G& g, const World& w, const Set& s, int route, const SDD& noise, const Set& noise_set)
{
  switch (route)
  {
    case 0: return build_canonical(w, s);
    case 1: return build_sum(w, s);
    case 2: return build_incremental(w, s);
    case 3: return build_divide(g, w, s, 0, s.size());
    case 4: // (s + noise) - (noise - s)
      return (build_sum(w, s) + noise) - build_sum(w, set_minus(noise_set, s));
    case 5: // U - (U - s)
    {
      const SDD u = universe(w);
      return u - (u - build_canonical(w, s));
    }
    case 6: // reversed order of insertion
    {
      SDD r = sdd::zero<C>();
      for (auto it = s.rbegin(); it != s.rend(); ++it) r = singleton(w, *it) + r;
      return r;
    }
    case 7: // homomorphisms
    {
      std::vector<SDD> ops;
      for (const auto& x : s) ops.push_back(cons_chain(w.order(), w.shape, 0, x, 0)(w.order(), sdd::one<C>()));
      g.shuffle(ops);
      return sdd::sum<C>(ops.begin(), ops.end());
    }
    case 8: // symmetric route through intersections: (s + a) & (s + (noise - a)) where a subset of noise
    {
      Set a;
      for (const auto& x : noise_set) if (g.below(2)) a.push_back(x);
      const Set b = set_minus(noise_set, a);
      return build_incremental(w, set_union(s, a)) & build_sum(w, set_union(s, b));
    }
    default: // duplicates in an n-ary sum
    {
      std::vector<SDD> ops;
      for (const auto& x : s) { ops.push_back(singleton(w, x)); if (g.chance(30)) ops.push_back(build_canonical(w, s)); }
      ops.push_back(sdd::zero<C>());
      return sdd::sum<C>(ops.begin(), ops.end());
    }
  }
}

void check_pool(G& g, const World& w, const std::vector<Item>& pool, const Item& n)
{
  expect_set(g, w, n.x, n.s, "route " + std::to_string(n.route));
  for (const auto& p : pool)
  {
    const bool same = p.s == n.s;
    VF_CHECK(g, (p.x == n.x) == same, "equality of " << show(p.s) << " (route " << p.route << ") and " << show(n.s) << " (route " << n.route << ") " << show(w));
    VF_CHECK(g, (p.x != n.x) == !same, "inequality of " << show(p.s) << " and " << show(n.s));
    VF_CHECK(g, !same || std::hash<SDD>()(p.x) == std::hash<SDD>()(n.x), "hashes of equal diagrams " << show(n.s));
    VF_CHECK(g, static_cast<int>(p.x < n.x) + static_cast<int>(n.x < p.x) + static_cast<int>(p.x == n.x) == 1, "trichotomy of <");
  }
  VF_CHECK(g, !(n.x < n.x), "irreflexivity of <");
  VF_CHECK(g, n.x.empty() == n.s.empty() && static_cast<bool>(n.x) == !n.s.empty(), "emptiness of " << show(n.s));
}

void history(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 7, 4000);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  g.desc << show(w) << " " << ctxt;
  const int max_words = g.oneof({8, 30, 120});
  std::vector<Item> pool;
  std::vector<Set> known;
  for (int i = 0, n = g.range(1, 4); i < n; ++i) { known.push_back(gen_set(g, w, max_words)); g.desc << " " << show(known.back(), 4); }
  bool double_route = false;
  for (int i = 0, n = g.range(6, 40); i < n; ++i)
  {
    const int op = g.range(0, 9);
    if (op <= 4)
    {
      const Set s = g.pick(known);
      const Set ns = pool.empty() ? Set{} : g.pick(pool).s;
      const SDD noise = build_sum(w, ns);
      const int route = g.range(0, 9);
      Item it{by_route(g, w, s, route, noise, ns), s, route};
      check_pool(g, w, pool, it);
      for (const auto& p : pool) if (p.s == s && p.route != route && s.size() > 1) double_route = true;
      pool.push_back(it);
    }
    else if (op <= 7 && !pool.empty())
    {
      const Item a = g.pick(pool), b = g.pick(pool);
      Item it{sdd::zero<C>(), {}, 100 + op};
      switch (g.range(0, 2))
      {
        case 0: it.x = a.x + b.x; it.s = set_union(a.s, b.s); break;
        case 1: it.x = a.x & b.x; it.s = set_inter(a.s, b.s); break;
        default: it.x = a.x - b.x; it.s = set_minus(a.s, b.s);
      }
      check_pool(g, w, pool, it);
      pool.push_back(it);
      if (known.size() < 10) known.push_back(it.s);
    }
    else if (op == 8 && !pool.empty()) // release
    {
      pool.erase(pool.begin() + g.below(pool.size()));
    }
    else if (!pool.empty()) // release everything, then rebuild later by another route
    {
      if (g.chance(30)) pool.clear();
      if (g.chance(50)) m.reset_hom_cache();
    }
    if (pool.size() > 14) pool.erase(pool.begin(), pool.begin() + 6);
  }
  // Transitivity: sorting with < puts each class of equal diagrams together and is consistent pairwise.
  std::vector<SDD> v;
  for (const auto& p : pool) v.push_back(p.x);
  std::sort(v.begin(), v.end());
  for (std::size_t i = 0; i < v.size(); ++i)
    for (std::size_t k = i + 1; k < v.size(); ++k)
      VF_CHECK(g, !(v[k] < v[i]), "< isn't transitive");
  if (double_route) g.nontrivial();
}

// Nodes with hundreds to thousands of arcs or values, by several routes.
void wide(G& g)
{
  Shape s(2);
  s[0].id = 0; s[1].id = 1;
  std::vector<unsigned> alpha;
  const unsigned n = std::min<unsigned>(vt::max_value, static_cast<unsigned>(g.oneof({20, 60, 200, 400})));
  for (unsigned i = 0; i < n; ++i) alpha.push_back(i);
  const World w = make_world(s, alpha);
  auto m = sdd::init<C>(gen_conf(g));
  std::uint64_t seed = g.bulk_seed();
  const unsigned k = static_cast<unsigned>(g.range(1, 5));
  Set set;
  for (unsigned i = 0; i < n; ++i)
  {
    for (unsigned j = 0; j < k; ++j) set.push_back(Word{i, static_cast<char32_t>(vf::mix(seed) % n)});
  }
  normalize(set);
  g.desc << "wide n=" << n << " k=" << k;
  std::vector<Item> pool;
  const Set noise = gen_set(g, w, 20);
  const SDD nx = build_sum(w, noise);
  for (int i = 0; i < 3; ++i)
  {
    const int r = g.range(0, 9);
    Item it{by_route(g, w, set, r, nx, noise), set, r};
    check_pool(g, w, pool, it);
    pool.push_back(it);
  }
  g.label("wide");
  if (pool[0].route != pool[1].route) g.nontrivial();
}

// Diagrams built level by level with variables of one's choice: they are equal iff same variables and same set.
using Numbering = std::vector<unsigned>; // in the order of numbered()

SDD numbered(const Shape& s, const std::vector<std::vector<unsigned>>& vals, const Numbering& num, std::size_t& k, int& pos)
{
  // Consume numbers and positions top to bottom, build bottom up.
  struct L { unsigned var; bool flat; int pos; SDD sub; };
  std::vector<L> ls;
  for (const auto& l : s)
  {
    const unsigned var = num[k++];
    if (l.sub.empty()) ls.push_back({var, true, pos++, sdd::one<C>()});
    else               ls.push_back({var, false, 0, numbered(l.sub, vals, num, k, pos)});
  }
  SDD res = sdd::one<C>();
  for (auto it = ls.rbegin(); it != ls.rend(); ++it)
  {
    res = it->flat ? SDD(it->var, mkv(vals[it->pos]), res) : SDD(it->var, it->sub, res);
  }
  return res;
}

void numberings(G& g)
{
  ShapeOpts so;
  so.max_leaves = 4;
  const World w = gen_world(g, so, 3, 100);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  g.desc << "numberings " << show(w) << " " << ctxt;
  const unsigned M = std::numeric_limits<typename C::variable_type>::max();
  const int levels = count_levels(w.shape);
  std::vector<Numbering> nums;
  for (int i = 0, n = g.range(2, 12); i < n; ++i)
  {
    Numbering v;
    for (int l = 0; l < levels; ++l)
    {
      v.push_back(g.chance(70) ? static_cast<unsigned>(g.range(0, 3)) : std::min<unsigned>(M, static_cast<unsigned>(g.oneof({7, 100, 254, 255}))));
    }
    if (!nums.empty() && g.chance(60)) { const auto p = g.below(levels); const unsigned x = v[p]; v = g.pick(nums); v[p] = x; }
    nums.push_back(v);
  }
  struct N { SDD x; Numbering num; Set s; };
  std::vector<N> pool;
  std::size_t pairs = 0;
  for (int i = 0, n = g.range(4, 40); i < n; ++i)
  {
    const auto& num = g.pick(nums);
    const auto box = gen_box(g, w, 20);
    std::size_t k = 0;
    int p = 0;
    N x{numbered(w.shape, box, num, k, p), num, product_set(box)};
    for (int t = 0; t < 2; ++t)
    {
      std::vector<N> same;
      for (const auto& y : pool) if (y.num == num) same.push_back(y);
      if (same.empty()) break;
      const N y = g.pick(same);
      switch (g.range(0, 3))
      {
        case 0: x.x = x.x + y.x; x.s = set_union(x.s, y.s); break;
        case 1: x.x = x.x - y.x; x.s = set_minus(x.s, y.s); break;
        case 2: x.x = x.x & y.x; x.s = set_inter(x.s, y.s); break;
        default: break;
      }
    }
    for (const auto& y : pool)
    {
      const bool same = x.s == y.s && (x.s.empty() || x.num == y.num);
      if (!same && x.s == y.s) ++pairs;
      VF_CHECK(g, (x.x == y.x) == same, "equality of " << show(x.s) << " and " << show(y.s) << ", numberings " << (x.num == y.num ? "equal" : "different") << " " << show(w));
      VF_CHECK(g, !same || std::hash<SDD>()(x.x) == std::hash<SDD>()(y.x), "hashes of equal diagrams " << show(x.s));
    }
    VF_CHECK(g, x.x.size() == x.s.size(), "size of " << show(x.s));
    if (!x.s.empty())
    {
      Set seen;
      auto gen = x.x.paths();
      for (const auto& path : gen)
      {
        std::vector<std::vector<unsigned>> b;
        for (const auto& v : path) b.push_back(vt::elems(v));
        seen = set_union(seen, product_set(b));
      }
      VF_CHECK(g, seen == x.s, "denotes " << show(seen) << " instead of " << show(x.s) << " " << show(w));
    }
    if (g.chance(15) && !pool.empty()) pool.erase(pool.begin() + g.below(pool.size()));
    pool.push_back(x);
  }
  g.label("numberings");
  if (pairs > 0) g.nontrivial();
}

VF_CASE("numberings/" VF_CONF_NAME, 15, numberings);
VF_CASE("history/" VF_CONF_NAME, 50, history);
VF_CASE("wide/" VF_CONF_NAME, 1, wide);

} // namespace
