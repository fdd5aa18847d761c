// C09 -- configurations, caches and repetitions never influence results.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C09";
const char* const rule =
  "case = one random program (constructions, set operations, n-ary operations, homomorphisms evaluated and "
  "re-evaluated) run under 2..4 configurations, from roomy to caches of 2 entries, tables of 1 bucket and arenas of 1 "
  "byte, with resets of the evaluation cache at random points; every intermediate result must denote the same set "
  "in all runs and match the explicit semantics. Non-trivial: some cache of some run discarded entries or was "
  "reset and the program produced three or more different non-empty results.";
}
#endif

using namespace md;
namespace {

struct Outcome { std::vector<Set> results; bool discarded = false; };

Outcome run(G& outer, const C& conf, std::uint64_t seed, int steps, bool resets, std::uint64_t reset_seed, const std::string& ctxt)
{
  G g(seed, nullptr); // the program depends on nothing else
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 5, 800);
  auto m = sdd::init<C>(conf);
  Outcome out;
  GenOpts go;
  go.depth = 2;
  HomGen hg(g, w, go);
  std::vector<std::pair<SDD, Set>> pool;
  std::vector<E> homs;
  for (int i = 0; i < 3; ++i) { const Set s = gen_set(g, w, 40); pool.emplace_back(build(g, w, s), s); }
  for (int i = 0, n = g.range(1, 4); i < n; ++i) { hg.nodes = 0; homs.push_back(hg.expr()); }
  for (int i = 0; i < steps; ++i)
  {
    const auto a = g.pick(pool), b = g.pick(pool);
    SDD r = sdd::zero<C>();
    Set e;
    std::string what;
    switch (g.range(0, 7))
    {
      case 0: r = a.first + b.first; e = set_union(a.second, b.second); what = "+"; break;
      case 1: r = a.first & b.first; e = set_inter(a.second, b.second); what = "&"; break;
      case 2: r = a.first - b.first; e = set_minus(a.second, b.second); what = "-"; break;
      case 3:
      {
        std::vector<SDD> ops;
        for (int k = g.range(1, 8); k > 0; --k) { const auto& p = g.pick(pool); ops.push_back(p.first); e = set_union(e, p.second); }
        r = sdd::sum<C>(ops.begin(), ops.end());
        what = "n-ary +";
        break;
      }
      default:
      {
        const E& h = g.pick(homs);
        e = apply_ref(h, a.second);
        r = h.h(w.order(), a.first);
        what = h.txt;
      }
    }
    if (e.size() > 3000) throw vf::Discard{};
    expect_set(outer, w, r, e, "step " + std::to_string(i) + " " + what + " under " + ctxt);
    out.results.push_back(e);
    if (pool.size() < 10) pool.emplace_back(r, e); else pool[g.below(pool.size())] = {r, e};
    if (resets && vf::mix(reset_seed) % 4 == 0)
    {
      m.reset_hom_cache();
      out.discarded = true;
      VF_CHECK(outer, m.hom_cache_stats().size == 0, "size of the evaluation cache after a reset");
    }
  }
  out.discarded |= m.sdd_sum_cache_stats().discarded + m.sdd_difference_cache_stats().discarded
                 + m.sdd_intersection_cache_stats().discarded + m.hom_cache_stats().discarded > 0;
  return out;
}

void programs(G& g)
{
  const std::uint64_t seed = g.bulk_seed();
  const int steps = g.range(3, 40);
  const int runs = g.range(2, 4);
  std::vector<Outcome> outs;
  bool disc = false;
  for (int i = 0; i < runs; ++i)
  {
    std::string ctxt;
    const C conf = i == 0 ? roomy_conf() : gen_conf(g, &ctxt);
    outs.push_back(run(g, conf, seed, steps, i > 0 && g.below(2), g.bulk_seed(), ctxt));
    disc |= outs.back().discarded;
    if (i == 1) g.desc << "program " << seed << " of " << steps << " steps; " << ctxt;
    VF_CHECK(g, outs[i].results == outs[0].results, "results differ between configurations");
  }
  std::set<Set> distinct(outs[0].results.begin(), outs[0].results.end());
  distinct.erase(Set{});
  if (disc && distinct.size() >= 3) g.nontrivial();
}

// The smallest sizes that the library accepts, for a longer computation.
void minimal(G& g)
{
  C conf = roomy_conf();
  conf.sdd_unique_table_size = conf.hom_unique_table_size = 1;
  conf.sdd_difference_cache_size = conf.sdd_intersection_cache_size = conf.sdd_sum_cache_size = conf.hom_cache_size = 2;
  conf.sdd_arena_size = static_cast<std::size_t>(g.oneof({1, 100, 5000}));
  set_flat(conf, 1, 0);
  const std::uint64_t seed = g.bulk_seed();
  const int steps = g.range(3, 25);
  g.desc << "minimal sizes, arena " << conf.sdd_arena_size << ", program " << seed << " of " << steps << " steps";
  const auto a = run(g, conf, seed, steps, false, 0, "minimal sizes");
  const auto b = run(g, roomy_conf(), seed, steps, true, seed, "roomy, resets");
  VF_CHECK(g, a.results == b.results, "results differ between minimal and roomy sizes");
  std::set<Set> distinct(a.results.begin(), a.results.end());
  distinct.erase(Set{});
  if (distinct.size() >= 3) g.nontrivial();
}

// Identifier-dependent homomorphism, same diagram, two orders with the same shape.
struct ByName
{
  Id target;
  unsigned value;
  bool skip(const Id& i) const noexcept { return i != target; }
  Hom operator()(const Order& o, const SDD& x) const { return sdd::cons<C>(o, x, sdd::inductive<C>(*this)); }
  Hom operator()(const Order& o, const Values&) const { return sdd::cons<C>(o, mkv({value}), sdd::id<C>()); }
  SDD operator()() const { return sdd::one<C>(); }
  friend bool operator==(const ByName& l, const ByName& r) { return l.target == r.target && l.value == r.value; }
};

} // namespace

namespace std { template <> struct hash<ByName> { std::size_t operator()(const ByName& b) const noexcept { return b.value; } }; }

namespace {

void two_orders(G& g)
{
  const int n = g.range(2, 5);
  std::vector<int> ids(n);
  for (int i = 0; i < n; ++i) ids[i] = i;
  std::vector<int> perm = ids;
  g.shuffle(perm);
  Shape s1(n), s2(n);
  for (int i = 0; i < n; ++i) { s1[i].id = ids[i]; s2[i].id = perm[i]; }
  auto m = sdd::init<C>(roomy_conf());
  const std::vector<unsigned> alpha{0, 1, 2};
  const World w1 = make_world(s1, alpha), w2 = make_world(s2, alpha);
  const Word x = gen_word(g, w1);
  const int target = g.range(0, n - 1);
  const unsigned value = 3;
  const Hom h = sdd::inductive<C>(ByName{ident(target), value});
  const SDD d = singleton(w1, x);
  auto expect = [&](const std::vector<int>& v) { Word y = x; for (int i = 0; i < n; ++i) if (v[i] == target) y[i] = value; return Set{y}; };
  g.desc << "inductive by name on two orders, target " << target << " operand " << show(x);
  expect_set(g, w1, h(w1.order(), d), expect(ids), "inductive by name, first order");
  const bool reset = g.below(2);
  if (reset) m.reset_hom_cache();
  const Set got = words(g, w2, h(w2.order(), d), "second order");
  if (got == expect(perm)) { if (ids != perm) g.nontrivial(); return; }
  // The only accepted deviation: the answer for the first order, without a reset.
  if (!reset && got == expect(ids))
  {
    vf::known_finding("hom-cache-ignores-order", "an inductive homomorphism that depends on identifiers, applied to the same diagram with two different orders, returns the cached result of the first order");
    return;
  }
  expect_set(g, w2, h(w2.order(), d), expect(perm), "inductive by name, second order");
}

VF_CASE("programs/" VF_CONF_NAME, 50, programs);
VF_CASE("minimal/" VF_CONF_NAME, 10, minimal);
VF_CASE("orders/" VF_CONF_NAME, 3, two_orders);

} // namespace
