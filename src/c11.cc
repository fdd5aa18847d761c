// C11 -- exceptions thrown by user code.
#include "hom.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C11";
const char* const rule =
  "case = random homomorphism expressions and sets, and a schedule of evaluations in which user code throws at a "
  "random (or each) of its invocations, several times in a row, mixed with undisturbed evaluations, set operations "
  "and cache resets; the exception must arrive unchanged exactly when one was thrown, every completed evaluation "
  "must match the explicit semantics, and repeated interruptions must not make the heap grow. Non-trivial: an "
  "exception was thrown after at least one successful user call and the homomorphism was then evaluated fully.";
}
#endif

using namespace md;
namespace {

struct Disarm { ~Disarm() { fault.throw_at = -1; } };

// Evaluates with an exception planned at user call k. Returns true if interrupted.
bool attempt(G& g, const World& w, const E& e, const SDD& x, const Set& expected, long k, const std::string& what)
{
  Disarm d;
  fault.calls = 0;
  fault.throw_at = k;
  fault.fired = 0;
  try
  {
    const SDD y = e.h(w.order(), x);
    fault.throw_at = -1;
    VF_CHECK(g, fault.fired == 0, "exception of user call " << k << " swallowed, " << what << " " << e.txt);
    expect_set(g, w, y, expected, what + " " + e.txt);
    return false;
  }
  catch (const Injected& i)
  {
    VF_CHECK(g, fault.fired == 1, "user code called again after it threw, " << what);
    VF_CHECK(g, i.at == k, "another exception");
    return true;
  }
}

void schedule(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 300);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  GenOpts go;
  go.depth = g.range(1, 3);
  HomGen hg(g, w, go);
  fault = FaultState();
  std::vector<E> es;
  for (int i = 0, n = g.range(1, 3); i < n; ++i)
  {
    hg.nodes = 0;
    E e = hg.expr();
    if (g.chance(30)) e = hg.rewritten(*hg.top, e);
    es.push_back(e);
  }
  std::vector<std::pair<SDD, Set>> xs;
  for (int i = 0, n = g.range(1, 3); i < n; ++i) { const Set s = gen_set(g, w, 30); xs.emplace_back(build(g, w, s), s); }
  g.desc << show(w) << " " << ctxt << " " << es[0].txt.substr(0, 150) << " on " << show(xs[0].second, 4);
  bool late = false;
  int interrupted = 0;
  for (int i = 0, n = g.range(2, 14); i < n; ++i)
  {
    const E& e = g.pick(es);
    const auto& x = g.pick(xs);
    const Set expected = apply_ref(e, x.second);
    switch (g.range(0, 5))
    {
      case 0: case 1: case 2:
      {
        const long k = g.below(2) ? g.below(6) : g.below(60);
        if (attempt(g, w, e, x.first, expected, k, "with a fault"))
        {
          ++interrupted;
          if (k > 0) late = true;
          // Same evaluation again, at once: complete, or interrupted once more.
          if (g.below(2))
          {
            const bool again = attempt(g, w, e, x.first, expected, g.below(3) ? -1 : g.below(20), "after a fault");
            (void)again;
          }
        }
        break;
      }
      case 3: attempt(g, w, e, x.first, expected, -1, "undisturbed"); break;
      case 4: if (g.below(2)) m.reset_hom_cache(); break;
      default:
      {
        const auto& y = g.pick(xs);
        expect_set(g, w, x.first + y.first, set_union(x.second, y.second), "sum");
        expect_set(g, w, x.first - y.first, set_minus(x.second, y.second), "difference");
      }
    }
  }
  for (const auto& e : es) for (const auto& x : xs) attempt(g, w, e, x.first, apply_ref(e, x.second), -1, "at last");
  if (late) g.nontrivial();
  if (interrupted > 1) g.label("several interruptions");
}

// Every point of one evaluation, from a cold cache.
void every_point(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 200);
  auto m = sdd::init<C>(gen_conf(g));
  GenOpts go;
  go.depth = g.range(1, 3);
  HomGen hg(g, w, go);
  fault = FaultState();
  const E e = g.below(2) ? hg.extensive_fixpoint(*hg.top, 1, false) : hg.expr();
  const E h = g.below(2) ? hg.rewritten(*hg.top, e) : e;
  const Set s = gen_set(g, w, 20);
  const SDD x = build(g, w, s);
  const Set expected = apply_ref(h, s);
  m.reset_hom_cache();
  attempt(g, w, h, x, expected, -1, "undisturbed");
  const long n = fault.calls;
  g.desc << show(w) << " " << h.txt.substr(0, 150) << ", " << n << " user calls";
  if (n > 300) throw vf::Discard{};
  for (long k = 0; k < n; ++k)
  {
    if (n > 80 && k % 4 != 0) continue;
    m.reset_hom_cache();
    const bool hit = attempt(g, w, h, x, expected, k, "fault at " + std::to_string(k));
    attempt(g, w, h, x, expected, -1, "after the fault at " + std::to_string(k));
    if (hit && k > 0) g.nontrivial();
  }
}

// Repeated interruptions don't make anything grow.
void leaks(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 200);
  auto m = sdd::init<C>(roomy_conf());
  GenOpts go;
  go.depth = g.range(1, 3);
  HomGen hg(g, w, go);
  fault = FaultState();
  const E e = g.below(2) ? hg.rewritten(*hg.top, hg.expr()) : hg.expr();
  const Set s = gen_set(g, w, 20);
  const SDD x = build(g, w, s);
  const Set expected = apply_ref(e, s);
  m.reset_hom_cache();
  attempt(g, w, e, x, expected, -1, "undisturbed");
  const long n = fault.calls;
  if (n == 0) throw vf::Discard{};
  const long k = g.below(n);
  g.desc << show(w) << " " << e.txt.substr(0, 150) << ", repeated fault at " << k << " of " << n;
  long last = 0;
  std::size_t last_sdd = 0, last_hom = 0;
  int grew = 0, grew_sdd = 0, grew_hom = 0;
  const int rounds = 24;
  for (int i = 0; i < rounds; ++i)
  {
    m.reset_hom_cache();
    {
      Disarm d;
      fault = FaultState();
      fault.throw_at = k;
      try { (void)e.h(w.order(), x); } catch (const Injected&) {}
    }
    m.reset_hom_cache();
    const long live = vf::live_allocations();
    const std::size_t ns = m.sdd_stats().size, nh = m.hom_stats().size;
    if (i >= rounds / 2)
    {
      grew += live > last;
      grew_sdd += ns > last_sdd;
      grew_hom += nh > last_hom;
    }
    last = live;
    last_sdd = ns;
    last_hom = nh;
  }
  // A leak grows at each round; caches of set operations settle.
  VF_CHECK(g, grew < rounds / 2, "each interruption leaves allocations behind");
  VF_CHECK(g, grew_sdd < rounds / 2, "each interruption leaves SDD behind");
  VF_CHECK(g, grew_hom < rounds / 2, "each interruption leaves homomorphisms behind");
  attempt(g, w, e, x, expected, -1, "at last");
  if (k > 0) g.nontrivial();
}

VF_CASE("schedule/" VF_CONF_NAME, 40, schedule);
VF_CASE("points/" VF_CONF_NAME, 15, every_point);
VF_CASE("leaks/" VF_CONF_NAME, 8, leaks);

} // namespace
