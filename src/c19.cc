// C19 -- the manager: exclusivity, restarts, failed initializations, truthful statistics.
#include "model.hh"
#include "sdd/tools/manager_statistics.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C19";
const char* const rule =
  "case = a history of initializations (accepted, refused, or failing for lack of memory), copies and destructions of "
  "managers of one or several configurations, mixed with operations on diagrams and homomorphisms; or a history of "
  "operations whose statistics are compared with an own count of live nodes, sets of values and homomorphisms. "
  "Non-trivial: an initialization was refused or failed and the library was then used and restarted; or tables held "
  "at least 10 live nodes when counted.";
}
#endif

using namespace md;
namespace {

using Manager = sdd::manager<C>;

/*------------------------------------------------------------------------------------------------*/
// Statistics.

struct Table { std::size_t size, peak, access, hits, misses, rehash; };
struct Cache { std::size_t size, hits, misses, filtered, discarded, buckets; };

Table snap(const sdd::mem::unique_table_statistics& s) { return {s.size, s.peak, s.access, s.hits, s.misses, s.rehash}; }
Cache snap(const sdd::mem::cache_statistics& s) { return {s.size, s.hits, s.misses, s.filtered, s.discarded, s.buckets}; }

struct Snap
{
  Table sdd{}, hom{}, values{};
  Cache diff{}, inter{}, sum{}, homc{};
};

void values_of(Snap& s, const sdd::mem::unique_table_statistics& v) { s.values = snap(v); }
void values_of(Snap&, void*) {}

Snap snap(const Manager& m)
{
  Snap s;
  s.sdd = snap(m.sdd_stats());
  s.hom = snap(m.hom_stats());
  values_of(s, m.values_stats());
  s.diff = snap(m.sdd_difference_cache_stats());
  s.inter = snap(m.sdd_intersection_cache_stats());
  s.sum = snap(m.sdd_sum_cache_stats());
  s.homc = snap(m.hom_cache_stats());
  return s;
}

std::string show(const Table& t)
{
  std::ostringstream os;
  os << "{size " << t.size << " peak " << t.peak << " access " << t.access << " hits " << t.hits << " misses " << t.misses << "}";
  return os.str();
}

std::string show(const Cache& t)
{
  std::ostringstream os;
  os << "{size " << t.size << " hits " << t.hits << " misses " << t.misses << " filtered " << t.filtered << " discarded " << t.discarded << " buckets " << t.buckets << "}";
  return os.str();
}

bool same(const Table& a, const Table& b)
{
  return a.size == b.size && a.peak == b.peak && a.access == b.access && a.hits == b.hits && a.misses == b.misses && a.rehash == b.rehash;
}
bool same(const Cache& a, const Cache& b)
{
  return a.size == b.size && a.hits == b.hits && a.misses == b.misses && a.filtered == b.filtered && a.discarded == b.discarded && a.buckets == b.buckets;
}
bool same(const Snap& a, const Snap& b)
{
  return same(a.sdd, b.sdd) && same(a.hom, b.hom) && same(a.values, b.values) && same(a.diff, b.diff)
      && same(a.inter, b.inter) && same(a.sum, b.sum) && same(a.homc, b.homc);
}

void check_table(G& g, const char* what, const Table& now, const Table& before)
{
  VF_CHECK(g, now.hits + now.misses == now.access, what << " table: " << show(now));
  VF_CHECK(g, now.peak >= now.size && now.peak <= now.misses && now.peak >= before.peak, what << " table: " << show(now) << " after " << show(before));
  VF_CHECK(g, now.access >= before.access && now.hits >= before.hits && now.misses >= before.misses && now.rehash >= before.rehash, what << " table: counters decreased " << show(now) << " after " << show(before));
  // A growth needs as many insertions.
  if (now.size > before.size) VF_CHECK(g, now.misses - before.misses >= now.size - before.size, what << " table grew by more than its misses: " << show(now) << " after " << show(before));
}

void check_cache(G& g, const char* what, const Cache& now, const Cache& before, bool cleared)
{
  VF_CHECK(g, now.size <= now.buckets, what << " cache holds more than it can: " << show(now));
  VF_CHECK(g, now.buckets == before.buckets, what << " cache: capacity changed");
  VF_CHECK(g, now.hits >= before.hits && now.misses >= before.misses && now.discarded >= before.discarded && now.filtered >= before.filtered, what << " cache: counters decreased " << show(now) << " after " << show(before));
  if (!cleared)
  {
    VF_CHECK(g, now.size == before.size + (now.misses - before.misses) - (now.discarded - before.discarded),
             what << " cache: entries don't match misses and discarded entries: " << show(now) << " after " << show(before));
  }
}

void check_all(G& g, const Snap& now, const Snap& before, bool sdd_cleared, bool hom_cleared)
{
  check_table(g, "SDD", now.sdd, before.sdd);
  check_table(g, "homomorphism", now.hom, before.hom);
  if (vt::flat) check_table(g, "values", now.values, before.values);
  check_cache(g, "difference", now.diff, before.diff, sdd_cleared);
  check_cache(g, "intersection", now.inter, before.inter, sdd_cleared);
  check_cache(g, "sum", now.sum, before.sum, sdd_cleared);
  check_cache(g, "homomorphism", now.homc, before.homc, hom_cleared);
}

// The nodes and the sets of values reachable from a diagram.
struct Reach
{
  std::set<const void*> nodes;
  std::set<std::vector<unsigned>> values;

  void operator()(const SDD& x)
  {
    if (!nodes.insert(&*x).second) return;
    sdd::visit(V{*this}, x);
  }
  struct V
  {
    Reach& r;
    void operator()(const sdd::zero_terminal<C>&) const {}
    void operator()(const sdd::one_terminal<C>&) const {}
    void operator()(const sdd::flat_node<C>& n) const
    {
      for (const auto& a : n) { r.values.insert(vt::elems(a.valuation())); r(a.successor()); }
    }
    void operator()(const sdd::hierarchical_node<C>& n) const
    {
      for (const auto& a : n) { r(a.valuation()); r(a.successor()); }
    }
  };
};

void forget_sdd_caches() { sdd::global<C>().sdd_context.clear(); }

void statistics(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 5, 400);
  std::string ctxt;
  const C conf = gen_conf(g, &ctxt);
  const bool roomy = conf.sdd_sum_cache_size == 2000 && conf.sdd_difference_cache_size == 2000 && conf.sdd_intersection_cache_size == 2000;
  g.desc << show(w) << " " << ctxt << ":";
  auto m = sdd::init<C>(conf);
  const Snap fresh = snap(m);
  check_all(g, fresh, fresh, false, false);
  Snap last = fresh;
  std::vector<std::pair<SDD, Set>> xs;
  std::vector<Hom> homs;
  std::size_t biggest = 0, max_seen = 0;
  for (int i = 0, n = g.range(1, 16); i < n; ++i)
  {
    bool sdd_cleared = false, hom_cleared = false;
    switch (xs.empty() ? 0 : g.range(0, 9))
    {
      case 0: case 1: { const Set s = gen_set(g, w, 40); xs.emplace_back(build(g, w, s), s); g.desc << " new" << s.size(); break; }
      case 2: case 3: case 4:
      {
        const auto a = g.pick(xs), b = g.pick(xs);
        const int op = g.range(0, 2);
        auto eval = [&] { return op == 0 ? a.first + b.first : op == 1 ? (a.first & b.first) : a.first - b.first; };
        const SDD y = eval();
        g.desc << " " << "+&-"[op];
        const Snap s1 = snap(m);
        const SDD z = eval();
        const Snap s2 = snap(m);
        VF_CHECK(g, y == z, "an operation gives two results");
        // Asking again for what was just computed isn't a miss, nor does it create anything.
        VF_CHECK(g, s1.sdd.misses == s2.sdd.misses && s1.sdd.size == s2.sdd.size, "repeating an operation creates nodes");
        const Cache& c1 = op == 0 ? s1.sum : op == 1 ? s1.inter : s1.diff;
        const Cache& c2 = op == 0 ? s2.sum : op == 1 ? s2.inter : s2.diff;
        if (roomy) VF_CHECK(g, c1.misses == c2.misses, "repeating an operation is a miss: " << show(c2) << " after " << show(c1));
        xs.emplace_back(y, op == 0 ? set_union(a.second, b.second) : op == 1 ? set_inter(a.second, b.second) : set_minus(a.second, b.second));
        break;
      }
      case 5: { xs.erase(xs.begin() + g.below(xs.size())); g.desc << " drop"; break; }
      case 6:
      {
        // Rebuilding a live diagram finds every node of it.
        const auto x = g.pick(xs);
        forget_sdd_caches();
        sdd_cleared = true;
        last = snap(m);
        const SDD y = build_canonical(w, x.second);
        VF_CHECK(g, y == x.first, "a set has two diagrams");
        g.desc << " rebuild";
        break;
      }
      case 7:
      {
        const Snap s1 = snap(m);
        const Hom h = sdd::constant<C>(g.pick(xs).first);
        const Snap s2 = snap(m);
        VF_CHECK(g, s2.hom.size - s1.hom.size <= 1 && s2.hom.access > s1.hom.access, "creation of a homomorphism: " << show(s2.hom) << " after " << show(s1.hom));
        const Hom h2 = h;
        VF_CHECK(g, same(snap(m), s2), "copying a homomorphism changes statistics");
        homs.push_back(h);
        g.desc << " hom";
        break;
      }
      case 8:
      {
        if (homs.empty()) break;
        const Hom h = g.pick(homs);
        const SDD y = h(w.order(), g.pick(xs).first);
        if (g.chance(30)) { m.reset_hom_cache(); hom_cleared = true; VF_CHECK(g, m.hom_cache_stats().size == 0, "a reset cache isn't empty"); }
        g.desc << " apply";
        break;
      }
      default: if (!homs.empty()) { homs.erase(homs.begin() + g.below(homs.size())); g.desc << " forget"; }
    }
    Snap now = snap(m);
    check_all(g, now, last, sdd_cleared, hom_cleared);
    max_seen = std::max(max_seen, now.sdd.size);
    VF_CHECK(g, now.sdd.peak >= max_seen, "peak below an observed size");
    last = now;
    if (g.chance(40))
    {
      // Without the caches, what is alive is what is reachable.
      forget_sdd_caches();
      m.reset_hom_cache();
      now = snap(m);
      check_all(g, now, last, true, true);
      Reach r;
      r(sdd::zero<C>());
      r(sdd::one<C>());
      for (const auto& x : xs) r(x.first);
      std::set<Hom> hs(homs.begin(), homs.end());
      // Each constant homomorphism keeps its diagram alive; they are over diagrams that may be gone.
      if (hs.empty())
      {
        VF_CHECK(g, now.sdd.size == r.nodes.size(), "table of " << now.sdd.size << " nodes, " << r.nodes.size() << " are alive");
        biggest = std::max(biggest, r.nodes.size());
        if (vt::flat)
        {
          VF_CHECK(g, now.values.size == r.values.size() + 1, "table of " << now.values.size << " sets of values, " << r.values.size() << " are alive, plus the empty one");
        }
      }
      else VF_CHECK(g, now.sdd.size >= r.nodes.size(), "table of " << now.sdd.size << " nodes, " << r.nodes.size() << " are alive");
      VF_CHECK(g, now.hom.size == fresh.hom.size + hs.size() - hs.count(sdd::id<C>()), "table of " << now.hom.size << " homomorphisms, " << hs.size() << " are held");
      last = now;
    }
    // The snapshot given by the tools is the same.
#if VF_CONF != 0 && VF_CONF != 3
    const auto ms = sdd::tools::statistics(m);
    VF_CHECK(g, same(snap(ms.sdd_ut()), last.sdd) && same(snap(ms.hom_ut()), last.hom) && same(snap(ms.values_ut()), last.values)
             && same(snap(ms.diff_cache()), last.diff) && same(snap(ms.inter_cache()), last.inter) && same(snap(ms.sum_cache()), last.sum)
             && same(snap(ms.hom_cache()), last.homc), "tools::statistics differs from the manager's statistics");
#endif
  }
  if (biggest >= 10) { g.nontrivial(); g.label("counted"); }
}

/*------------------------------------------------------------------------------------------------*/
// Lifecycle, one configuration.

void use(G& g, const char* what)
{
  ShapeOpts so;
  so.max_leaves = 4;
  const World w = gen_world(g, so, 4, 60);
  const Set a = gen_set(g, w, 10), b = gen_set(g, w, 10);
  const SDD x = build(g, w, a), y = build(g, w, b);
  expect_set(g, w, x + y, set_union(a, b), what);
  expect_set(g, w, x - y, set_minus(a, b), what);
}

template <typename F>
bool refused(F f)
{
  try { (void)f(); }
  catch (const std::runtime_error&) { return true; }
  return false;
}

// A configuration that can't be satisfied.
C impossible(G& g)
{
  C c = roomy_conf();
  const std::size_t huge = std::size_t(1) << g.range(40, 50);
  switch (g.range(0, vt::flat ? 7 : 6))
  {
    case 0: c.sdd_unique_table_size = huge; break;
    case 1: c.sdd_difference_cache_size = huge; break;
    case 2: c.sdd_intersection_cache_size = huge; break;
    case 3: c.sdd_sum_cache_size = huge; break;
    case 4: c.sdd_arena_size = huge; break;
    case 5: c.hom_unique_table_size = huge; break;
    case 6: c.hom_cache_size = huge; break;
    default: set_flat(c, huge, 0);
  }
  return c;
}

void lifecycle(G& g)
{
  bool disturbed = false, restarted = false;
  const int rounds = g.range(1, 4);
  std::string last_conf;
  Snap first;
  for (int r = 0; r < rounds; ++r)
  {
    // Nothing is alive here.
    if (g.chance(30))
    {
      bool thrown = false;
      try { auto m = sdd::init<C>(impossible(g)); }
      catch (const std::bad_alloc&) { thrown = true; }
      VF_CHECK(g, thrown, "an impossible configuration was accepted");
      g.desc << " failed-init";
      g.label("failed initialization");
      disturbed = true;
    }
    std::string ctxt;
    const C conf = r == 0 ? roomy_conf() : gen_conf(g, &ctxt);
    std::vector<std::unique_ptr<Manager>> ms;
    ms.emplace_back(new Manager(sdd::init<C>(conf)));
    g.desc << " init" << ctxt;
    if (r > 0) restarted = true;
    // A clean state: the same as the first initialization of the same configuration.
    const Snap s0 = snap(*ms[0]);
    if (r == 0) first = s0;
    else
    {
      VF_CHECK(g, s0.sdd.size == first.sdd.size && s0.hom.size == first.hom.size && s0.values.size == first.values.size, "restart with remains: " << show(s0.sdd));
      VF_CHECK(g, s0.sdd.access == first.sdd.access && s0.hom.access == first.hom.access && s0.sdd.hits == first.sdd.hits && s0.sdd.peak == first.sdd.peak, "restart with old counters: " << show(s0.sdd));
      for (const Cache* c : {&s0.diff, &s0.inter, &s0.sum, &s0.homc})
        VF_CHECK(g, c->size == 0 && c->hits == 0 && c->misses == 0 && c->discarded == 0 && c->filtered == 0, "restart with a used cache: " << show(*c));
    }
    {
      ShapeOpts so;
      so.max_leaves = 4;
      const World w = gen_world(g, so, 4, 60);
      const Set s = gen_set(g, w, 15);
      std::unique_ptr<SDD> x(new SDD(build(g, w, s)));
      for (int i = 0, n = g.range(1, 8); i < n; ++i)
      {
        switch (g.range(0, 4))
        {
          case 0:
          {
            const Snap before = snap(*ms[0]);
            VF_CHECK(g, refused([&] { return sdd::init<C>(gen_conf(g)); }), "a second initialization was accepted");
            VF_CHECK(g, same(snap(*ms[0]), before), "a refused initialization changes the state of the library");
            g.desc << " refused";
            g.label("refused initialization");
            disturbed = true;
            break;
          }
          case 1: ms.emplace_back(new Manager(*g.pick(ms))); g.desc << " copy"; break;
          case 2: if (ms.size() > 1) { ms.erase(ms.begin() + g.below(ms.size())); g.desc << " drop"; } break;
          case 3: use(g, "during the life of a manager"); break;
          default: if (ms.size() > 1) { *ms[0] = *ms[1]; Manager moved(std::move(*ms.back())); ms.pop_back(); ms.emplace_back(new Manager(std::move(moved))); g.desc << " move"; }
        }
        expect_set(g, w, *x, s, "a live diagram");
        VF_CHECK(g, *x == build_canonical(w, s), "a live diagram is no longer canonical");
      }
    }
    ms.clear();
    g.desc << " end";
  }
  if (disturbed && restarted) g.nontrivial();
}

// Each cycle of the life of a manager, even failing or refused, gives back what it takes.
void cycles(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w = gen_world(g, so, 4, 100);
  const Set a = gen_set(g, w, 20), b = gen_set(g, w, 20);
  const C conf = gen_conf(g);
  const C bad = impossible(g);
  const bool fail = g.chance(50), refuse = g.chance(50);
  g.desc << show(w) << (fail ? " failing" : "") << (refuse ? " refused" : "");
  auto cycle = [&]
  {
    if (fail) { bool t = false; try { auto m = sdd::init<C>(bad); } catch (const std::bad_alloc&) { t = true; } VF_CHECK(g, t, "accepted"); }
    auto m = sdd::init<C>(conf);
    if (refuse) VF_CHECK(g, refused([&] { return sdd::init<C>(conf); }), "a second initialization was accepted");
    const SDD x = build_sum(w, a), y = build_canonical(w, b);
    const Hom h = sdd::sum<C>(w.order(), {sdd::id<C>(), sdd::constant<C>(y)});
    const SDD z = h(w.order(), x);
    return z == (a.empty() ? sdd::zero<C>() : x + y);
  };
  VF_CHECK(g, cycle(), "wrong result");
  const long l0 = vf::live_allocations();
  for (int i = 0; i < 3; ++i) VF_CHECK(g, cycle(), "wrong result");
  VF_CHECK(g, vf::live_allocations() == l0, vf::live_allocations() - l0 << " allocations survive 3 cycles of initialization");
  if (fail || refuse) g.nontrivial();
}

VF_CASE("statistics/" VF_CONF_NAME, 40, statistics);
VF_CASE("lifecycle/" VF_CONF_NAME, 20, lifecycle);
VF_CASE("cycles/" VF_CONF_NAME, 10, cycles);

/*------------------------------------------------------------------------------------------------*/
// Several configurations at once.

#if VF_CONF == 1

// As conf0 and wide_conf, sharing nothing but the kind of values.
struct other0 : public sdd::default_configuration
{
  using Identifier = unsigned int;
  using Values     = sdd::values::bitset<64>;
};

struct Holder
{
  virtual ~Holder() {}
  virtual bool check() = 0;
};

template <typename K> K small_conf()
{
  K c;
  c.sdd_unique_table_size = 100;
  c.sdd_difference_cache_size = 64;
  c.sdd_intersection_cache_size = 64;
  c.sdd_sum_cache_size = 64;
  c.sdd_arena_size = 4096;
  c.hom_unique_table_size = 64;
  c.hom_cache_size = 64;
  set_flat(c, 64, 0);
  return c;
}

template <typename K>
struct HolderOf : Holder
{
  sdd::manager<K> m;
  std::vector<sdd::SDD<K>> xs;
  int n;

  explicit HolderOf(int nn) : m(sdd::init<K>(small_conf<K>())), n(nn)
  {
    for (int i = 0; i < n; ++i) xs.push_back(make(i));
  }

  static sdd::SDD<K> make(int i)
  {
    typename K::Values a, b;
    for (int k = 0; k <= i; ++k) { a.insert(k); b.insert(2 * k + 1); }
    return sdd::SDD<K>(1, a, sdd::SDD<K>(0, b, sdd::one<K>()));
  }

  bool check() override
  {
    sdd::SDD<K> all = sdd::zero<K>();
    for (int i = 0; i < n; ++i)
    {
      if (!(xs[i] == make(i))) return false;
      if (!((xs[i] & xs[n - 1]) == xs[i])) return false;
      all += xs[i];
    }
    if (!(all == xs[n - 1])) return false;
    return all.size() == static_cast<unsigned long>(n) * n;
  }
};

std::unique_ptr<Holder> open(int k, int n)
{
  switch (k)
  {
    case 0: return std::unique_ptr<Holder>(new HolderOf<sdd::conf0>(n));
    case 1: return std::unique_ptr<Holder>(new HolderOf<sdd::conf1>(n));
    case 2: return std::unique_ptr<Holder>(new HolderOf<sdd::conf2>(n));
    case 3: return std::unique_ptr<Holder>(new HolderOf<wide_conf>(n));
    default: return std::unique_ptr<Holder>(new HolderOf<other0>(n));
  }
}

void several(G& g)
{
  // Kind of values of each configuration.
  static const int kind[] = {0, 1, 1, 2, 0};
  std::vector<std::unique_ptr<Holder>> live(5);
  bool conflict = false, together = false;
  for (int i = 0, n = g.range(2, 20); i < n; ++i)
  {
    const int k = g.below(5);
    if (live[k] && g.below(2)) { live[k].reset(); g.desc << " close" << k; }
    else
    {
      bool busy = false;
      int alive = 0;
      for (int j = 0; j < 5; ++j)
      {
        if (!live[j]) continue;
        ++alive;
        if (j == k || (kind[j] == kind[k])) busy = true;
      }
      std::unique_ptr<Holder> h;
      bool ok = true;
      try { h = open(k, g.range(1, 12)); }
      catch (const std::runtime_error&) { ok = false; }
      g.desc << (ok ? " open" : " refused") << k;
      VF_CHECK(g, ok || busy, "configuration " << k << " refused though nothing conflicts");
      VF_CHECK(g, !ok || !busy, "configuration " << k << " accepted though it conflicts");
      if (ok)
      {
        if (live[k]) g.fail("a second manager of a configuration");
        live[k] = std::move(h);
        if (alive) together = true;
      }
      else conflict = true;
    }
    for (int j = 0; j < 5; ++j) if (live[j]) VF_CHECK(g, live[j]->check(), "configuration " << j << " disturbed");
  }
  if (conflict) g.label("conflict");
  if (together) g.label("several at once");
  if (conflict && together) g.nontrivial();
}

VF_CASE("several configurations", 20, several);

#endif

} // namespace
