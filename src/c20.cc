// C20 -- the operation cache against an exact model of a bounded LRU memo table.
#include <list>
#include <unordered_map>
#include <memory>

#include "sdd/mem/cache.hh"
#include "vf.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C20";
const char* const rule =
  "case = a random DAG of operations (each evaluates others through the same cache), a hash distribution (constant to "
  "perfect), filters, a cache size, and a history of requests, clears, cleared-while-evaluating and throwing "
  "evaluations; results, the log of evaluations, sizes and counters must be those of an exact LRU model, and every "
  "operation and result object must be destroyed exactly once. Non-trivial: at least one entry was evicted and at "
  "least one request was a hit.";
}
#endif

using vf::G;

namespace {

struct Boom { int key; };

struct Env;
Env* env = nullptr;

// Registry of live objects: destroying twice, or something never built, is a failure.
std::set<const void*> live;
std::string registry_error;

struct Tracked
{
  Tracked() { enter(); }
  Tracked(const Tracked&) { enter(); }
  Tracked(Tracked&&) { enter(); }
  Tracked& operator=(const Tracked&) { check(); return *this; }
  ~Tracked() { if (!live.erase(this)) registry_error = "object destroyed twice, or never constructed"; }
  void enter() { if (!live.insert(this).second) registry_error = "object constructed over a live one"; }
  void check() const { if (!live.count(this)) registry_error = "use of an object which isn't alive"; }
};

struct Res : Tracked
{
  std::uint64_t v;
  std::shared_ptr<std::uint64_t> heap; // so that leaks and double releases are visible
  explicit Res(std::uint64_t x) : v(x), heap(std::make_shared<std::uint64_t>(x)) {}
};

struct Op : Tracked
{
  int key;
  std::shared_ptr<int> heap;
  explicit Op(int k) : key(k), heap(std::make_shared<int>(k)) {}
  Op(const Op&) = default;
  Op(Op&& o) : Tracked(std::move(o)), key(o.key), heap(std::move(o.heap)) { o.key = -1; }
  bool operator==(const Op& o) const noexcept { check(); o.check(); return key == o.key; }
  Res operator()(Env&) const;
};

struct F1 { bool operator()(const Op& o) const; };
struct F2 { bool operator()(const Op& o) const; };

// The memo table under test, with 0, 1 or 2 filters, behind one face.
struct Face
{
  virtual ~Face() {}
  virtual Res get(Op&& o) = 0;
  virtual void clear() = 0;
  virtual std::size_t size() = 0;
  virtual const sdd::mem::cache_statistics& stats() = 0;
};

struct Spec { std::vector<int> deps; std::uint64_t hash; bool reject1, reject2; };

struct Env
{
  std::vector<Spec> specs;
  Face* face = nullptr;
  std::vector<int> log;      // keys evaluated
  long evals = 0;
  long throw_at = -1;        // throw at this evaluation (counted), after its dependencies when late
  bool late = false;
  long clear_at = -1;        // clear the cache during this evaluation
};

bool F1::operator()(const Op& o) const { return !env->specs[o.key].reject1; }
bool F2::operator()(const Op& o) const { return !env->specs[o.key].reject2; }

std::uint64_t combine(int key, const std::vector<std::uint64_t>& vs)
{
  std::uint64_t s = key * 0x9e3779b97f4a7c15ull + 12345;
  for (auto v : vs) { s ^= v; s = vf::mix(s); }
  return s;
}

} // namespace

namespace std {
template <> struct hash<Op>
{
  std::size_t operator()(const Op& o) const noexcept { o.check(); return o.key < 0 ? 0 : env->specs[o.key].hash; }
};
}

namespace {

Res Op::operator()(Env& e) const
{
  check();
  e.log.push_back(key);
  const long me = e.evals++;
  const int k = key;
  if (me == e.throw_at && !e.late) throw Boom{k};
  std::vector<std::uint64_t> vs;
  const auto deps = e.specs[k].deps;
  for (std::size_t i = 0; i < deps.size(); ++i)
  {
    vs.push_back(e.face->get(Op(deps[i])).v);
    if (i == 0 && me == e.clear_at) e.face->clear();
  }
  if (me == e.clear_at && deps.empty()) e.face->clear();
  if (me == e.throw_at && e.late) throw Boom{k};
  check();
  return Res(combine(k, vs));
}

template <typename... Fs>
struct FaceOf : Face
{
  sdd::mem::cache<Env, Op, Fs...> c;
  FaceOf(Env& e, std::size_t n) : c(e, n) {}
  Res get(Op&& o) override { return c(std::move(o)); }
  void clear() override { c.clear(); }
  std::size_t size() override { return c.size(); }
  const sdd::mem::cache_statistics& stats() override { return c.statistics(); }
};

struct Model
{
  const std::vector<Spec>& specs;
  int nfilters;
  std::size_t cap;
  std::list<std::pair<int, std::uint64_t>> lru; // front: oldest
  std::vector<int> log;
  long evals = 0, throw_at = -1, clear_at = -1;
  bool late = false;
  std::size_t hits = 0, misses = 0, filtered = 0, discarded = 0;

  std::uint64_t eval(int k)
  {
    log.push_back(k);
    const long me = evals++;
    if (me == throw_at && !late) throw Boom{k};
    std::vector<std::uint64_t> vs;
    const auto& deps = specs[k].deps;
    for (std::size_t i = 0; i < deps.size(); ++i)
    {
      vs.push_back(get(deps[i]));
      if (i == 0 && me == clear_at) lru.clear();
    }
    if (me == clear_at && deps.empty()) lru.clear();
    if (me == throw_at && late) throw Boom{k};
    return combine(k, vs);
  }

  std::uint64_t get(int k)
  {
    if ((nfilters >= 1 && specs[k].reject1) || (nfilters >= 2 && specs[k].reject2)) { ++filtered; return eval(k); }
    for (auto it = lru.begin(); it != lru.end(); ++it)
    {
      if (it->first == k) { ++hits; lru.splice(lru.end(), lru, it); return it->second; }
    }
    ++misses;
    const std::uint64_t v = eval(k);
    if (lru.size() == cap) { lru.pop_front(); ++discarded; }
    lru.emplace_back(k, v);
    return v;
  }
};

void history(G& g)
{
  live.clear();
  registry_error.clear();

  bool evicted = false, hit = false;
  std::string sum;
  {
    Env e;
    env = &e;
    const std::size_t size = g.oneof<std::size_t>({2, 3, 4, 5, 7, 8, 9, 16, 17, 30, 33, 64, 100});
    const int nops = g.range(1, g.chance(50) ? 12 : 150);
    const int hmode = g.range(0, 4);
    const int fan = g.oneof({0, 0, 1, 2, 3});
    for (int i = 0; i < nops; ++i)
    {
      Spec s;
      std::uint64_t x = static_cast<std::uint64_t>(i) + 7;
      switch (hmode)
      {
        case 0: s.hash = 0; break;
        case 1: s.hash = i; break;
        case 2: s.hash = i % 3; break;
        case 3: s.hash = static_cast<std::uint64_t>(i) << 40; break;
        default: s.hash = vf::mix(x); break;
      }
      if (i && fan) for (int d = g.range(0, fan); d > 0; --d) s.deps.push_back(g.below(std::min(i, 12)) + (i > 12 ? i - 12 : 0));
      s.reject1 = g.chance(12);
      s.reject2 = g.chance(12);
      e.specs.push_back(s);
    }
    const int nf = g.range(0, 2);
    std::unique_ptr<Face> face;
    if (nf == 0) face.reset(new FaceOf<>(e, size));
    else if (nf == 1) face.reset(new FaceOf<F1>(e, size));
    else face.reset(new FaceOf<F1, F2>(e, size));
    e.face = face.get();
    const std::size_t buckets = face->stats().buckets;
    VF_CHECK(g, buckets >= size && buckets < 2 * size, "a cache of " << size << " entries reports " << buckets << " buckets");
    Model m{e.specs, nf, static_cast<std::size_t>(buckets * 0.85), {}, {}};
    g.desc << "size=" << size << " ops=" << nops << " hash=" << hmode << " fan=" << fan << " filters=" << nf << ":";
    const int steps = g.range(1, g.chance(50) ? 30 : 250);
    const int locality = g.range(0, 2);
    for (int t = 0; t < steps; ++t)
    {
      const int what = g.below(100);
      if (what >= 97) { face->clear(); m.lru.clear(); g.desc << " clear"; g.label("clear"); }
      else
      {
        int k = locality == 0 ? g.below(nops) : locality == 1 ? (t % nops) : g.small(0, nops - 1);
        e.log.clear(); m.log.clear();
        e.evals = m.evals = 0;
        e.throw_at = m.throw_at = -1;
        e.clear_at = m.clear_at = -1;
        if (what >= 85) { e.throw_at = m.throw_at = g.small(0, 8); e.late = m.late = g.below(2); }
        if (what < 4) { e.clear_at = m.clear_at = g.small(0, 6); }
        g.desc << " " << k << (e.throw_at >= 0 ? "!" : "") << (e.clear_at >= 0 ? "~" : "");
        int real_boom = -1, model_boom = -1;
        std::uint64_t rv = 0, mv = 0;
        const auto m_hits = m.hits;
        try { mv = m.get(k); } catch (const Boom& b) { model_boom = b.key; }
        if (m.evals > 4000) throw vf::Discard{};
        try
        {
          const Res r = face->get(Op(k));
          rv = r.v;
          VF_CHECK(g, r.heap && *r.heap == r.v, "damaged result");
        }
        catch (const Boom& b) { real_boom = b.key; }
        VF_CHECK(g, real_boom == model_boom, "request " << k << ": exception of " << real_boom << ", expected " << model_boom);
        VF_CHECK(g, rv == mv, "request " << k << " at step " << t << ": wrong result");
        VF_CHECK(g, e.log == m.log, "request " << k << " at step " << t << ": " << e.log.size() << " evaluations, expected " << m.log.size());
        if (m.hits > m_hits) hit = true;
        if (model_boom >= 0) g.label("exception");
      }
      VF_CHECK(g, registry_error.empty(), registry_error);
      const auto& st = face->stats();
      VF_CHECK(g, face->size() == m.lru.size(), "size " << face->size() << " expected " << m.lru.size());
      VF_CHECK(g, st.size == m.lru.size(), "reported size " << st.size << " expected " << m.lru.size());
      VF_CHECK(g, st.hits == m.hits && st.misses == m.misses, "hits/misses " << st.hits << "/" << st.misses << " expected " << m.hits << "/" << m.misses);
      VF_CHECK(g, st.filtered == m.filtered, "filtered " << st.filtered << " expected " << m.filtered);
      VF_CHECK(g, st.discarded == m.discarded, "discarded " << st.discarded << " expected " << m.discarded);
      VF_CHECK(g, st.buckets == buckets, "number of buckets changed");
      VF_CHECK(g, st.collisions + st.alone + st.empty == buckets, "occupancy statistics don't cover the buckets");
      VF_CHECK(g, st.alone + 2 * st.collisions <= st.size && (st.size == 0) == (st.empty == buckets), "occupancy statistics");
      VF_CHECK(g, st.load_factor == static_cast<double>(st.size) / static_cast<double>(buckets), "load factor");
      // Live objects: one operation and one result per entry.
      VF_CHECK(g, live.size() <= 2 * m.lru.size(), live.size() << " live objects for " << m.lru.size() << " entries");
    }
    evicted = m.discarded > 0;
    face.reset();
    VF_CHECK(g, registry_error.empty(), registry_error);
    VF_CHECK(g, live.empty(), live.size() << " objects outlive the cache");
    env = nullptr;
  }
  live.clear();
  if (evicted) g.label("eviction");
  if (hit) g.label("hit");
  if (evicted && hit) g.nontrivial();

}

// Large caches, without dependencies: only the order of requests matters.
void large(G& g)
{
  live.clear();
  registry_error.clear();
  Env e;
  env = &e;
  const std::size_t size = g.below(15) == 0 ? 40000 + g.below(40000) : 200 + g.below(4000);
  const int nops = static_cast<int>(size * g.oneof({1, 2, 3}));
  const int hmode = g.range(0, 1);
  for (int i = 0; i < nops; ++i)
  {
    std::uint64_t x = static_cast<std::uint64_t>(i) + 7;
    e.specs.push_back(Spec{{}, hmode ? vf::mix(x) : static_cast<std::uint64_t>(i), false, false});
  }
  std::size_t hits = 0, discarded = 0;
  {
    FaceOf<> face(e, size);
    e.face = &face;
    const std::size_t buckets = face.stats().buckets, cap = static_cast<std::size_t>(buckets * 0.85);
    std::list<int> lru;
    std::unordered_map<int, std::list<int>::iterator> where;
    std::uint64_t seed = g.bulk_seed();
    const int locality = g.range(0, 2);
    const std::size_t n = 3 * size;
    for (std::size_t t = 0; t < n; ++t)
    {
      const std::uint64_t r = vf::mix(seed);
      const int k = static_cast<int>(locality == 0 ? r % nops : locality == 1 ? t % nops : r % 3 ? (t / 3) % nops : r / 3 % nops);
      const long before = e.evals;
      const Res res = face.get(Op(k));
      VF_CHECK(g, res.v == combine(k, {}), "wrong result for " << k);
      const auto it = where.find(k);
      VF_CHECK(g, (e.evals == before) == (it != where.end()), "request " << t << " is a " << (e.evals == before ? "hit" : "miss") << " in a cache of " << size);
      if (it != where.end()) { ++hits; lru.splice(lru.end(), lru, it->second); }
      else
      {
        if (lru.size() == cap) { where.erase(lru.front()); lru.pop_front(); ++discarded; }
        where[k] = lru.insert(lru.end(), k);
      }
      VF_CHECK(g, face.size() == lru.size(), "size " << face.size() << " expected " << lru.size());
      e.log.clear();
    }
    const auto& st = face.stats();
    VF_CHECK(g, st.size == lru.size() && st.hits == hits && st.misses == n - hits && st.discarded == discarded && st.buckets == buckets, "statistics of a large cache");
    VF_CHECK(g, live.size() == 2 * lru.size(), live.size() << " live objects for " << lru.size() << " entries");
    face.clear();
    VF_CHECK(g, face.size() == 0 && live.empty(), "clearing leaves " << live.size() << " objects");
    VF_CHECK(g, face.get(Op(0)).v == combine(0, {}), "after clearing");
  }
  VF_CHECK(g, registry_error.empty(), registry_error);
  VF_CHECK(g, live.empty(), live.size() << " objects outlive the cache");
  env = nullptr;
  g.desc << "cache of " << size << ", " << hits << " hits, " << discarded << " discarded";
  g.label("large");
  if (hits && discarded) g.nontrivial();
}

VF_CASE("large", 1, large);
VF_CASE("history", 1000, history);

} // namespace
