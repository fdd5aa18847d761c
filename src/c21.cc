// C21 -- hash tables, unique tables and smart pointers against models.
#include <cstring>
#include <memory>
#include <unordered_map>

#include "sdd/mem/ptr.hh"
#include "sdd/mem/unique.hh"
#include "sdd/mem/unique_table.hh"
#include "sdd/util/next_power.hh"
#include "vf.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C21";
const char* const rule =
  "case = a history of insertions, lookups, removals and clears on a hash table (growing or fixed) with a hash "
  "distribution from constant to perfect, or a history of creations, copies, moves, assignments and releases of "
  "references to unified data of variable size that may itself hold references; contents, identities, releases and "
  "statistics must be those of a set / reference-counted model. Non-trivial: a resize happened or elements collided, "
  "and something was removed.";
}
#endif

using vf::G;

namespace {

std::uint64_t hash_of(int mode, std::uint64_t key)
{
  switch (mode)
  {
    case 0: return 0;
    case 1: return key;
    case 2: return key % 3;
    case 3: return key << 33;
    case 4: return ~std::uint64_t(0) - key;
    default: { std::uint64_t s = key + 99; return vf::mix(s); }
  }
}

struct El
{
  std::uint64_t key, h;
  sdd::mem::intrusive_member_hook<El> hook;
  El(std::uint64_t k, std::uint64_t hh) : key(k), h(hh) {}
  bool operator==(const El& o) const noexcept { return key == o.key; }
};

struct Probe { std::uint64_t key, h; };

} // namespace

namespace std {
template <> struct hash<El> { std::size_t operator()(const El& e) const noexcept { return e.h; } };
template <> struct hash<Probe> { std::size_t operator()(const Probe& e) const noexcept { return e.h; } };
}

namespace {

bool pow2(std::size_t n) { return n && !(n & (n - 1)); }

template <typename Table>
void check_stats(G& g, const Table& t, std::size_t size, int hmode)
{
  VF_CHECK(g, t.size() == size, "size " << t.size() << " expected " << size);
  const auto b = t.bucket_count();
  VF_CHECK(g, pow2(b), b << " buckets");
  VF_CHECK(g, t.load_factor() == static_cast<double>(size) / static_cast<double>(b), "load factor");
  std::size_t col, alone, empty;
  std::tie(col, alone, empty) = t.collisions();
  VF_CHECK(g, col + alone + empty == b, "occupancy " << col << "+" << alone << "+" << empty << " of " << b);
  VF_CHECK(g, alone + 2 * col <= size && (size == 0) == (empty == b), "occupancy statistics");
  if (col == 0) VF_CHECK(g, alone == size, "elements missing from the buckets");
  if (hmode == 0) VF_CHECK(g, col == (size > 1 ? 1u : 0u) && alone == (size == 1 ? 1u : 0u), "occupancy with a constant hash");
}

template <bool Rehash>
void put(G& g, sdd::mem::hash_table<El, Rehash>& t, El* e, El* expected_dup, std::false_type)
{
  const auto r = t.insert(e);
  VF_CHECK(g, r.second == (expected_dup == nullptr), "insertion of " << e->key << (r.second ? " accepted" : " refused"));
  VF_CHECK(g, r.first == (expected_dup ? expected_dup : e), "insertion of " << e->key << " returned another element");
}

template <bool Rehash>
void put(G& g, sdd::mem::hash_table<El, Rehash>& t, El* e, El* expected_dup, std::true_type)
{
  typename sdd::mem::hash_table<El, Rehash>::insert_commit_data cd;
  const auto r = t.insert_check(Probe{e->key, e->h}, [](const Probe& p, const El& x) { return p.key == x.key; }, cd);
  VF_CHECK(g, r.second == (expected_dup == nullptr), "lookup of " << e->key << (r.second ? " absent" : " present"));
  if (expected_dup) { VF_CHECK(g, r.first == expected_dup, "lookup of " << e->key << " returned another element"); return; }
  t.insert_commit(e, cd);
}

template <bool Rehash, typename Check>
void table(G& g)
{
  const std::size_t size = g.oneof<std::size_t>({1, 2, 3, 4, 5, 8, 9, 31, 32, 33, 100, 1000});
  const double maxlf = Rehash ? g.oneof({0.75, 0.75, 1.0, 0.5}) : 0.85;
  const int hmode = g.range(0, 5);
  const int nkeys = g.range(1, g.chance(50) ? 12 : 400);
  using Table = sdd::mem::hash_table<El, Rehash>;
  std::unique_ptr<Table> t(Rehash && maxlf == 0.75 ? new Table(size) : new Table(size, maxlf));
  const std::size_t initial = t->bucket_count();
  VF_CHECK(g, initial >= size && initial < 2 * size && pow2(initial), "table of " << size << " has " << initial << " buckets");
  std::map<std::uint64_t, El*> model;
  std::vector<std::unique_ptr<El>> pool;
  g.desc << (Rehash ? "growing" : "fixed") << " size=" << size << " hash=" << hmode << " lf=" << maxlf << ":";
  const int steps = g.range(1, g.chance(50) ? 30 : 1200);
  const int del = g.oneof({5, 30, 50});
  std::size_t removed = 0, rehash = 0, maxsize = 0;
  bool collided = false;
  for (int i = 0; i < steps; ++i)
  {
    const int w = g.below(1000);
    if (w >= 995)
    {
      std::map<std::uint64_t, El*> left = model;
      t->clear_and_dispose([&](El* e)
      {
        const auto it = left.find(e->key);
        VF_CHECK(g, it != left.end() && it->second == e, "clear disposes " << e->key << " twice or wrongly");
        left.erase(it);
        e->key = 0xdeadbeef; // the table mustn't look at it any longer
        e->h = 1;
        e->hook.next = reinterpret_cast<El*>(8);
      });
      VF_CHECK(g, left.empty(), "clear forgets " << left.size() << " elements");
      removed += model.size();
      model.clear();
      g.desc << " clear";
    }
    else if (w < del * 10 && !model.empty())
    {
      auto it = model.begin();
      std::advance(it, g.below(model.size()));
      g.desc << " -" << it->first;
      if (g.below(2)) { const El other(it->first, it->second->h); t->erase(&other); }
      else t->erase(it->second);
      it->second->hook.next = nullptr; // a fresh hook, as for a new element
      ++removed;
      model.erase(it);
    }
    else
    {
      const std::uint64_t k = g.below(nkeys);
      g.desc << " +" << k;
      pool.emplace_back(new El(k, hash_of(hmode, k)));
      const auto it = model.find(k);
      put(g, *t, pool.back().get(), it == model.end() ? nullptr : it->second, Check());
      if (it == model.end()) model[k] = pool.back().get();
    }
    maxsize = std::max(maxsize, model.size());
    check_stats(g, *t, model.size(), hmode);
    if (std::get<0>(t->collisions())) collided = true;
    VF_CHECK(g, t->nb_rehash() >= rehash, "number of rehashes decreased");
    rehash = t->nb_rehash();
    if (Rehash && !std::is_same<Check, std::true_type>::value)
    {
      VF_CHECK(g, t->bucket_count() == initial << rehash, "buckets " << t->bucket_count() << " after " << rehash << " resizes of " << initial);
      VF_CHECK(g, t->load_factor() <= maxlf, "load factor " << t->load_factor() << " above " << maxlf);
      VF_CHECK(g, rehash == 0 || static_cast<double>(maxsize) >= maxlf * static_cast<double>(t->bucket_count() / 2), "useless resize");
    }
    else VF_CHECK(g, t->bucket_count() == initial && rehash == 0, "a fixed table was resized");
    if (i % 16 == 0 || i + 1 == steps)
    {
      // Everything is found, under its own identity.
      for (const auto& m : model) { El e(m.first, m.second->h); put(g, *t, &e, m.second, Check()); }
      check_stats(g, *t, model.size(), hmode);
    }
  }
  if (rehash) g.label("rehash");
  if (collided) g.label("collision");
  if (removed && (rehash || collided)) g.nontrivial();
}

void growing(G& g) { table<true, std::false_type>(g); }
void fixed_size(G& g) { table<false, std::true_type>(g); }

void powers(G& g)
{
  auto run = [&](auto x)
  {
    using T = decltype(x);
    const T r = sdd::util::next_power_of_2(x);
    VF_CHECK(g, r >= x && (r & (r - 1)) == 0 && r != 0 && r / 2 < x, "next power of 2 of " << x << " is " << r);
  };
  const int b = g.range(0, 62);
  const std::uint64_t x = (std::uint64_t(1) << b) + g.range(-3, 3);
  if (x >= 1 && x <= (std::uint64_t(1) << 63)) run(static_cast<unsigned long>(x));
  if (x >= 1 && x <= (std::uint64_t(1) << 31)) run(static_cast<unsigned int>(x));
  g.desc << x;
}

/*------------------------------------------------------------------------------------------------*/
// Unified data of variable size, holding references to other unified data.

struct Data;
using U = sdd::mem::unique<Data>;
using P = sdd::mem::ptr<U>;

struct Reg
{
  std::set<const void*> live;
  std::string error;
  std::size_t destroyed = 0, created = 0;
  int hmode = 0;
};
Reg* reg = nullptr;

struct Data
{
  std::uint64_t key;
  std::uint32_t n;                 // number of bytes behind this object
  std::unique_ptr<std::vector<P>> kids;

  Data(std::uint64_t k, std::uint32_t nn, std::vector<P>&& ks)
    : key(k), n(nn), kids(new std::vector<P>(std::move(ks)))
  {
    if (!reg->live.insert(this).second) reg->error = "data constructed over live data";
    ++reg->created;
    for (std::uint32_t i = 0; i < n; ++i) bytes()[i] = fill(i);
  }
  ~Data()
  {
    if (!reg->live.erase(this)) reg->error = "data destroyed twice";
    ++reg->destroyed;
    for (std::uint32_t i = 0; i < n; ++i) if (cbytes()[i] != fill(i)) reg->error = "data overwritten";
  }
  char fill(std::uint32_t i) const { return static_cast<char>(key * 31 + i * 7 + n); }
  char* bytes() { return reinterpret_cast<char*>(this) + sizeof(Data); }
  const char* cbytes() const { return reinterpret_cast<const char*>(this) + sizeof(Data); }
  bool operator==(const Data& o) const noexcept
  {
    if (!reg->live.count(this) || !reg->live.count(&o)) { reg->error = "comparison of dead data"; return false; }
    return key == o.key && n == o.n && std::memcmp(cbytes(), o.cbytes(), n) == 0 && *kids == *o.kids;
  }
};

} // namespace

namespace std {
template <> struct hash<Data>
{
  std::size_t operator()(const Data& d) const noexcept { return hash_of(reg->hmode, d.key + d.n + d.kids->size()); }
};
}

namespace {

// Content of a datum as a tree, the model of identity.
struct Content
{
  std::uint64_t key;
  std::uint32_t n;
  std::vector<const void*> kids; // identities, checked to be canonical by induction
  bool operator<(const Content& o) const { return std::tie(key, n, kids) < std::tie(o.key, o.n, o.kids); }
};

struct MNode { Content c; long refs = 0; };

void unify(G& g)
{
  const long before = vf::live_allocations();
  bool shared = false, released = false, rehashed = false, collided = false, cascade = false;
  {
    Reg r;
    reg = &r;
    r.hmode = g.range(0, 5);
    const std::size_t size = g.oneof<std::size_t>({1, 2, 3, 8, 10, 64, 1000});
    auto table = std::make_unique<sdd::mem::unique_table<U>>(size);
    sdd::mem::set_deletion_handler<U>([&](const U* u) { table->erase(u); });

    std::map<const void*, MNode> nodes;           // live data
    std::map<Content, const void*> index;
    std::size_t access = 0, hits = 0, misses = 0, peak = 0;
    struct Slot { P p; const void* id; };
    std::vector<std::unique_ptr<Slot>> slots;

    std::function<void (const void*)> unref = [&](const void* id)
    {
      MNode& m = nodes.at(id);
      if (--m.refs == 0)
      {
        const auto kids = m.c.kids;
        index.erase(m.c);
        nodes.erase(id);
        released = true;
        if (!kids.empty()) cascade = true;
        for (auto k : kids) unref(k);
      }
    };
    auto ref = [&](const void* id) { ++nodes.at(id).refs; };

    g.desc << "size=" << size << " hash=" << r.hmode << ":";
    const int nkeys = g.range(1, g.chance(60) ? 5 : 60);
    const int maxn = g.oneof({0, 3, 40, 400});
    const int steps = g.range(1, g.chance(60) ? 40 : 500);
    const int keep = g.oneof({3, 8, 200});
    auto check = [&](const char* what)
    {
      VF_CHECK(g, r.error.empty(), what << ": " << r.error);
      VF_CHECK(g, r.live.size() == nodes.size(), what << ": " << r.live.size() << " live data, expected " << nodes.size());
      const auto& st = table->stats();
      VF_CHECK(g, st.size == nodes.size(), what << ": size " << st.size << " expected " << nodes.size());
      VF_CHECK(g, st.access == access && st.hits == hits && st.misses == misses,
               what << ": access/hits/misses " << st.access << "/" << st.hits << "/" << st.misses << " expected " << access << "/" << hits << "/" << misses);
      VF_CHECK(g, st.peak == peak, what << ": peak " << st.peak << " expected " << peak);
      VF_CHECK(g, st.collisions + st.alone + st.empty == st.buckets, what << ": occupancy");
      VF_CHECK(g, st.alone + 2 * st.collisions <= st.size, what << ": occupancy");
      VF_CHECK(g, st.load_factor == static_cast<double>(st.size) / static_cast<double>(st.buckets), what << ": load factor");
      if (st.rehash) rehashed = true;
      if (st.collisions) collided = true;
    };
    for (int i = 0; i < steps; ++i)
    {
      const int w = g.below(100);
      if (slots.empty() || w >= 50)
      {
        Content c{g.below(nkeys), static_cast<std::uint32_t>(g.chance(50) ? g.range(0, maxn) : 0), {}};
        std::vector<P> kids;
        if (!slots.empty() && g.chance(40))
        {
          for (int k = g.range(1, 3); k > 0; --k) { const auto& s = g.pick(slots); kids.push_back(s->p); c.kids.push_back(s->id); }
        }
        g.desc << " new(" << c.key << "," << c.n << "," << c.kids.size() << ")";
        for (auto id : c.kids) ref(id);
        char* addr = table->allocate(c.n);
        U* u = new (addr) U(c.key, c.n, std::move(kids));
        P p(&(*table)(u, c.n));
        ++access;
        const void* id = &*p;
        const auto it = index.find(c);
        if (it != index.end())
        {
          ++hits;
          shared = true;
          VF_CHECK(g, it->second == id, "equal data unified to another identity");
          for (auto k : c.kids) unref(k);
        }
        else
        {
          ++misses;
          VF_CHECK(g, !nodes.count(id), "distinct data unified");
          nodes[id] = MNode{c, 0};
          index[c] = id;
          peak = std::max(peak, nodes.size());
        }
        ref(id);
        VF_CHECK(g, p->data().key == c.key && p->data().n == c.n && p->data().kids->size() == c.kids.size(), "wrong unified data");
        slots.emplace_back(new Slot{std::move(p), id});
        if (static_cast<int>(slots.size()) > keep)
        {
          const auto k = g.below(slots.size());
          const void* d = slots[k]->id;
          slots.erase(slots.begin() + k);
          unref(d);
        }
      }
      else
      {
        const auto a = g.below(slots.size()), b = g.below(slots.size());
        switch (g.range(0, 6))
        {
          case 0: { g.desc << " drop"; const void* d = slots[a]->id; slots.erase(slots.begin() + a); unref(d); break; }
          case 1: { g.desc << " copy"; ref(slots[a]->id); slots.emplace_back(new Slot{slots[a]->p, slots[a]->id}); break; }
          case 2: { g.desc << " assign"; const void* d = slots[b]->id; ref(slots[a]->id); slots[b]->p = slots[a]->p; slots[b]->id = slots[a]->id; unref(d); break; }
          case 3:
          {
            if (a == b) { g.desc << " self"; P& x = slots[a]->p; x = *&x; break; }
            g.desc << " move"; const void* d = slots[b]->id;
            slots[b]->p = std::move(slots[a]->p); slots[b]->id = slots[a]->id;
            unref(d);
            slots.erase(slots.begin() + a); // moved-from: only destroyed
            break;
          }
          case 4: { g.desc << " swap"; using std::swap; swap(slots[a]->p, slots[b]->p); std::swap(slots[a]->id, slots[b]->id); break; }
          case 5: // descend: replace a reference by one held by the data it refers to
          {
            if (slots[a]->p->data().kids->empty()) break;
            g.desc << " descend";
            const void* d = slots[a]->id;
            const void* k = nodes.at(d).c.kids[0];
            ref(k);
            slots[a]->p = slots[a]->p->data().kids->front();
            slots[a]->id = k;
            unref(d);
            break;
          }
          default:
          {
            VF_CHECK(g, (slots[a]->p == slots[b]->p) == (slots[a]->id == slots[b]->id), "equality of references");
            VF_CHECK(g, !(slots[a]->p < slots[a]->p), "order of references");
            VF_CHECK(g, std::hash<P>()(slots[a]->p) == std::hash<P>()(P(slots[a]->p)), "hash of references");
          }
        }
      }
      check("history");
      VF_CHECK(g, static_cast<const void*>(slots.empty() ? nullptr : &*slots.back()->p) == (slots.empty() ? nullptr : slots.back()->id), "reference to another datum");
    }
    while (!slots.empty())
    {
      const auto k = g.below(slots.size());
      const void* d = slots[k]->id;
      slots.erase(slots.begin() + k);
      unref(d);
    }
    check("release");
    VF_CHECK(g, nodes.empty() && r.live.empty(), "data outlives its references");
    VF_CHECK(g, r.created == r.destroyed, r.created << " data created, " << r.destroyed << " destroyed");
    table.reset();
    sdd::mem::reset_deletion_handler<U>();
    reg = nullptr;
  }
  std::string d = g.desc.str();
  (void)before; (void)d;
  if (shared) g.label("shared");
  if (cascade) g.label("cascade");
  if (rehashed) g.label("rehash");
  if (released && (rehashed || collided)) g.nontrivial();
}

// The table gives back every byte.
void memory(G& g)
{
  struct Plain { std::uint64_t k; explicit Plain(std::uint64_t x) : k(x) {} };
  const std::uint64_t seed = g.bulk_seed();
  const int n = g.range(1, 300), keys = g.range(1, 40);
  g.desc << n << " insertions of " << keys << " data";
  auto run = [&]
  {
    Reg r;
    reg = &r;
    r.hmode = 5;
    std::uint64_t s = seed;
    {
      sdd::mem::unique_table<U> t(4);
      sdd::mem::set_deletion_handler<U>([&](const U* u) { t.erase(u); });
      {
        std::vector<P> ps;
        for (int i = 0; i < n; ++i)
        {
          const auto x = vf::mix(s);
          const std::uint32_t extra = (x >> 8) % 50;
          char* addr = t.allocate(extra);
          ps.emplace_back(&t(new (addr) U(x % keys, extra, std::vector<P>()), extra));
          if ((x >> 20) % 3 == 0) ps.erase(ps.begin() + (x >> 24) % ps.size());
        }
      }
      sdd::mem::reset_deletion_handler<U>();
    }
    if (!r.error.empty()) { const auto e = r.error; reg = nullptr; VF_FAIL(g, e); }
    reg = nullptr;
  };
  run();
  const long a = vf::live_allocations();
  run();
  VF_CHECK(g, vf::live_allocations() == a, vf::live_allocations() - a << " allocations lost by a unique table");
  if (n > keys) g.nontrivial();
}

// Tables of very many elements.
template <bool Rehash, typename Check>
void large_table(G& g, std::size_t n)
{
  const int hmode = g.oneof({1, 4, 5, 5});
  const std::size_t size = Rehash ? g.oneof<std::size_t>({1, 10, 1000, 100000}) : n;
  sdd::mem::hash_table<El, Rehash> t(size, Rehash ? 0.75 : 0.85);
  std::uint64_t seed = g.bulk_seed();
  const std::uint64_t mask = g.oneof<std::uint64_t>({~std::uint64_t(0), 0xfffff, 0xffffffff});
  std::unordered_map<std::uint64_t, El*> model;
  std::vector<std::unique_ptr<El>> pool;
  std::size_t removed = 0;
  for (std::size_t i = 0; i < n; ++i)
  {
    const std::uint64_t r = vf::mix(seed), k = r & mask;
    pool.emplace_back(new El(k, hash_of(hmode, k)));
    const auto it = model.find(k);
    put(g, t, pool.back().get(), it == model.end() ? nullptr : it->second, Check());
    if (it == model.end()) model[k] = pool.back().get();
    if (vf::mix(seed) % 4 == 0)
    {
      const auto& e = pool[vf::mix(seed) % pool.size()];
      const auto f = model.find(e->key);
      if (f != model.end() && f->second == e.get()) { t.erase(e.get()); e->hook.next = nullptr; model.erase(f); ++removed; }
    }
    VF_CHECK(g, t.size() == model.size(), "size " << t.size() << " expected " << model.size());
  }
  for (const auto& m : model) { El e(m.first, m.second->h); put(g, t, &e, m.second, Check()); }
  check_stats(g, t, model.size(), hmode);
  std::size_t k = 0;
  for (const auto& e : pool)
  {
    const auto f = model.find(e->key);
    if (f == model.end() || f->second != e.get() || ++k % 2) continue;
    t.erase(e.get());
    model.erase(f);
  }
  for (const auto& m : model) { El e(m.first, m.second->h); put(g, t, &e, m.second, Check()); }
  check_stats(g, t, model.size(), hmode);
  std::size_t disposed = 0;
  t.clear_and_dispose([&](El* e) { ++disposed; const auto f = model.find(e->key); VF_CHECK(g, f != model.end() && f->second == e, "clear disposes something else"); model.erase(f); });
  VF_CHECK(g, model.empty() && t.size() == 0, "clear forgets elements");
  g.desc << (Rehash ? "growing" : "fixed") << " table, " << n << " insertions, " << removed << " removals, " << t.bucket_count() << " buckets";
  g.label("large");
  if (removed) g.nontrivial();
}

void large_unique(G& g, std::size_t n)
{
  Reg r;
  reg = &r;
  r.hmode = g.oneof({1, 4, 5});
  {
    sdd::mem::unique_table<U> t(g.oneof<std::size_t>({1, 100, 10000}));
    sdd::mem::set_deletion_handler<U>([&](const U* u) { t.erase(u); });
    {
      auto mk = [&](std::uint64_t k) { char* addr = t.allocate(k % 5); return P(&t(new (addr) U(k, static_cast<std::uint32_t>(k % 5), std::vector<P>()), k % 5)); };
      std::vector<P> ps;
      for (std::size_t i = 0; i < n; ++i) ps.push_back(mk(i));
      VF_CHECK(g, t.stats().size == n && r.live.size() == n, t.stats().size << " unified data instead of " << n);
      for (std::size_t i = 0; i < n; i += 1 + i % 7) VF_CHECK(g, mk(i) == ps[i] && ps[i]->data().key == i, "datum " << i << " isn't unified");
      std::uint64_t seed = g.bulk_seed();
      for (std::size_t i = n - 1; i > 0; --i) std::swap(ps[i], ps[vf::mix(seed) % (i + 1)]);
      const std::size_t left = n / 3;
      while (ps.size() > left) ps.pop_back();
      VF_CHECK(g, t.stats().size == left && r.live.size() == left, t.stats().size << " unified data instead of " << left << " after releases");
      for (const auto& p : ps) VF_CHECK(g, mk(p->data().key) == p, "datum " << p->data().key << " isn't unified");
    }
    VF_CHECK(g, t.stats().size == 0 && r.live.empty(), "data outlives its references");
    sdd::mem::reset_deletion_handler<U>();
  }
  const auto e = r.error;
  reg = nullptr;
  VF_CHECK(g, e.empty(), e);
  g.desc << "unique table of " << n;
  g.label("large");
  g.nontrivial();
}

void large(G& g)
{
  const int kind = g.range(0, 2);
  const std::size_t n = g.below(20) == 0 ? 60000 + g.below(90000) : 1000 + g.below(9000);
  if (kind == 0) large_table<true, std::false_type>(g, n);
  else if (kind == 1) large_table<false, std::true_type>(g, n);
  else large_unique(g, n / 2);
}

VF_CASE("large", 1, [](G& g) { if (g.below(20) == 0) large(g); else powers(g); });
VF_CASE("growing table", 4, growing);
VF_CASE("fixed table", 3, fixed_size);
VF_CASE("unique table", 6, unify);
VF_CASE("memory", 1, memory);
VF_CASE("powers of two", 1, powers);

} // namespace
