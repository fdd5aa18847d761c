// C22 -- the temporary memory of operations: arena, rewinders, allocator, containers.
#include <cstring>
#include <list>
#include <memory>

#include <boost/container/flat_map.hpp>
#include <boost/container/flat_set.hpp>
#include <boost/container/vector.hpp>

#include "sdd/mem/linear_alloc.hh"
#include "vf.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C22";
const char* const rule =
  "case = an arena of random size (0 to 64 KiB) and a history of allocations, releases in any order and nested scopes, "
  "or containers filled through it; blocks in use must be disjoint and keep their contents, a scope must give back all "
  "its room, and heap blocks must be released exactly once. Non-trivial: a block was served after the arena was "
  "exhausted or a release happened out of order, and at least one scope was left.";
}
#endif

using vf::G;
using namespace sdd::mem;

namespace {

struct Block
{
  char* p;
  std::size_t n;
  unsigned char fill;
};

struct Hist
{
  G& g;
  arena& a;
  std::map<char*, Block> live;    // every block in use, by address (n > 0)
  bool exhausted = false, unordered = false, left = false;
  unsigned next = 1;
  long heap = 0;
  char* start = nullptr;
  std::size_t size = 0;

  bool in_buffer(const Block& b) const { return std::less_equal<char*>()(start, b.p) && std::less<char*>()(b.p, start + size); }

  void verify(const Block& b)
  {
    for (std::size_t i = 0; i < b.n; ++i)
    {
      if (static_cast<unsigned char>(b.p[i]) != b.fill) VF_FAIL(g, "byte " << i << " of a block of " << b.n << " bytes in use was overwritten");
    }
  }

  Block alloc(std::size_t n)
  {
    const long h0 = vf::live_allocations();
    char* p = a.allocate(n);
    const bool on_heap = vf::live_allocations() != h0;
    if (on_heap) { exhausted = true; ++heap; }
    Block b{p, n, static_cast<unsigned char>(next++ * 37 + 11)};
    if (n == 0) return b;
    VF_CHECK(g, p != nullptr, "null block");
    auto it = live.upper_bound(p);
    if (it != live.end()) VF_CHECK(g, p + n <= it->first, "block of " << n << " bytes overlaps a block in use");
    if (it != live.begin()) { --it; VF_CHECK(g, it->first + it->second.n <= p, "block of " << n << " bytes overlaps a block in use"); }
    std::memset(p, b.fill, n);
    live[p] = b;
    return b;
  }

  void release(const Block& b)
  {
    if (b.n) { verify(b); live.erase(b.p); }
    const long h0 = vf::live_allocations();
    a.deallocate(b.p, b.n);
    if (vf::live_allocations() != h0) --heap;
  }

  void check_all() { for (const auto& b : live) verify(b.second); }
};

std::size_t block_size(G& g, std::size_t arena_size)
{
  switch (g.range(0, 5))
  {
    case 0: return g.range(0, 3);
    case 1: return g.range(1, 64);
    case 2: return arena_size ? g.below(arena_size + 2) : g.range(0, 8);
    case 3: return 8 * g.range(1, 16);
    case 4: return g.range(1, 3000);
    default: return 16;
  }
}

// A scope: a rewinder, allocations, releases, nested scopes. Blocks of the scope that are still in
// use at its end are dropped if they live in the buffer, and released if they come from the heap.
void scope(Hist& h, int depth, std::vector<std::vector<Block>>& stack, std::size_t size, int& budget)
{
  G& g = h.g;
  const auto before = h.a.position();
  const long heap0 = h.heap;
  stack.emplace_back();
  {
    rewinder rw(h.a);
    VF_CHECK(g, h.a.position() == before, "opening a scope moves the position");
    for (int i = 0, n = g.range(0, 12); i < n && budget > 0; ++i)
    {
      --budget;
      const int w = g.below(100);
      if (w < 50)
      {
        const std::size_t n2 = block_size(g, size);
        g.desc << " +" << n2;
        stack.back().push_back(h.alloc(n2));
      }
      else if (w < 80 && !stack.back().empty())
      {
        auto& v = stack.back();
        const auto k = g.below(2) ? v.size() - 1 : g.below(v.size());
        if (k + 1 != v.size()) h.unordered = true;
        g.desc << " -" << v[k].n;
        h.release(v[k]);
        v.erase(v.begin() + k);
      }
      else if (w < 92 && depth > 0)
      {
        g.desc << " {";
        scope(h, depth - 1, stack, size, budget);
        g.desc << " }";
      }
      else if (w < 95) h.check_all();
    }
    h.check_all();
    // Blocks of the buffer may simply be dropped; the others belong to the heap.
    auto& v = stack.back();
    while (!v.empty())
    {
      const auto k = g.below(v.size());
      const Block b = v[k];
      v.erase(v.begin() + k);
      if (b.n && h.in_buffer(b) && g.below(3) == 0) h.live.erase(b.p);
      else h.release(b);
    }
  }
  stack.pop_back();
  h.left = true;
  VF_CHECK(g, h.a.position() == before, "the room of a scope isn't recovered");
  VF_CHECK(g, h.heap == heap0, "heap blocks of a scope not released: " << h.heap - heap0);
  h.check_all();
}

void blocks(G& g)
{
  const std::size_t size = g.oneof<std::size_t>({0, 1, 7, 8, 16, 64, 100, 256, 1000, 4096, 65536});
  bool nt = false;
  {
    arena a(size);
    const auto start = a.position();
    Hist h{g, a, {}};
    h.start = start; h.size = size;
    g.desc << "arena " << size << ":";
    std::vector<std::vector<Block>> stack;
    std::vector<Block> outer;
    int budget = g.range(5, 150);
    for (int i = 0, n = g.range(1, 10); i < n; ++i)
    {
      const int w = g.below(10);
      if (w < 6) { g.desc << " {"; scope(h, g.range(0, 5), stack, size, budget); g.desc << " }"; }
      else if (w < 9)
      {
        // Outside of any scope, as when the user builds the operands of a sum.
        const std::size_t n2 = block_size(g, size);
        g.desc << " +" << n2;
        outer.push_back(h.alloc(n2));
      }
      else if (!outer.empty())
      {
        const auto k = g.below(outer.size());
        g.desc << " -" << outer[k].n;
        h.release(outer[k]);
        outer.erase(outer.begin() + k);
      }
    }
    h.check_all();
    // Releasing in the reverse order of allocation gives everything back.
    while (!outer.empty())
    {
      const auto k = outer.size() - 1;
      h.release(outer[k]);
      outer.pop_back();
    }
    VF_CHECK(g, h.heap == 0, h.heap << " heap blocks never released");
    nt = h.left && (h.exhausted || h.unordered);
    if (h.exhausted) g.label("exhausted");
    if (h.unordered) g.label("out of order");
  }
  if (nt) g.nontrivial();
}

// Last-in first-out use recovers everything, even without a scope.
void lifo(G& g)
{
  const std::size_t size = g.oneof<std::size_t>({0, 8, 100, 1000, 65536});
  arena a(size);
  const auto start = a.position();
  Hist h{g, a, {}};
  std::vector<Block> st;
  g.desc << "arena " << size << " lifo:";
  for (int i = 0, n = g.range(1, 60); i < n; ++i)
  {
    if (st.empty() || g.below(5) < 3) { const auto n2 = block_size(g, size); g.desc << " +" << n2; st.push_back(h.alloc(n2)); }
    else { g.desc << " -"; h.release(st.back()); st.pop_back(); }
  }
  h.check_all();
  while (!st.empty()) { h.release(st.back()); st.pop_back(); }
  VF_CHECK(g, a.position() == start, "room not recovered by last-in first-out releases");
  VF_CHECK(g, h.heap == 0, "heap blocks never released");
  // A block as large as the arena fits in the buffer again.
  const Block b = h.alloc(size);
  VF_CHECK(g, h.heap == 0 && a.position() == start + size, "the arena can't serve a block of its own size");
  h.release(b);
  if (h.exhausted) { g.label("exhausted"); g.nontrivial(); }
}

// Large arenas, large blocks, very many blocks.
void large(G& g)
{
  const std::size_t size = g.oneof<std::size_t>({1u << 17, (1u << 20) + 5, 1u << 23});
  arena a(size);
  const auto start = a.position();
  Hist h{g, a, {}};
  h.start = start; h.size = size;
  std::uint64_t seed = g.bulk_seed();
  const bool many = g.below(2);
  const std::size_t n = many ? g.oneof<std::size_t>({1000, 40000, 70000}) : g.range(2, 20);
  std::vector<Block> outer, st;
  for (int i = 0; i < 3; ++i) outer.push_back(h.alloc(1 + vf::mix(seed) % 5000));
  const auto before = a.position();
  {
    rewinder rw(a);
    for (std::size_t i = 0; i < n; ++i)
    {
      st.push_back(h.alloc(many ? 1 + vf::mix(seed) % 60 : 1 + vf::mix(seed) % (size + size / 8)));
      if (vf::mix(seed) % 4 == 0)
      {
        const std::size_t k = vf::mix(seed) % 3 ? st.size() - 1 : vf::mix(seed) % st.size();
        if (k + 1 != st.size()) h.unordered = true;
        h.release(st[k]);
        st[k] = st.back();
        st.pop_back();
      }
    }
    h.check_all();
    while (!st.empty()) { h.release(st.back()); st.pop_back(); }
  }
  VF_CHECK(g, a.position() == before, "the room of a scope isn't recovered");
  h.check_all();
  while (!outer.empty()) { h.release(outer.back()); outer.pop_back(); }
  VF_CHECK(g, a.position() == start && h.heap == 0, "room not recovered");
  const Block b = h.alloc(size);
  VF_CHECK(g, h.heap == 0 && a.position() == start + size, "the arena can't serve a block of its own size");
  h.release(b);
  g.desc << "arena of " << size << " bytes, " << n << (many ? " small" : " large") << " blocks";
  g.label("large");
  if (h.exhausted || h.unordered) g.nontrivial();
}

// Values with a heap part: containers must construct, move and destroy them properly.
struct Val
{
  std::unique_ptr<unsigned> x;
  explicit Val(unsigned v = 0) : x(new unsigned(v)) {}
  Val(const Val& o) : x(new unsigned(*o.x)) {}
  Val(Val&&) = default;
  Val& operator=(const Val& o) { x.reset(new unsigned(*o.x)); return *this; }
  Val& operator=(Val&&) = default;
  bool operator<(const Val& o) const { return *x < *o.x; }
  bool operator==(const Val& o) const { return *x == *o.x; }
};

void containers_in(G& g, arena& a, int depth, bool& big)
{
  using VA = linear_alloc<Val>;
  using UA = linear_alloc<unsigned>;
  using MA = linear_alloc<std::pair<unsigned, unsigned>>;
  const auto before = a.position();
  const long live0 = vf::live_allocations();
  {
    rewinder rw(a);
    std::vector<Val, VA> v{VA(a)};
    std::vector<unsigned> mv;
    boost::container::vector<unsigned, UA> bv{UA(a)};
    std::vector<unsigned> mbv;
    boost::container::flat_set<unsigned, std::less<unsigned>, UA> fs{std::less<unsigned>(), UA(a)};
    std::set<unsigned> mfs;
    boost::container::flat_map<unsigned, unsigned, std::less<unsigned>, MA> fm{std::less<unsigned>(), MA(a)};
    std::map<unsigned, unsigned> mfm;
    std::list<unsigned, UA> l{UA(a)};
    std::vector<unsigned> ml;
    for (int i = 0, n = g.range(1, 60); i < n; ++i)
    {
      const unsigned x = g.below(40);
      switch (g.range(0, 12))
      {
        case 0: case 1: v.emplace_back(x); mv.push_back(x); break;
        case 2: if (!v.empty()) { const auto k = g.below(v.size()); v.erase(v.begin() + k); mv.erase(mv.begin() + k); } break;
        case 3: { const auto k = g.below(bv.size() + 1); bv.insert(bv.begin() + k, x); mbv.insert(mbv.begin() + k, x); } break;
        case 4: { const auto c = g.below(100); bv.resize(bv.size() + c % 20, x); mbv.resize(mbv.size() + c % 20, x); } break;
        case 5: case 6: fs.insert(x); mfs.insert(x); break;
        case 7: fs.erase(x); mfs.erase(x); break;
        case 8: case 9: fm[x] = i; mfm[x] = i; break;
        case 10: l.push_back(x); ml.push_back(x); break;
        case 11: if (!l.empty()) { l.pop_front(); ml.erase(ml.begin()); } break;
        default: if (depth > 0) containers_in(g, a, depth - 1, big); else v.reserve(v.size() + x);
      }
    }
    bool ok = v.size() == mv.size() && bv.size() == mbv.size() && fs.size() == mfs.size() && fm.size() == mfm.size() && l.size() == ml.size();
    for (std::size_t i = 0; ok && i < mv.size(); ++i) ok = *v[i].x == mv[i];
    VF_CHECK(g, ok, "vector of values damaged, or sizes differ");
    VF_CHECK(g, std::equal(mbv.begin(), mbv.end(), bv.begin()), "vector damaged");
    VF_CHECK(g, std::equal(mfs.begin(), mfs.end(), fs.begin()), "flat_set damaged");
    VF_CHECK(g, std::equal(ml.begin(), ml.end(), l.begin()), "list damaged");
    auto it = fm.begin();
    for (const auto& p : mfm) { VF_CHECK(g, it->first == p.first && it->second == p.second, "flat_map damaged"); ++it; }
    if (v.size() + bv.size() > 20) big = true;
  }
  VF_CHECK(g, a.position() == before, "the room of a scope isn't recovered");
  VF_CHECK(g, vf::live_allocations() == live0, vf::live_allocations() - live0 << " heap allocations lost by the containers of a scope");
}

void containers(G& g)
{
  const std::size_t size = g.oneof<std::size_t>({0, 1, 16, 64, 200, 1000, 5000, 65536});
  g.desc << "containers over an arena of " << size;
  bool big = false;
  {
    arena a(size);
    arena other(64);
    VF_CHECK(g, linear_alloc<int>(a) == linear_alloc<char>(a) && linear_alloc<int>(a) != linear_alloc<int>(other), "allocators of one arena must be equal");
    for (int i = 0, n = g.range(1, 4); i < n; ++i) containers_in(g, a, g.range(0, 3), big);
  }
  if (big) g.nontrivial();
}

VF_CASE("large", 1, [](G& g) { if (g.below(40) == 0) large(g); else lifo(g); });
VF_CASE("blocks", 4, blocks);
VF_CASE("lifo", 2, lifo);
VF_CASE("containers", 3, containers);

} // namespace
