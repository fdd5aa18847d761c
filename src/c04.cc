// C04 -- enumeration of paths.
#include "model.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C04";
const char* const rule =
  "case = random diagrams and a schedule of interleaved path iterations: several generators advanced in random "
  "order, some abandoned midway, with set operations, cache resets and releases of the iterated handles in between; "
  "each completed iteration must give disjoint products that make exactly the explicit set, an abandoned one a "
  "disjoint part of it, and heap allocations return to their former number. Also diagrams of thousands of levels. "
  "Non-trivial: at least two paths and either two live generators, an abandoned one or a released handle.";
}
#endif

using namespace md;
namespace {

struct Iter
{
  std::unique_ptr<sdd::path_generator<C>> gen;
  decltype(begin(std::declval<sdd::path_generator<C>&>())) it;
  Set expected;
  Set seen;
  std::size_t paths = 0;
  bool done = false;

  explicit Iter(std::unique_ptr<sdd::path_generator<C>> p, Set s)
    : gen(std::move(p)), it(begin(*gen)), expected(std::move(s)) {}
};

void step(G& g, const World& w, Iter& i)
{
  if (i.it == end(*i.gen)) { i.done = true; return; }
  const auto& path = *i.it;
  VF_CHECK(g, static_cast<int>(path.size()) == w.leaves, "path of " << path.size() << " value sets instead of " << w.leaves << " " << show(w));
  std::vector<std::vector<unsigned>> box;
  for (const auto& v : path)
  {
    box.push_back(vt::elems(v));
    VF_CHECK(g, !box.back().empty(), "empty value set in a path");
  }
  const Set p = product_set(box);
  VF_CHECK(g, set_inter(p, i.seen).empty(), "paths overlap: " << show(set_inter(p, i.seen)) << " " << show(w));
  VF_CHECK(g, set_minus(p, i.expected).empty(), "path outside of the set: " << show(set_minus(p, i.expected)) << " " << show(w));
  i.seen = set_union(i.seen, p);
  ++i.paths;
  ++i.it;
}

void finish(G& g, const World& w, Iter& i)
{
  while (!i.done) step(g, w, i);
  VF_CHECK(g, i.seen == i.expected, "paths make " << show(i.seen) << " instead of " << show(i.expected) << " " << show(w));
}

void schedule(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 6, 3000);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  g.desc << show(w) << " " << ctxt;
  std::vector<std::unique_ptr<Iter>> its;
  std::vector<std::pair<SDD, Set>> pool;
  bool twice = false, abandoned = false, released = false;
  for (int i = 0, n = g.range(1, 3); i < n; ++i)
  {
    Set s = gen_set(g, w, 60);
    if (s.empty()) s.push_back(gen_word(g, w));
    pool.emplace_back(build(g, w, s), s);
    g.desc << " " << show(s, 4);
  }
  for (int i = 0, n = g.range(5, 60); i < n; ++i)
  {
    switch (g.range(0, 7))
    {
      case 0:
        if (its.size() < 5 && !pool.empty())
        {
          const auto& p = g.pick(pool);
          its.push_back(std::make_unique<Iter>(std::make_unique<sdd::path_generator<C>>(p.first.paths()), p.second));
          if (its.size() > 1) twice = true;
        }
        break;
      case 1: case 2: case 3: case 4:
        if (!its.empty()) step(g, w, *its[g.below(its.size())]);
        break;
      case 5: // other operations
      {
        if (pool.empty()) break;
        const auto a = g.pick(pool), b = g.pick(pool);
        const Set u = set_union(a.second, b.second);
        const SDD x = a.first + b.first;
        (void)(a.first - b.first);
        if (pool.size() < 6) pool.emplace_back(x, u);
        break;
      }
      case 6: // release the handle
        if (!pool.empty()) { pool.erase(pool.begin() + g.below(pool.size())); if (!its.empty()) released = true; }
        break;
      default: // abandon
        if (!its.empty())
        {
          const auto k = g.below(its.size());
          if (!its[k]->done && its[k]->paths > 0) abandoned = true;
          its.erase(its.begin() + k);
        }
    }
  }
  std::size_t most = 0;
  for (auto& i : its) { if (g.chance(80)) finish(g, w, *i); most = std::max(most, i->expected.size()); }
  its.clear();
  // A plain traversal at last.
  Set s = gen_set(g, w, 60);
  if (s.empty()) s.push_back(gen_word(g, w));
  const SDD x = build(g, w, s);
  Set seen;
  auto gen = x.paths();
  for (const auto& p : gen)
  {
    VF_CHECK(g, static_cast<int>(p.size()) == w.leaves, "length of a path");
    std::vector<std::vector<unsigned>> box;
    for (const auto& v : p) box.push_back(vt::elems(v));
    const Set b = product_set(box);
    VF_CHECK(g, set_inter(b, seen).empty(), "paths overlap");
    seen = set_union(seen, b);
  }
  VF_CHECK(g, seen == s, "paths make " << show(seen) << " instead of " << show(s) << " " << show(w));
  if (most > 1 && (twice || abandoned || released)) g.nontrivial();
  if (abandoned) g.label("abandoned");
  if (released) g.label("released handle");
}

// Abandoning iterations leaks nothing.
void leaks(G& g)
{
  ShapeOpts so;
  const World w = gen_world(g, so, 5, 500);
  auto m = sdd::init<C>(roomy_conf());
  Set s = gen_set(g, w, 40);
  if (s.empty()) s.push_back(gen_word(g, w));
  const SDD x = build_canonical(w, s);
  g.desc << show(w) << " " << show(s, 6);
  const int stop = g.range(0, static_cast<int>(std::min<std::size_t>(s.size(), 10)));
  auto once = [&]
  {
    SDD y = x;
    auto gen = y.paths();
    y = sdd::zero<C>();
    int k = 0;
    if (stop > 0) for (const auto& p : gen) { (void)p; if (++k >= stop) break; }
  };
  once();
  const long before = vf::live_allocations();
  for (int i = 0; i < 3; ++i) once();
  const long after = vf::live_allocations();
  VF_CHECK(g, before == after, "abandoning iterations after " << stop << " paths leaks " << (after - before) << " allocations");
  if (s.size() > 1) g.nontrivial();
}

// Depth.
void deep(G& g)
{
  auto m = sdd::init<C>(roomy_conf());
  const int levels = g.oneof({50, 300, 1000, 3000});
  SDD x = sdd::one<C>();
  int leaves = 0;
  std::vector<unsigned> ks; // from bottom to top
  std::uint64_t seed = g.bulk_seed();
  for (int i = 0; i < levels; ++i)
  {
    const unsigned v = static_cast<unsigned>(vf::mix(seed) % 60);
    const SDD leaf = SDD(0, mkv({v}), sdd::one<C>());
    x = i % 5 == 4 ? SDD(i, leaf, x) : SDD(i, mkv({v}), x);
    ks.push_back(v);
    ++leaves;
  }
  // Two paths: the top value changes.
  const SDD top1 = SDD(levels, mkv({1}), x);
  int n = 0;
  auto gen = top1.paths();
  for (const auto& p : gen)
  {
    ++n;
    VF_CHECK(g, static_cast<int>(p.size()) == leaves + 1, "length of a deep path");
    for (int i = 0; i < leaves; ++i)
    {
      const auto e = vt::elems(p[i + 1]);
      VF_CHECK(g, e.size() == 1 && e[0] == ks[leaves - 1 - i], "deep path differs at " << i);
    }
  }
  VF_CHECK(g, n == 1, "number of deep paths");
  g.desc << levels << " levels";
  g.nontrivial();
}

VF_CASE("schedule/" VF_CONF_NAME, 50, schedule);
VF_CASE("leaks/" VF_CONF_NAME, 15, leaks);
VF_CASE("deep/" VF_CONF_NAME, 1, deep);

} // namespace
