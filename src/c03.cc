// C03 -- counting.
#include "model.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C03";
const char* const rule =
  "case = a small random diagram whose explicit set is counted, or a large structured one (products of up to "
  "thousands of levels, shared hierarchies, diagrams computed by a dynamic program such as 'words with digit sum k') "
  "whose exact cardinality is known in closed form or by an independent big-integer dynamic program; counts are "
  "also checked by inclusion-exclusion. Non-trivial: the count exceeds 1 and the diagram has at least two nodes.";
}
#endif

using namespace md;
using boost::multiprecision::cpp_int;
namespace {

void small(G& g)
{
  ShapeOpts so;
  so.max_leaves = 7;
  const World w = gen_world(g, so, 9, 20000);
  auto m = sdd::init<C>(gen_conf(g));
  VF_CHECK(g, sdd::zero<C>().size() == 0 && sdd::one<C>().size() == 1, "size of terminals");
  const Set a = gen_set(g, w, 200), b = gen_set(g, w, 200);
  g.desc << show(w) << " " << show(a, 6);
  const SDD x = build(g, w, a), y = build(g, w, b);
  VF_CHECK(g, x.size() == a.size(), "size " << x.size() << " of " << show(a) << " " << show(w));
  VF_CHECK(g, y.size() == b.size(), "size " << y.size() << " of " << show(b));
  VF_CHECK(g, (x + y).size() + (x & y).size() == a.size() + b.size(), "inclusion-exclusion " << show(a) << " " << show(b));
  VF_CHECK(g, (x - y).size() == set_minus(a, b).size(), "difference " << show(a) << " " << show(b));
  VF_CHECK(g, x.size() == a.size(), "size, second call");
  if (a.size() > 1 && w.leaves > 1) g.nontrivial();
}

// Product over a random deep or hierarchical order.
cpp_int random_product(G& g, std::uint64_t& seed, int levels, int depth, SDD& x)
{
  cpp_int n = 1;
  x = sdd::one<C>();
  for (int i = 0; i < levels; ++i)
  {
    if (depth > 0 && vf::mix(seed) % 3 == 0)
    {
      SDD nested = sdd::one<C>();
      n *= random_product(g, seed, 1 + static_cast<int>(vf::mix(seed) % 6), depth - 1, nested);
      x = SDD(i, nested, x);
    }
    else
    {
      const unsigned k = 1 + static_cast<unsigned>(vf::mix(seed) % 7);
      std::vector<unsigned> v;
      const unsigned base = static_cast<unsigned>(vf::mix(seed) % 50);
      for (unsigned q = 0; q < k; ++q) v.push_back(base + q);
      n *= k;
      x = SDD(i, mkv(v), x);
    }
  }
  return n;
}

void big_product(G& g)
{
  auto m = sdd::init<C>(roomy_conf());
  std::uint64_t seed = g.bulk_seed();
  const int levels = g.oneof({5, 20, 64, 100, 300, 1000});
  SDD x = sdd::zero<C>();
  const cpp_int n = random_product(g, seed, levels, g.range(0, 3), x);
  g.desc << "product of " << levels << " levels, size " << n.str().substr(0, 30);
  VF_CHECK(g, x.size() == n, "size " << x.size() << " instead of " << n);
  if (n > 1) g.nontrivial();
}

// All words of given length over digits 0..b-1 whose digit sum mod k is r: full sharing.
void digit_sum(G& g)
{
  C conf = roomy_conf(); // the unions below need their cache to be polynomial
  conf.sdd_unique_table_size = conf.sdd_sum_cache_size = conf.sdd_intersection_cache_size = conf.sdd_difference_cache_size = 50000;
  auto m = sdd::init<C>(conf);
  const int len = g.oneof({3, 10, 40, 70, 200});
  const int base = g.range(2, 6);
  const int k = g.range(2, 7);
  std::vector<SDD> x(k, sdd::zero<C>());
  std::vector<cpp_int> n(k, 0);
  x[0] = sdd::one<C>();
  n[0] = 1;
  const bool hier = g.below(2);
  for (int i = 0; i < len; ++i)
  {
    std::vector<SDD> nx(k, sdd::zero<C>());
    std::vector<cpp_int> nn(k, 0);
    for (int r = 0; r < k; ++r)
    {
      for (int d = 0; d < base; ++d)
      {
        const int from = ((r - d) % k + k) % k;
        const SDD arc = hier && i % 3 == 1
                      ? SDD(i, SDD(1, mkv({static_cast<unsigned>(d)}), SDD(0, mkv({1, 2, 3}), sdd::one<C>())), x[from])
                      : SDD(i, mkv({static_cast<unsigned>(d)}), x[from]);
        nx[r] = nx[r] + arc;
        nn[r] += n[from] * (hier && i % 3 == 1 ? 3 : 1);
      }
    }
    x.swap(nx);
    n.swap(nn);
  }
  g.desc << "digit sums, length " << len << " base " << base << " mod " << k << (hier ? " hierarchical" : "");
  cpp_int total = 0;
  SDD all = sdd::zero<C>();
  for (int r = 0; r < k; ++r)
  {
    VF_CHECK(g, x[r].size() == n[r], "size " << x[r].size() << " instead of " << n[r] << " (residue " << r << ")");
    total += n[r];
    all += x[r];
  }
  VF_CHECK(g, all.size() == total, "size of the union " << all.size() << " instead of " << total);
  if (total > 1) g.nontrivial();
}

// Repeated squaring through hierarchy: 2^(2^k)-like sizes with a handful of nodes.
void towers(G& g)
{
  auto m = sdd::init<C>(roomy_conf());
  const unsigned v = static_cast<unsigned>(g.range(1, 5));
  std::vector<unsigned> vs;
  for (unsigned i = 0; i < v; ++i) vs.push_back(i);
  SDD x = SDD(0, mkv(vs), sdd::one<C>());
  cpp_int n = v;
  const int h = g.range(1, 9);
  for (int i = 0; i < h; ++i)
  {
    const int width = g.range(1, 3);
    SDD y = sdd::one<C>();
    cpp_int ny = 1;
    for (int k = 0; k < width; ++k) { y = SDD(k, x, y); ny *= n; }
    x = y;
    n = ny;
  }
  g.desc << "tower " << h << " of " << v << ", " << msb(n + 1) << " bits";
  VF_CHECK(g, x.size() == n, "size of a tower");
  if (n > 1) g.nontrivial();
}

VF_CASE("small/" VF_CONF_NAME, 50, small);
VF_CASE("product/" VF_CONF_NAME, 5, big_product);
VF_CASE("digits/" VF_CONF_NAME, 4, digit_sum);
VF_CASE("tower/" VF_CONF_NAME, 10, towers);

} // namespace
