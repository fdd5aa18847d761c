// C12 -- value sets behave as mathematical sets.
#include "model.hh"

#include <iomanip>
#include <limits>
#include <list>

namespace vf {
const char* const property_id = "C12";
const char* const rule =
  "case = a random history of constructions (ranges of any order with duplicates, single-pass input, lists, containers), "
  "insertions, removals, unions, intersections, differences, shifts, copies and swaps over a pool of value sets (sorted "
  "arrays of unsigned, int, 64 bits integers and strings, bit sets of 1 to 1000 bits), mirrored on std::set and compared in "
  "full after each step (contents, size, iteration both ways, membership, bounds, equality, order, hash, printed form). "
  "Non-trivial: at least eight operations and a set of at least three values.";
}

using vf::G;
namespace {

struct int_conf : sdd::flat_set_default_configuration { using Identifier = unsigned; using Values = sdd::values::flat_set<int>; };
struct long_conf : sdd::flat_set_default_configuration { using Identifier = unsigned; using Values = sdd::values::flat_set<std::uint64_t>; };
struct string_conf : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = sdd::values::flat_set<std::string>; };

template <typename Conf>
Conf small_conf(G& g)
{
  Conf c;
  c.sdd_unique_table_size = c.hom_unique_table_size = 16;
  c.sdd_difference_cache_size = c.sdd_intersection_cache_size = c.sdd_sum_cache_size = c.hom_cache_size = 4;
  c.sdd_arena_size = 1024;
  c.flat_set_unique_table_size = g.oneof<std::size_t>({100, 1, 2, 4, 1000});
  return c;
}

// Values of the domain of each type.
template <typename T> struct Dom
{
  static T gen(G& g, int kind)
  {
    using L = std::numeric_limits<T>;
    switch (kind)
    {
      case 0: return static_cast<T>(g.below(8));
      case 1: return static_cast<T>(g.below(60));
      case 2: return static_cast<T>(L::max() - static_cast<T>(g.below(6)));
      case 3: return static_cast<T>(L::min() + static_cast<T>(g.below(6)));
      default: return g.below(2) ? static_cast<T>(g.below(4)) : g.below(2) ? static_cast<T>(L::max() - static_cast<T>(g.below(3))) : static_cast<T>(L::min() + static_cast<T>(g.below(3)));
    }
  }
  // The printed form lists increasing values, intervals of consecutive values as a..b.
  static std::set<T> parse(G& g, const std::string& txt)
  {
    VF_CHECK(g, txt.size() >= 2 && txt.front() == '{' && txt.back() == '}', "printed form: " << txt);
    std::set<T> r;
    std::string in = txt.substr(1, txt.size() - 2);
    if (in.empty()) return r;
    std::istringstream is(in);
    std::string part;
    while (std::getline(is, part, ','))
    {
      const auto p = part.find("..");
      auto num = [&](const std::string& s)
      {
        VF_CHECK(g, !s.empty() && s.find_first_not_of("-0123456789") == std::string::npos, "printed form: " << txt);
        return L2(s);
      };
      if (p == std::string::npos) { VF_CHECK(g, r.insert(num(part)).second, "value printed twice: " << txt); }
      else
      {
        const T a = num(part.substr(0, p)), b = num(part.substr(p + 2));
        VF_CHECK(g, a <= b, "printed interval: " << txt);
        VF_CHECK(g, static_cast<std::uint64_t>(b) - static_cast<std::uint64_t>(a) < 1000, "printed interval too large: " << txt);
        for (T i = a;; ++i) { VF_CHECK(g, r.insert(i).second, "value printed twice: " << txt); if (i == b) break; }
      }
    }
    return r;
  }
  static T L2(const std::string& s) { std::istringstream is(s); T x; is >> x; return x; }
};

template <> struct Dom<std::string>
{
  static std::string gen(G& g, int kind)
  {
    static const std::vector<std::string> a = {"a", "b", "ab", "", "ba", "aa", "B", "0"};
    if (kind <= 1) return g.pick(a);
    std::string s;
    for (int i = 0, n = g.range(0, 40); i < n; ++i) s.push_back(static_cast<char>('a' + g.below(2)));
    return s;
  }
  static std::set<std::string> parse(G& g, const std::string& txt)
  {
    VF_CHECK(g, txt.size() >= 2 && txt.front() == '{' && txt.back() == '}', "printed form: " << txt);
    std::set<std::string> r;
    const std::string in = txt.substr(1, txt.size() - 2);
    std::size_t b = 0;
    for (;;)
    {
      const auto e = in.find(',', b);
      VF_CHECK(g, r.insert(in.substr(b, e == std::string::npos ? e : e - b)).second, "value printed twice: " << txt);
      if (e == std::string::npos) break;
      b = e + 1;
    }
    return r;
  }
};

template <typename T> std::string showm(const std::set<T>& s)
{
  std::ostringstream os;
  os << "{";
  for (const auto& x : s) os << x << " ";
  os << "}";
  return os.str();
}

template <typename Conf>
void flat(G& g)
{
  using V = typename Conf::Values;
  using T = typename V::value_type;
  using M = std::set<T>;
  auto m = sdd::init<Conf>(small_conf<Conf>(g));
  const std::size_t table0 = m.values_stats().size; // the empty set
  const int kind = g.range(0, 4);
  auto val = [&] { return Dom<T>::gen(g, kind); };
  std::string log;
  std::size_t largest = 0;
  int ops = 0;
  {
    struct P { V v; M s; };
    std::vector<P> pool;
    pool.push_back(P{V(), M()});

    auto check = [&](const P& p)
    {
      VF_CHECK(g, p.v.size() == p.s.size(), "size " << p.v.size() << " for " << showm(p.s));
      VF_CHECK(g, p.v.empty() == p.s.empty(), "empty() for " << showm(p.s));
      VF_CHECK(g, sdd::values::size(p.v) == p.s.size() && sdd::values::empty_values(p.v) == p.s.empty(), "free functions on " << showm(p.s));
      VF_CHECK(g, std::vector<T>(p.v.begin(), p.v.end()) == std::vector<T>(p.s.begin(), p.s.end()), "iteration gives " << p.v << " for " << showm(p.s));
      VF_CHECK(g, std::vector<T>(p.v.cbegin(), p.v.cend()) == std::vector<T>(p.s.begin(), p.s.end()), "constant iteration");
      VF_CHECK(g, std::vector<T>(p.v.rbegin(), p.v.rend()) == std::vector<T>(p.s.rbegin(), p.s.rend()), "reverse iteration");
      VF_CHECK(g, std::vector<T>(p.v.crbegin(), p.v.crend()) == std::vector<T>(p.s.rbegin(), p.s.rend()), "constant reverse iteration");
      std::ostringstream os;
      os << p.v;
      VF_CHECK(g, (p.s.empty() ? os.str() == "{}" : Dom<T>::parse(g, os.str()) == p.s), "printed as " << os.str() << " for " << showm(p.s));
    };
    auto member = [&](const P& p, const T& x)
    {
      VF_CHECK(g, p.v.count(x) == p.s.count(x), "count of " << x << " in " << showm(p.s));
      const auto f = p.v.find(x);
      VF_CHECK(g, (f == p.v.end()) == (p.s.count(x) == 0) && (f == p.v.end() || *f == x), "find " << x << " in " << showm(p.s));
      const auto lb = p.v.lower_bound(x), ub = p.v.upper_bound(x);
      VF_CHECK(g, lb - p.v.begin() == std::distance(p.s.begin(), p.s.lower_bound(x)), "lower bound of " << x << " in " << showm(p.s));
      VF_CHECK(g, ub - p.v.begin() == std::distance(p.s.begin(), p.s.upper_bound(x)), "upper bound of " << x << " in " << showm(p.s));
    };
    auto inputs = [&](int max)
    {
      std::vector<T> xs;
      for (int i = 0, n = g.range(0, max); i < n; ++i) xs.push_back(val());
      return xs;
    };

    for (int i = 0, n = g.range(1, 40); i < n; ++i)
    {
      ++ops;
      const std::size_t a = g.below(pool.size()), b = g.below(pool.size());
      switch (g.range(0, 13))
      {
        case 0: { const auto xs = inputs(12); pool.push_back(P{V(xs.begin(), xs.end()), M(xs.begin(), xs.end())}); log += "range "; break; }
        case 1: { const auto xs = inputs(40); const std::list<T> l(xs.begin(), xs.end()); pool.push_back(P{V(l.begin(), l.end()), M(xs.begin(), xs.end())}); log += "list "; break; }
        case 2:
        {
          auto xs = inputs(10);
          std::ostringstream os;
          for (auto& x : xs) { std::ostringstream one; one << x; if (!one.str().empty()) os << x << ' '; }
          std::istringstream is(os.str()), is2(os.str());
          const V v{std::istream_iterator<T>(is), std::istream_iterator<T>()};
          pool.push_back(P{v, M(std::istream_iterator<T>(is2), std::istream_iterator<T>())});
          log += "stream ";
          break;
        }
        case 3:
        {
          const T x = val(), y = val(), z = val();
          switch (g.range(0, 3))
          {
            case 0: pool.push_back(P{V{x}, M{x}}); break;
            case 1: pool.push_back(P{V({x, y}), M{x, y}}); break;
            case 2: pool.push_back(P{V({x, y, z, x}), M{x, y, z}}); break;
            default: pool.push_back(P{V(std::initializer_list<T>{}), M{}});
          }
          log += "braces ";
          break;
        }
        case 4:
        {
          const auto xs = inputs(12);
          typename sdd::values::values_traits<V>::builder bld;
          for (const auto& x : xs) bld.insert(x);
          if (g.below(2)) bld.reserve(100);
          pool.push_back(P{V(std::move(bld)), M(xs.begin(), xs.end())});
          log += "builder ";
          break;
        }
        case 5:
        case 6:
        {
          const T x = !pool[a].s.empty() && g.below(3) == 0 ? *pool[a].s.begin() : val();
          const P other = pool[a];
          const auto r = pool[a].v.insert(x);
          const bool fresh = pool[a].s.insert(x).second;
          VF_CHECK(g, r.second == fresh, "insert of " << x << " says " << r.second << " in " << showm(other.s));
          VF_CHECK(g, r.first != pool[a].v.end() && *r.first == x, "insert of " << x << " doesn't return its place");
          check(other);
          log += "insert ";
          break;
        }
        case 7:
        case 8:
        {
          const T x = !pool[a].s.empty() && g.below(3) != 0 ? *std::next(pool[a].s.begin(), g.below(pool[a].s.size())) : val();
          const P other = pool[a];
          const auto r = pool[a].v.erase(x);
          const auto e = pool[a].s.erase(x);
          VF_CHECK(g, r == e, "erase of " << x << " returns " << r << " in " << showm(other.s));
          check(other);
          log += "erase ";
          break;
        }
        case 9:
        {
          M s(pool[a].s);
          s.insert(pool[b].s.begin(), pool[b].s.end());
          pool.push_back(P{sum(pool[a].v, pool[b].v), s});
          log += "sum ";
          break;
        }
        case 10:
        {
          M s;
          for (const auto& x : pool[a].s) if (pool[b].s.count(x)) s.insert(x);
          pool.push_back(P{intersection(pool[a].v, pool[b].v), s});
          log += "intersection ";
          break;
        }
        case 11:
        {
          M s;
          for (const auto& x : pool[a].s) if (!pool[b].s.count(x)) s.insert(x);
          pool.push_back(P{difference(pool[a].v, pool[b].v), s});
          log += "difference ";
          break;
        }
        case 12:
        {
          using std::swap;
          switch (g.range(0, 3))
          {
            case 0: pool[a] = pool[b]; break;
            case 1: swap(pool[a].v, pool[b].v); if (a != b) std::swap(pool[a].s, pool[b].s); break;
            case 2: { V t(std::move(pool[a].v)); pool[a].v = t; break; }
            default: { const V& q = pool[a].v; pool[a].v = q; }
          }
          log += "copy ";
          break;
        }
        default: if (pool.size() > 1) pool.erase(pool.begin() + a); log += "release ";
      }
      if (pool.size() > 10) pool.erase(pool.begin() + g.below(pool.size()));
      std::set<M> distinct;
      distinct.insert(M());
      for (const auto& p : pool) { check(p); largest = std::max(largest, p.s.size()); distinct.insert(p.s); }
      const T x = val();
      for (const auto& p : pool) { member(p, x); if (!p.s.empty()) member(p, *p.s.rbegin()); }
      // Equality, order, hash; representation.
      for (const auto& p : pool)
        for (const auto& q : pool)
        {
          const bool eq = p.s == q.s;
          VF_CHECK(g, (p.v == q.v) == eq && (p.v != q.v) == !eq, "equality of " << showm(p.s) << " and " << showm(q.s));
          VF_CHECK(g, (p.v < q.v) + (q.v < p.v) == !eq, "order of " << showm(p.s) << " and " << showm(q.s));
          if (eq)
          {
            VF_CHECK(g, std::hash<V>()(p.v) == std::hash<V>()(q.v), "hash of " << showm(p.s));
            VF_CHECK(g, p.s.empty() || &*p.v.begin() == &*q.v.begin(), "two representations of " << showm(p.s));
          }
          for (const auto& r : pool) VF_CHECK(g, !(p.v < q.v && q.v < r.v) || p.v < r.v, "order isn't transitive");
        }
      VF_CHECK(g, m.values_stats().size == distinct.size() - 1 + table0, "the table holds " << m.values_stats().size << " sets instead of " << distinct.size() - 1 + table0);
    }
  }
  VF_CHECK(g, m.values_stats().size == table0, "sets left in the table: " << m.values_stats().size);
  g.desc << ops << " operations, largest " << largest << ": " << log.substr(0, 150);
  if (ops >= 8 && largest >= 3) g.nontrivial();
}

/*------------------------------------------------------------------------------------------------*/

template <std::size_t N>
void bits(G& g)
{
  using V = sdd::values::bitset<N>;
  using M = std::set<std::size_t>;
  struct P { V v; M s; };
  std::vector<P> pool{P{V(), M()}};
  auto val = [&]() -> std::size_t
  {
    switch (g.range(0, 3))
    {
      case 0: return g.below(N < 6 ? N : 6);
      case 1: return N - 1 - g.below(N < 6 ? N : 6);
      case 2: { const std::size_t k = (1 + g.below(N / 64 + 1)) * 64; const std::size_t x = k - 2 + g.below(4); return x < N ? x : N - 1; }
      default: return g.below(N);
    }
  };
  auto check = [&](const P& p)
  {
    VF_CHECK(g, p.v.size() == p.s.size() && p.v.empty() == p.s.empty(), "size " << p.v.size() << " for " << showm(p.s));
    VF_CHECK(g, sdd::values::size(p.v) == p.s.size() && sdd::values::empty_values(p.v) == p.s.empty(), "free functions on " << showm(p.s));
    for (std::size_t i = 0; i < N; ++i)
    {
      VF_CHECK(g, p.v.test(i) == (p.s.count(i) == 1), "test(" << i << ") on " << showm(p.s));
      VF_CHECK(g, p.v.content().test(i) == (p.s.count(i) == 1), "content().test(" << i << ") on " << showm(p.s));
    }
    std::ostringstream os, ex;
    os << p.v;
    VF_CHECK(g, Dom<std::size_t>::parse(g, os.str()) == p.s, "printed as " << os.str() << " for " << showm(p.s));
  };
  std::size_t largest = 0;
  int ops = 0;
  std::string log;
  for (int i = 0, n = g.range(1, 25); i < n; ++i)
  {
    ++ops;
    const std::size_t a = g.below(pool.size()), b = g.below(pool.size());
    switch (g.range(0, 11))
    {
      case 0: pool.push_back(P{V(), M()}); break;
      case 1: { const auto x = val(), y = val(), z = val(); if (g.below(2)) pool.push_back(P{V{x, y, z}, M{x, y, z}}); else pool.push_back(P{V{x}, M{x}}); log += "list "; break; }
      case 2:
      {
        std::bitset<N> sb;
        M s;
        std::uint64_t seed = g.bulk_seed();
        for (std::size_t k = 0, q = g.below(N + 1); k < q; ++k) { const std::size_t x = vf::mix(seed) % N; sb.set(x); s.insert(x); }
        pool.push_back(P{V(sb), s});
        log += "bits ";
        break;
      }
      case 3:
      case 4: { const auto x = val(); V& r = pool[a].v.insert(x); VF_CHECK(g, &r == &pool[a].v, "insert returns another set"); pool[a].s.insert(x); log += "insert "; break; }
      case 5:
      {
        const P before = pool[a];
        bool thrown = false;
        try { pool[a].v.insert(N + g.below(70)); } catch (const std::out_of_range&) { thrown = true; }
        VF_CHECK(g, thrown, "insertion of a value out of the domain is accepted");
        check(before);
        log += "out-of-domain ";
        break;
      }
      case 6: { M s(pool[a].s); s.insert(pool[b].s.begin(), pool[b].s.end()); pool.push_back(P{sum(pool[a].v, pool[b].v), s}); log += "sum "; break; }
      case 7: { M s; for (auto x : pool[a].s) if (pool[b].s.count(x)) s.insert(x); pool.push_back(P{intersection(pool[a].v, pool[b].v), s}); log += "intersection "; break; }
      case 8: { M s; for (auto x : pool[a].s) if (!pool[b].s.count(x)) s.insert(x); pool.push_back(P{difference(pool[a].v, pool[b].v), s}); log += "difference "; break; }
      case 9: { const std::size_t k = g.below(4) ? g.below(N + 2) : g.below(3); M s; for (auto x : pool[a].s) if (x + k < N) s.insert(x + k); pool.push_back(P{pool[a].v << k, s}); log += "<< "; break; }
      case 10: { const std::size_t k = g.below(4) ? g.below(N + 2) : g.below(3); M s; for (auto x : pool[a].s) if (x >= k) s.insert(x - k); pool.push_back(P{pool[a].v >> k, s}); log += ">> "; break; }
      default:
      {
        using std::swap;
        if (g.below(2)) { swap(pool[a].v, pool[b].v); if (a != b) std::swap(pool[a].s, pool[b].s); }
        else pool[a] = pool[b];
        log += "swap ";
      }
    }
    if (pool.size() > 8) pool.erase(pool.begin() + g.below(pool.size()));
    for (const auto& p : pool) { check(p); largest = std::max(largest, p.s.size()); }
    for (const auto& p : pool)
      for (const auto& q : pool)
      {
        const bool eq = p.s == q.s;
        VF_CHECK(g, (p.v == q.v) == eq && (p.v != q.v) == !eq, "equality of " << showm(p.s) << " and " << showm(q.s));
        VF_CHECK(g, (p.v < q.v) + (q.v < p.v) == !eq, "order of " << showm(p.s) << " and " << showm(q.s));
        if (eq) VF_CHECK(g, std::hash<V>()(p.v) == std::hash<V>()(q.v), "hash of " << showm(p.s));
        for (const auto& r : pool) VF_CHECK(g, !(p.v < q.v && q.v < r.v) || p.v < r.v, "order isn't transitive");
      }
  }
  g.desc << N << " bits, " << ops << " operations, largest " << largest << ": " << log.substr(0, 150);
  if (ops >= 8 && (largest >= 3 || N < 3)) g.nontrivial();
}

// Sets of very many elements.
void crowds(G& g)
{
  if (g.below(10) != 0) { flat<sdd::conf1>(g); return; }
  using V = sdd::values::flat_set<unsigned int>;
  using M = std::vector<unsigned>;
  auto m = sdd::init<sdd::conf1>();
  {
    const std::size_t n = g.oneof<std::size_t>({300, 1100, 5000, 33000, 70000});
    const unsigned spread = g.oneof<unsigned>({2, 3, 60000});
    auto bulk = [&]
    {
      std::uint64_t seed = g.bulk_seed();
      M xs;
      for (std::size_t i = 0; i < n; ++i) xs.push_back(static_cast<unsigned>(vf::mix(seed) % (n * spread)));
      return xs;
    };
    const M xa = bulk(), xb = bulk();
    auto sorted = [](M x) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); return x; };
    const M a = sorted(xa), b = sorted(xb);
    g.desc << "crowds of " << a.size() << " and " << b.size() << " values";
    const V va(xa.begin(), xa.end());
    typename sdd::values::values_traits<V>::builder bld;
    for (auto x : b) bld.insert(x);
    const V vb(std::move(bld));
    auto same = [&](const V& v, const M& e, const char* what)
    {
      VF_CHECK(g, v.size() == e.size() && sdd::values::size(v) == e.size() && v.empty() == e.empty(), what << ": size " << v.size() << " instead of " << e.size());
      VF_CHECK(g, M(v.begin(), v.end()) == e && M(v.rbegin(), v.rend()) == M(e.rbegin(), e.rend()), what << ": other elements");
      VF_CHECK(g, v == V(e.begin(), e.end()), what << ": two representations");
    };
    same(va, a, "construction");
    same(vb, b, "builder");
    M r;
    std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
    same(sum(va, vb), r, "sum");
    r.clear();
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
    same(intersection(va, vb), r, "intersection");
    r.clear();
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
    same(difference(va, vb), r, "difference");
    V vc = va;
    M c = a;
    for (int i = 0; i < 5; ++i)
    {
      const unsigned x = g.below(2) ? c[g.below(c.size())] : static_cast<unsigned>(g.below(static_cast<unsigned>(n) * 2));
      const auto it = std::lower_bound(c.begin(), c.end(), x);
      const bool in = it != c.end() && *it == x;
      VF_CHECK(g, vc.count(x) == (in ? 1u : 0u) && (vc.find(x) != vc.end()) == in && vc.lower_bound(x) - vc.begin() == it - c.begin(), "search of " << x);
      if (g.below(2)) { VF_CHECK(g, vc.insert(x).second == !in, "insertion of " << x); if (!in) c.insert(it, x); }
      else { VF_CHECK(g, vc.erase(x) == (in ? 1u : 0u), "erasure of " << x); if (in) c.erase(it); }
    }
    same(vc, c, "after insertions and erasures");
    VF_CHECK(g, (va == vb) == (a == b) && (va < vb) + (vb < va) == (a != b), "comparison");
    same(va, a, "operand");
  }
  VF_CHECK(g, m.values_stats().size == 1, "sets left in the table");
  g.label("large sets");
  g.nontrivial();
}
VF_CASE("flat/large", 2, crowds);
VF_CASE("flat/unsigned", 30, flat<sdd::conf1>);
VF_CASE("flat/int", 20, flat<int_conf>);
VF_CASE("flat/uint64", 15, flat<long_conf>);
VF_CASE("flat/string", 20, flat<string_conf>);
VF_CASE("bits/1", 2, bits<1>);
VF_CASE("bits/7", 4, bits<7>);
VF_CASE("bits/64", 15, bits<64>);
VF_CASE("bits/65", 8, bits<65>);
VF_CASE("bits/128", 10, bits<128>);
VF_CASE("bits/200", 8, bits<200>);
VF_CASE("bits/1000", 2, bits<1000>);

} // namespace
