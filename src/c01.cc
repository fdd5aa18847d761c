// C01 -- set algebra is exact.
#include "model.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C01";
const char* const rule =
  "case = random order (1..7 flat positions, up to 3 levels of hierarchy), alphabet, manager configuration "
  "and a program of 4..30 operations over a pool of diagrams; every result is compared, assignment by "
  "assignment, with the same program over explicit sets. Non-trivial: at least one union, intersection or "
  "difference of two operands that are distinct, non-empty and overlapping produced a non-empty result.";
}
#endif

using namespace md;
namespace {

void program(G& g)
{
  ShapeOpts so;
  so.max_leaves = 7;
  const World w = gen_world(g, so, 9, 30000);
  std::string ctxt;
  const C conf = gen_conf(g, &ctxt);
  g.desc << show(w) << " " << ctxt << " ";
  auto m = sdd::init<C>(conf);
  std::vector<std::pair<SDD, Set>> pool;
  pool.emplace_back(sdd::zero<C>(), Set{});
  const int max_words = g.oneof({12, 60, 300});
  for (int i = 0, n = g.range(2, 5); i < n; ++i)
  {
    Set s = gen_set(g, w, max_words);
    SDD x = build(g, w, s);
    expect_set(g, w, x, s, "construction");
    g.desc << "S" << pool.size() << "=" << show(s, 6) << " ";
    pool.emplace_back(std::move(x), std::move(s));
  }
  bool overlap = false;
  const int steps = g.range(4, 30);
  for (int i = 0; i < steps; ++i)
  {
    const auto a = pool[g.below(pool.size())];
    const auto b = pool[g.below(pool.size())];
    const int op = g.range(0, 9);
    SDD r = sdd::zero<C>();
    Set e;
    std::string what;
    auto note = [&](const Set& x, const Set& y)
    {
      if (x != y && !set_inter(x, y).empty() && !e.empty()) overlap = true;
    };
    switch (op)
    {
      case 0: r = a.first + b.first; e = set_union(a.second, b.second); what = "+"; note(a.second, b.second); break;
      case 1: r = a.first & b.first; e = set_inter(a.second, b.second); what = "&"; note(a.second, b.second); break;
      case 2: r = a.first - b.first; e = set_minus(a.second, b.second); what = "-"; note(a.second, b.second); break;
      case 3: r = a.first; r += b.first; e = set_union(a.second, b.second); what = "+="; break;
      case 4: r = a.first; r &= b.first; e = set_inter(a.second, b.second); what = "&="; break;
      case 5: r = a.first; r -= b.first; e = set_minus(a.second, b.second); what = "-="; break;
      case 6: case 7: case 8:
      {
        const int k = g.chance(10) ? g.range(0, 40) : g.range(0, 6);
        std::vector<SDD> ops;
        std::vector<const Set*> sets;
        for (int q = 0; q < k; ++q)
        {
          const auto& p = pool[g.below(pool.size())];
          ops.push_back(p.first);
          sets.push_back(&p.second);
        }
        if (op == 8)
        {
          r = sdd::intersection<C>(ops.begin(), ops.end());
          // Empty n-ary intersection is |0|.
          if (!sets.empty()) { e = *sets[0]; for (auto s : sets) e = set_inter(e, *s); }
          what = "n-ary &";
        }
        else
        {
          r = op == 6 ? sdd::sum<C>(ops.begin(), ops.end())
                      : (ops.size() == 3 ? sdd::sum<C>({ops[0], ops[1], ops[2]}) : sdd::sum<C>(ops.begin(), ops.end()));
          for (auto s : sets) e = set_union(e, *s);
          what = "n-ary +";
        }
        if (k > 8) g.label("wide n-ary");
        break;
      }
      default: // a new operand
        e = gen_set(g, w, max_words);
        r = build(g, w, e);
        what = "build";
    }
    g.label("op:" + what);
    if (e.size() > 20000) throw vf::Discard{};
    expect_set(g, w, r, e, "step " + std::to_string(i) + " " + what + " of " + show(a.second) + " and " + show(b.second));
    // Operands are unaffected.
    if (g.chance(10)) expect_set(g, w, a.first, a.second, "operand after " + what);
    if (pool.size() < 12) pool.emplace_back(r, e);
    else pool[1 + g.below(pool.size() - 1)] = {r, e};
  }
  if (shape_depth(w.shape) > 1) g.label("hierarchical");
  if (overlap) g.nontrivial();
  g.desc << "steps=" << steps;
}

// Big flat nodes: many arcs, many values.
void wide(G& g)
{
  if (!vt::flat) { return program(g); }
  // Cost is quadratic: only the bare minimum for the largest ones.
  const int n = g.oneof({300, 600, 1000, 1500, 2000, 65536});
  auto m = sdd::init<C>(roomy_conf());
  // { (i, f(i)) } : as many arcs as distinct images.
  const unsigned mod = g.oneof({1u, 2u, 17u, 1000u, 1u << 30});
  if (n > 5000 && mod != (1u << 30)) throw vf::Discard{};
  std::vector<SDD> ops, half;
  for (int i = 0; i < n; ++i)
  {
    const SDD x(1, mkv({static_cast<unsigned>(i)}), SDD(0, mkv({static_cast<unsigned>(i) % mod}), sdd::one<C>()));
    ops.push_back(x);
    if (i % 3 == 0) half.push_back(x);
  }
  const SDD s = sdd::sum<C>(ops.begin(), ops.end());
  VF_CHECK(g, s.size() == n, "size of " << n << " words is " << s.size());
  g.desc << n << " words, images modulo " << mod;
  g.label("wide node");
  g.nontrivial();
  if (n > 5000) return;
  const SDD h = sdd::sum<C>(half.begin(), half.end());
  VF_CHECK(g, h.size() == static_cast<int>(half.size()), "size " << h.size());
  VF_CHECK(g, (s & h) == h, "subset");
  VF_CHECK(g, (s + h) == s, "subset");
  VF_CHECK(g, (s - h).size() == n - static_cast<int>(half.size()), "difference");
  VF_CHECK(g, ((s - h) + h) == s, "partition");
}

VF_CASE("program/" VF_CONF_NAME, 60, program);
#if VF_CONF == 1
VF_CASE("wide/" VF_CONF_NAME, 1, wide);
#endif

} // namespace
