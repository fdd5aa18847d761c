// C05 -- incompatible operands.
#include "model.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C05";
const char* const rule =
  "case = two incompatible diagrams (different top variables, flat/hierarchical/terminal tops, or mutated deeper in "
  "the order) and an operation applied to them with compatible work before, between and after; an incompatible top "
  "must throw sdd::top naming incompatible diagrams, a deeper mismatch must either throw or give a result that an "
  "independent evaluation shows to need no mismatched combination; afterwards compatible operations are exact and "
  "live allocations and the unique table return to their former sizes. Non-trivial: an error was raised after some "
  "sub-results had been computed (mismatch below the top) or with more than two operands.";
}
#endif

using namespace md;
namespace {

enum class Op { sum, inter, diff };

SDD apply(Op op, const SDD& a, const SDD& b)
{
  switch (op)
  {
    case Op::sum: return a + b;
    case Op::inter: return a & b;
    default: return a - b;
  }
}

struct TopKind
{
  struct V
  {
    std::pair<int, unsigned> operator()(const sdd::zero_terminal<C>&) const { return {0, 0}; }
    std::pair<int, unsigned> operator()(const sdd::one_terminal<C>&) const { return {1, 0}; }
    std::pair<int, unsigned> operator()(const sdd::flat_node<C>& n) const { return {2, n.variable()}; }
    std::pair<int, unsigned> operator()(const sdd::hierarchical_node<C>& n) const { return {3, n.variable()}; }
  };
  static std::pair<int, unsigned> of(const SDD& x) { return sdd::visit(V{}, x); }
};

// Does the operation have to combine mismatched parts? Reference on the structure of the diagrams.
struct Need
{
  // Returns true when combining a and b necessarily meets a mismatch; false when it cannot.
  // 'maybe' tells undecided cases (the library may evaluate lazily).
  struct FlatArcs
  {
    std::vector<std::pair<std::vector<unsigned>, SDD>> operator()(const sdd::flat_node<C>& n) const
    {
      std::vector<std::pair<std::vector<unsigned>, SDD>> r;
      for (const auto& a : n) r.emplace_back(vt::elems(a.valuation()), a.successor());
      return r;
    }
    template <typename T>
    std::vector<std::pair<std::vector<unsigned>, SDD>> operator()(const T&) const { return {}; }
  };

  static bool must(const SDD& a, const SDD& b)
  {
    if (a == b || a.empty() || b.empty()) return false;
    if (TopKind::of(a) != TopKind::of(b)) return true;
    if (TopKind::of(a).first != 2) return false; // only decided for flat diagrams
    for (const auto& x : sdd::visit(FlatArcs{}, a))
    {
      for (const auto& y : sdd::visit(FlatArcs{}, b))
      {
        std::vector<unsigned> c;
        std::set_intersection(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(c));
        if (!c.empty() && must(x.second, y.second)) return true;
      }
    }
    return false;
  }
};

Shape chain(int n)
{
  Shape s(n);
  for (int i = 0; i < n; ++i) s[i].id = i;
  return s;
}

// Incompatible tops.
void tops(G& g)
{
  ShapeOpts so;
  so.max_leaves = 5;
  const World w1 = gen_world(g, so, 4, 300);
  const World w2 = gen_world(g, so, 4, 300);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  Set s1 = gen_set(g, w1, 20), s2 = gen_set(g, w2, 20);
  const SDD one = sdd::one<C>();
  const SDD a = build(g, w1, s1);
  const SDD b = g.chance(15) ? one : build(g, w2, s2);
  if (a.empty() || b.empty() || TopKind::of(a) == TopKind::of(b)) throw vf::Discard{};
  g.desc << show(w1) << " " << show(s1, 4) << " vs " << show(w2) << " " << show(s2, 4);
  const Set t1 = gen_set(g, w1, 20);
  const SDD c = build(g, w1, t1);
  for (int i = 0, n = g.range(1, 6); i < n; ++i)
  {
    const Op op = g.oneof({Op::sum, Op::inter, Op::diff});
    const bool flip = g.below(2);
    bool thrown = false;
    try { const SDD r = flip ? apply(op, b, a) : apply(op, a, b); (void)r; }
    catch (const sdd::top<C>& t)
    {
      thrown = true;
      VF_CHECK(g, !t.lhs().empty() && !t.rhs().empty() && TopKind::of(t.lhs()) != TopKind::of(t.rhs()), "the error names compatible diagrams");
      VF_CHECK(g, std::string(t.what()).size() > 5, "empty description");
    }
    VF_CHECK(g, thrown, "no error for incompatible tops, operation " << static_cast<int>(op) << " " << show(w1) << " " << show(w2));
    // Empty operands are always fine, and equal ones too.
    VF_CHECK(g, (a + sdd::zero<C>()) == a && (b & sdd::zero<C>()).empty() && (a - sdd::zero<C>()) == a && (sdd::zero<C>() - b).empty(), "|0|");
    VF_CHECK(g, (b + b) == b && (b & b) == b && (b - b).empty(), "equal operands");
    if (g.below(2)) expect_set(g, w1, apply(op, a, c), op == Op::sum ? set_union(s1, t1) : op == Op::inter ? set_inter(s1, t1) : set_minus(s1, t1), "after an error");
    // n-ary.
    std::vector<SDD> ops{a, b};
    for (int k = g.range(0, 4); k > 0; --k) ops.push_back(g.below(2) ? c : a);
    g.shuffle(ops);
    bool nthrown = false;
    try { (void)sdd::sum<C>(ops.begin(), ops.end()); } catch (const sdd::top<C>&) { nthrown = true; }
    VF_CHECK(g, nthrown, "no error for an n-ary sum with incompatible tops");
    if (ops.size() > 2) g.nontrivial();
    bool others = true; // intersection of compatible operands may be empty before the mismatch is met
    Set inter = s1;
    for (const auto& x : ops) if (x == c) inter = set_inter(inter, t1);
    if (inter.empty()) others = false;
    bool ithrown = false;
    try { (void)sdd::intersection<C>(ops.begin(), ops.end()); } catch (const sdd::top<C>&) { ithrown = true; }
    VF_CHECK(g, ithrown || !others, "no error for an n-ary intersection with incompatible tops");
  }
  expect_set(g, w1, a, s1, "operand after errors");
  expect_set(g, w1, a + c, set_union(s1, t1), "sum after errors");
  expect_set(g, w1, a & c, set_inter(s1, t1), "intersection after errors");
  expect_set(g, w1, a - c, set_minus(s1, t1), "difference after errors");
}

// Mismatch below the top of flat chains: some words are replaced by words of another length.
// The mixed diagrams are legal as long as nothing combines the mismatched parts.
SDD mixed(G& g, const std::vector<unsigned>& alpha, int levels, int bad_at, bool& has_bad)
{
  // Random flat diagram; below level 'bad_at' some successors skip a level (variable too small).
  if (levels == 0) return sdd::one<C>();
  std::vector<SDD> arcs;
  std::vector<unsigned> rest = alpha;
  g.shuffle(rest);
  const int n = g.range(1, 3);
  std::size_t p = 0;
  SDD r = sdd::zero<C>();
  for (int i = 0; i < n && p < rest.size(); ++i)
  {
    std::vector<unsigned> vs(1, rest[p++]);
    if (p < rest.size() && g.below(2)) vs.push_back(rest[p++]);
    int below = levels - 1;
    if (bad_at == levels && below > 0 && g.below(2)) { below -= 1; has_bad = true; }
    arcs.push_back(SDD(levels - 1, mkv(vs), mixed(g, alpha, below, bad_at, has_bad)));
  }
  // Disjoint arcs: the union never combines successors unless they're equal.
  return sdd::sum<C>(arcs.begin(), arcs.end());
}

// Explicit value of mixed diagrams: words of several lengths.
void mixed_words(const SDD& x, const Word& prefix, Set& out)
{
  struct V
  {
    const Word& p; Set& out; 
    void operator()(const sdd::zero_terminal<C>&) const {}
    void operator()(const sdd::one_terminal<C>&) const { out.push_back(p); }
    void operator()(const sdd::flat_node<C>& n) const
    {
      for (const auto& a : n) for (auto v : vt::elems(a.valuation()))
      {
        Word q = p;
        q.push_back((n.variable() << 20) | v);
        mixed_words(a.successor(), q, out);
      }
    }
    void operator()(const sdd::hierarchical_node<C>&) const {}
  };
  sdd::visit(V{prefix, out}, x);
}

Set mwords(const SDD& x) { Set s; mixed_words(x, Word(), s); normalize(s); return s; }

void below_top(G& g)
{
  const int levels = g.range(2, 5);
  std::vector<unsigned> alpha;
  for (unsigned i = 0, n = static_cast<unsigned>(g.range(2, 6)); i < n; ++i) alpha.push_back(i);
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  const World w = make_world(chain(levels), alpha);
  const Set cs = gen_set(g, w, 20), ds = gen_set(g, w, 20);
  const SDD c = build(g, w, cs), d = build(g, w, ds);
  bool has_bad = false;
  const SDD a = mixed(g, alpha, levels, g.range(2, levels), has_bad);
  const SDD b = g.below(2) ? mixed(g, alpha, levels, g.range(2, levels), has_bad) : c;
  g.desc << "flat, " << levels << " levels, a=" << a << " b=" << b;
  const Set aw = mwords(a), bw = mwords(b);
  for (int i = 0, n = g.range(1, 4); i < n; ++i)
  {
    const Op op = g.oneof({Op::sum, Op::inter, Op::diff});
    const bool must = Need::must(a, b);
    try
    {
      const SDD r = apply(op, a, b);
      VF_CHECK(g, !must, "no error though mismatched parts have to be combined, operation " << static_cast<int>(op) << " on " << a << " and " << b);
      const Set e = op == Op::sum ? set_union(aw, bw) : op == Op::inter ? set_inter(aw, bw) : set_minus(aw, bw);
      VF_CHECK(g, mwords(r) == e, "wrong result, operation " << static_cast<int>(op) << " on " << a << " and " << b << ": " << r);
    }
    catch (const sdd::top<C>& t)
    {
      VF_CHECK(g, must, "error though no mismatched parts are combined, operation " << static_cast<int>(op) << " on " << a << " and " << b << ": " << t.what());
      VF_CHECK(g, TopKind::of(t.lhs()) != TopKind::of(t.rhs()), "the error names compatible diagrams");
      g.nontrivial();
      g.label("error below the top");
    }
    expect_set(g, w, c + d, set_union(cs, ds), "sum afterwards");
    expect_set(g, w, c & d, set_inter(cs, ds), "intersection afterwards");
    expect_set(g, w, c - d, set_minus(cs, ds), "difference afterwards");
    VF_CHECK(g, mwords(a) == aw && mwords(b) == bw, "operands changed");
  }
}

// Hierarchical mismatch: nested orders of different shapes.
void nested(G& g)
{
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  ShapeOpts so;
  so.max_leaves = 4;
  const World n1 = gen_world(g, so, 3, 100), n2 = gen_world(g, so, 3, 100), sw = gen_world(g, so, 3, 100);
  Set s1 = gen_set(g, n1, 10), s2 = gen_set(g, n2, 10), s3 = gen_set(g, sw, 10), s4 = gen_set(g, sw, 10);
  const SDD a = build(g, n1, s1), b = build(g, n2, s2), x = build(g, sw, s3), y = build(g, sw, s4);
  if (a.empty() || b.empty() || x.empty() || y.empty() || TopKind::of(a) == TopKind::of(b)) throw vf::Discard{};
  const unsigned v = static_cast<unsigned>(sw.shape.size());
  const SDD l = SDD(v, a, x), r = SDD(v, b, y);
  g.desc << "nested " << show(n1) << " vs " << show(n2);
  for (int i = 0, n = g.range(1, 4); i < n; ++i)
  {
    const Op op = g.oneof({Op::sum, Op::inter, Op::diff});
    if (op == Op::inter || x != y || op == Op::diff || op == Op::sum)
    {
      bool thrown = false;
      try { (void)apply(op, l, r); } catch (const sdd::top<C>&) { thrown = true; }
      VF_CHECK(g, thrown, "no error for incompatible nested diagrams, operation " << static_cast<int>(op));
      g.nontrivial();
    }
    expect_set(g, sw, x + y, set_union(s3, s4), "sum afterwards");
    expect_set(g, sw, x - y, set_minus(s3, s4), "difference afterwards");
    expect_set(g, sw, x & y, set_inter(s3, s4), "intersection afterwards");
  }
}

// Nothing is leaked: errors repeated many times leave the unique table and the heap as they were.
void leaks(G& g)
{
  C conf = roomy_conf();
  auto m = sdd::init<C>(conf);
  const int levels = g.range(2, 5);
  std::vector<unsigned> alpha{0, 1, 2, 3};
  bool has_bad = false;
  const SDD a = mixed(g, alpha, levels, g.range(2, levels), has_bad);
  const SDD b = mixed(g, alpha, levels, g.range(2, levels), has_bad);
  if (!Need::must(a, b)) throw vf::Discard{};
  g.desc << "leaks a=" << a << " b=" << b;
  const Op op = g.oneof({Op::sum, Op::inter, Op::diff});
  auto attempt = [&]
  {
    bool thrown = false;
    try { (void)apply(op, a, b); } catch (const sdd::top<C>&) { thrown = true; }
    VF_CHECK(g, thrown, "error not raised the second time");
  };
  for (int i = 0; i < 3; ++i) attempt(); // sub-results that succeeded are cached by now
  const std::size_t size = m.sdd_stats().size;
  const long live = vf::live_allocations();
  for (int i = 0; i < 20; ++i) attempt();
  VF_CHECK(g, m.sdd_stats().size == size, "failed operations leave " << m.sdd_stats().size - size << " nodes in the unique table");
  VF_CHECK(g, vf::live_allocations() == live, "failed operations leak " << vf::live_allocations() - live << " allocations");
  g.nontrivial();
}

// However many errors have been raised, with however small caches, later operations are exact.
void many(G& g)
{
  std::string ctxt;
  auto m = sdd::init<C>(gen_conf(g, &ctxt));
  const int levels = g.range(2, 4);
  std::vector<unsigned> alpha{0, 1, 2};
  const World w = make_world(chain(levels), alpha);
  const int nsets = g.range(2, 4);
  std::vector<Set> sets;
  std::vector<SDD> ok;
  for (int i = 0; i < nsets; ++i) { sets.push_back(gen_set(g, w, 12)); ok.push_back(build(g, w, sets.back())); }
  std::vector<std::pair<SDD, SDD>> bad;
  for (int i = 0, n = g.range(1, 4); i < n; ++i)
  {
    bool has_bad = false;
    const SDD a = g.below(3) ? mixed(g, alpha, levels, g.range(2, levels), has_bad) : sdd::one<C>();
    const SDD b = mixed(g, alpha, levels, g.range(2, levels), has_bad);
    if (Need::must(a, b)) bad.emplace_back(a, b);
  }
  if (bad.empty()) throw vf::Discard{};
  const int rounds = g.range(1, 5);
  g.desc << "many errors, " << bad.size() << " incompatible pairs";
  for (int k = 0; k < rounds; ++k)
  {
    const int n = g.oneof({1, 10, 70, 200});
    const Op op = g.oneof({Op::sum, Op::inter, Op::diff});
    for (int i = 0; i < n; ++i)
    {
      const auto& p = bad[static_cast<std::size_t>(i) % bad.size()];
      bool thrown = false;
      try { (void)apply(op, p.first, p.second); } catch (const sdd::top<C>&) { thrown = true; }
      VF_CHECK(g, thrown, "error not raised, attempt " << i);
    }
    if (n >= 70) { g.nontrivial(); g.label("more than 64 errors"); }
    for (int i = 0, q = g.range(1, 8); i < q; ++i)
    {
      const auto x = g.below(ok.size()), y = g.below(ok.size());
      const Op o2 = g.oneof({Op::sum, Op::inter, Op::diff});
      const Set e = o2 == Op::sum ? set_union(sets[x], sets[y]) : o2 == Op::inter ? set_inter(sets[x], sets[y]) : set_minus(sets[x], sets[y]);
      expect_set(g, w, apply(o2, ok[x], ok[y]), e, "operation after many errors");
    }
  }
}

VF_CASE("many/" VF_CONF_NAME, 8, many);
VF_CASE("tops/" VF_CONF_NAME, 25, tops);
VF_CASE("below/" VF_CONF_NAME, 30, below_top);
VF_CASE("nested/" VF_CONF_NAME, 10, nested);
VF_CASE("leaks/" VF_CONF_NAME, 10, leaks);

} // namespace
