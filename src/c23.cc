// C23 -- a diagram initialized from an order is the product of its initial values.
#include "hom.hh"

#include "sdd/order/strategies/identifiers_per_hierarchy.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C23";
const char* const rule =
  "case = a random order (nested, with artificial levels, or grouped by a strategy, up to 200 flat identifiers) and a "
  "random value set per identifier, some of them empty; the diagram built from the initializer is compared with the "
  "explicit product, level by level, counted, enumerated, and changed through functions and carried homomorphisms that "
  "target identifiers. Non-trivial: at least 3 flat identifiers in a hierarchy with different value sets.";
}
#endif

using namespace md;
namespace {

Shape read_shape(const Builder& b, const std::map<Id, int>& num, int& next_art)
{
  Shape s;
  for (Builder cur = b; !cur.empty(); cur = cur.next())
  {
    Level l;
    l.artificial = cur.identifier().is_artificial();
    l.id = l.artificial ? next_art++ : num.at(cur.identifier().user());
    l.sub = read_shape(cur.nested(), num, next_art);
    l.leaves = l.sub.empty() ? 1 : count_leaves(l.sub);
    s.push_back(l);
  }
  return s;
}

struct Init
{
  std::map<Id, std::vector<unsigned>>& vals;
  std::map<Id, int>& calls;
  Values operator()(const Id& id) const { ++calls[id]; return mkv(vals.at(id)); }
};

// One level at a time: x must have one arc per level, with exactly these values.
struct Boxed
{
  const Shape& s;
  std::size_t lvl;
  const std::vector<std::vector<unsigned>>& box;
  std::size_t& pos;
  std::string operator()(const sdd::zero_terminal<C>&) const { return "|0| in the diagram"; }
  std::string operator()(const sdd::one_terminal<C>&) const { return lvl == s.size() ? "" : "|1| too early"; }
  std::string operator()(const sdd::flat_node<C>& n) const
  {
    if (lvl >= s.size() || n.variable() != s.size() - 1 - lvl) return "variable";
    if (!s[lvl].sub.empty()) return "a flat node at a hierarchical level";
    if (n.size() != 1) return "more than one arc";
    if (vt::elems(n.begin()->valuation()) != box[pos]) return "values at flat position " + std::to_string(pos);
    ++pos;
    return sdd::visit(Boxed{s, lvl + 1, box, pos}, n.begin()->successor());
  }
  std::string operator()(const sdd::hierarchical_node<C>& n) const
  {
    if (lvl >= s.size() || n.variable() != s.size() - 1 - lvl) return "variable";
    if (s[lvl].sub.empty()) return "a hierarchical node at a flat level";
    if (n.size() != 1) return "more than one arc";
    const std::string e = sdd::visit(Boxed{s[lvl].sub, 0, box, pos}, n.begin()->valuation());
    if (!e.empty()) return e;
    return sdd::visit(Boxed{s, lvl + 1, box, pos}, n.begin()->successor());
  }
};

void initialize(G& g, const Shape& s0, const Builder& b, const std::vector<unsigned>& alpha, std::size_t max)
{
  // The shape, as read from the builder (strategies add levels).
  std::map<Id, int> num;
  std::function<void (const Shape&)> collect = [&](const Shape& sh) { for (const auto& l : sh) { if (!l.artificial) num[ident(l.id)] = l.id; collect(l.sub); } };
  collect(s0);
  int next_art = 1000000;
  const Shape s = read_shape(b, num, next_art);
  World w{s, count_leaves(s), alpha, std::make_shared<Order>(b)};
  std::vector<int> ids;
  flat_ids(w.shape, ids);
  auto box = gen_box(g, w, max);
  if (g.below(3) == 0) for (auto& v : box) if (g.below(3) == 0) v = gen_subset(g, alpha); // larger products
  bool empty = false;
  if (g.chance(15)) { box[g.below(box.size())].clear(); empty = true; }
  std::map<Id, std::vector<unsigned>> vals;
  for (std::size_t i = 0; i < ids.size(); ++i) vals[ident(ids[i])] = box[i];
  std::map<Id, int> calls;
  auto m = sdd::init<C>(gen_conf(g));
  const SDD x(w.order(), Init{vals, calls});
  if (!empty)
  {
    VF_CHECK(g, calls.size() == vals.size(), "the initializer was called for " << calls.size() << " identifiers out of " << vals.size());
  }
  for (const auto& c : calls) VF_CHECK(g, vals.count(c.first), "the initializer was called for " << c.first);
  VF_CHECK(g, x.empty() == empty, "emptiness of the initial diagram " << show(w));
  g.desc << show(w.shape).substr(0, 120) << (empty ? " with an empty set" : "");
  std::set<std::vector<unsigned>> distinct(box.begin(), box.end());
  if (ids.size() >= 3 && shape_depth(s) > 1 && distinct.size() > 1) g.nontrivial();
  if (empty) { VF_CHECK(g, x == sdd::zero<C>(), "the diagram isn't |0|"); return; }
  std::size_t pos = 0;
  const std::string e = sdd::visit(Boxed{w.shape, 0, box, pos}, x);
  VF_CHECK(g, e.empty() && pos == box.size(), "the initial diagram isn't the product: " << e << " " << show(w));
  VF_CHECK(g, x == product(w, box), "the initial diagram isn't the one built node by node");
  boost::multiprecision::cpp_int n = 1;
  for (const auto& v : box) n *= v.size();
  VF_CHECK(g, x.size() == n, "it has " << x.size() << " elements instead of " << n);
  {
    int k = 0;
    auto p = x.paths();
    for (const auto& path : p)
    {
      ++k;
      VF_CHECK(g, path.size() == box.size(), "length of its path");
      for (std::size_t i = 0; i < box.size(); ++i) VF_CHECK(g, vt::elems(path[i]) == box[i], "its path differs at " << i);
    }
    VF_CHECK(g, k == 1, k << " paths in a product");
  }
  // Functions by identifier: change one position, see only this one change.
  for (int i = 0, q = g.range(0, 3); i < q; ++i)
  {
    const std::size_t at = g.below(ids.size());
    const Table t = gen_table(g, alpha, TKind::any);
    auto box2 = box;
    std::set<unsigned> img;
    for (auto v : box[at]) for (auto y : t(v)) img.insert(y);
    box2[at].assign(img.begin(), img.end());
    const Hom f = make_function(g, w.order(), ident(ids[at]), t, alpha);
    const SDD y = f(w.order(), x);
    if (img.empty()) { VF_CHECK(g, y.empty(), "a function without image gives something"); continue; }
    std::size_t p2 = 0;
    const std::string e2 = y.empty() ? "empty" : sdd::visit(Boxed{w.shape, 0, box2, p2}, y);
    VF_CHECK(g, e2.empty() && p2 == box2.size(), "a function on " << ident(ids[at]) << " changed another one: " << e2 << " " << show(w));
  }
  // Carried homomorphisms: a function at one level of its own scope.
  {
    const std::size_t at = g.below(ids.size());
    const auto& node = w.order().node(ident(ids[at]));
    const auto& path = node.path();
    Order scope = w.order();
    // The order of the scope of the target.
    for (const auto p : path) { while (scope.position() != p) scope = scope.next(); scope = scope.nested(); }
    Order tgt = scope;
    while (tgt.position() != node.position()) tgt = tgt.next();
    VF_CHECK(g, tgt.identifier().user() == ident(ids[at]) && tgt.variable() == node.variable(), "the chain of enclosing levels doesn't lead to the identifier");
  }
}

void small_orders(G& g)
{
  ShapeOpts so;
  so.max_leaves = 7;
  so.max_depth = 4;
  const Shape s = gen_shape(g, so);
  initialize(g, s, make_builder(s), gen_alphabet(g, 1, 5), 500);
}

void grouped(G& g)
{
  ShapeOpts so;
  so.max_leaves = g.oneof<int>({10, 40, 200});
  so.max_depth = g.range(1, 3);
  const Shape s = gen_shape(g, so);
  Builder b = make_builder(s);
  for (int i = 0, n = g.range(0, 2); i < n; ++i) b = sdd::identifiers_per_hierarchy<C>(g.range(2, 6))(b);
  initialize(g, s, b, gen_alphabet(g, 1, 5), 1000000000);
}

// Carrier: the same effect as a function on the identifier.
void carried(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  so.max_depth = 4;
  const World w = gen_world(g, so, 4, 500);
  auto m = sdd::init<C>(gen_conf(g));
  const Set s = gen_set(g, w, 20);
  const SDD x = build(g, w, s);
  std::vector<int> ids;
  flat_ids(w.shape, ids);
  const std::size_t at = g.below(ids.size());
  const Table t = gen_table(g, w.alpha, TKind::any);
  // Local order of the scope: build it apart, as a user would with the nested order.
  const auto& node = w.order().node(ident(ids[at]));
  Order scope = w.order();
  for (const auto p : node.path()) { while (scope.position() != p) scope = scope.next(); scope = scope.nested(); }
  // A homomorphism over the scope that changes the target: the last element of a chain of locals.
  Builder sb;
  std::vector<Id> scope_ids;
  for (Order o = scope; !o.empty(); o = o.next()) scope_ids.push_back(o.identifier().is_artificial() || !o.nested().empty() ? ident(900000 + static_cast<int>(scope_ids.size())) : o.identifier().user());
  for (auto it = scope_ids.rbegin(); it != scope_ids.rend(); ++it) sb.push(*it);
  const Order flat_scope(sb); // same variables as the scope
  const Hom inner = make_function(g, flat_scope, ident(ids[at]), t, w.alpha);
  const Hom h = sdd::carrier<C>(w.order(), ident(ids[at]), inner);
  const SDD y = h(w.order(), x);
  Set expected;
  for (const auto& word : s) for (auto v : t(word[at])) { Word z = word; z[at] = v; expected.push_back(z); }
  normalize(expected);
  expect_set(g, w, y, expected, "carrier to " + std::to_string(ids[at]));
  expect_set(g, w, make_function(g, w.order(), ident(ids[at]), t, w.alpha)(w.order(), x), expected, "function on " + std::to_string(ids[at]));
  g.desc << show(w) << " carrier to " << ids[at] << " through " << node.path().size() << " levels";
  if (ids.size() >= 3 && node.path().size() >= 1 && s.size() > 1) g.nontrivial();
}

// Very long scopes.
void long_orders(G& g)
{
  Shape s;
  int id = 0;
  auto leaf = [&] { Level l; l.id = id++; l.leaves = 1; return l; };
  const int n = g.range(200, 900), at = g.range(0, n - 1);
  for (int i = 0; i < n; ++i)
  {
    if (i == at && g.below(2))
    {
      Level l;
      l.id = id++;
      l.leaves = g.range(1, 400);
      for (unsigned k = 0; k < static_cast<unsigned>(l.leaves); ++k) l.sub.push_back(leaf());
      s.push_back(l);
    }
    else s.push_back(leaf());
  }
  initialize(g, s, make_builder(s), gen_alphabet(g, 2, 5), 1000000000);
  g.desc << " " << n << " levels";
}

VF_CASE("long/" VF_CONF_NAME, 1, long_orders);
VF_CASE("small/" VF_CONF_NAME, 50, small_orders);
VF_CASE("grouped/" VF_CONF_NAME, 15, grouped);
VF_CASE("carried/" VF_CONF_NAME, 25, carried);

// The empty order.
VF_CASE("empty/" VF_CONF_NAME, 1, [](G& g)
{
  auto m = sdd::init<C>(roomy_conf());
  const Order o{Builder()};
  const SDD x(o, [](const Id&) { return mkv({1}); });
  VF_CHECK(g, x == sdd::one<C>(), "the diagram of an empty order isn't |1|");
});

} // namespace
