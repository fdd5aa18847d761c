// C13 -- orders faithfully represent the hierarchy they were built from.
#include "model.hh"

#include <list>

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C13";
const char* const rule =
  "case = a random history of builder operations (all constructors, push of flat and nested levels, appending, copies) "
  "mirrored on trees; orders made of the results are compared with the tree through every accessor, from every sub-order; "
  "duplicated and unknown identifiers must be refused; pairs of orders differing by one edit must differ. "
  "Non-trivial: an order of at least four levels with a hierarchy, or a refused order.";
}
#endif

using namespace md;
namespace {

template <typename A, typename B>
bool same_range(const A& a, const B& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

// A tree of identifiers.
struct T { Id id{}; unsigned art = 0; std::vector<T> sub; };
using Ts = std::vector<T>;

std::size_t total(const Ts& t) { std::size_t n = t.size(); for (const auto& x : t) n += total(x.sub); return n; }

std::string showt(const Ts& t)
{
  std::ostringstream os;
  os << "(";
  for (const auto& x : t) { os << " "; if (x.art) os << "@"; else os << x.id; if (!x.sub.empty()) os << showt(x.sub); }
  os << " )";
  return os.str();
}

bool same(const Ts& a, const Ts& b)
{
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i) if (a[i].art != b[i].art || (a[i].art == 0 && a[i].id != b[i].id) || !same(a[i].sub, b[i].sub)) return false;
  return true;
}

void ids_of(const Ts& t, std::vector<Id>& all, std::vector<Id>& flat)
{
  for (const auto& x : t)
  {
    if (!x.art) all.push_back(x.id);
    if (x.sub.empty()) flat.push_back(x.id);
    ids_of(x.sub, all, flat);
  }
}

bool has_dup(const Ts& t) { std::vector<Id> a, f; ids_of(t, a, f); std::sort(a.begin(), a.end()); return std::adjacent_find(a.begin(), a.end()) != a.end(); }

struct BT { Builder b; Ts t; };

void compare(G& g, const Builder& b, const Ts& t)
{
  VF_CHECK(g, b.empty() == t.empty(), "emptiness of a builder of " << showt(t));
  VF_CHECK(g, b.size() == total(t), "size of a builder of " << showt(t) << " is " << b.size());
  VF_CHECK(g, b.height() == t.size(), "height of a builder of " << showt(t) << " is " << b.height());
  Builder cur = b;
  for (std::size_t i = 0; i < t.size(); ++i)
  {
    VF_CHECK(g, !cur.empty(), "a builder of " << showt(t) << " is too short");
    VF_CHECK(g, cur.identifier().is_artificial() == (t[i].art != 0) && cur.identifier().artificial() == t[i].art, "artificial identifier");
    if (!t[i].art) VF_CHECK(g, cur.identifier().user() == t[i].id, "identifier " << cur.identifier() << " instead of " << t[i].id);
    compare(g, cur.nested(), t[i].sub);
    cur = cur.next();
  }
  VF_CHECK(g, cur.empty(), "a builder of " << showt(t) << " is too long");
}

struct OrderCheck
{
  G& g;
  const Order& whole;
  unsigned pos = 0;
  std::vector<unsigned> path;
  std::vector<unsigned> positions;

  static const sdd::order_node<C>& node_of(const Order& o) { return o.node_from_position(o.position()); }

  void operator()(const Order& o, const Ts& t)
  {
    Order cur = o;
    for (std::size_t i = 0; i < t.size(); ++i)
    {
      VF_CHECK(g, !cur.empty(), "order of " << showt(t) << " too short");
      const unsigned p = cur.position();
      VF_CHECK(g, positions.empty() || p > positions.back(), "positions don't increase from top to bottom");
      positions.push_back(p);
      VF_CHECK(g, cur.variable() == t.size() - 1 - i, "variable " << cur.variable() << " for level " << i << " of " << showt(t));
      VF_CHECK(g, cur.identifier().artificial() == t[i].art, "artificial identifier");
      if (!t[i].art) VF_CHECK(g, cur.identifier().user() == t[i].id, "identifier " << cur.identifier() << " instead of " << t[i].id);
      const auto& n = whole.node_from_position(p);
      VF_CHECK(g, n.position() == p && n.variable() == cur.variable() && n.identifier() == cur.identifier(), "the node of a position isn't the one of that level");
      VF_CHECK(g, (n.nested() == nullptr) == t[i].sub.empty(), "nested nodes of " << t[i].id);
      VF_CHECK(g, (n.next() == nullptr) == (i + 1 == t.size()), "next node of " << t[i].id);
      VF_CHECK(g, same_range(n.path(), path), "chain of enclosing levels of " << t[i].id << " in " << showt(t));
      if (!t[i].art)
      {
        const auto& by_id = cur.node(t[i].id); // from any sub-order
        VF_CHECK(g, &by_id == &n, "the node found for " << t[i].id << " isn't its own");
        VF_CHECK(g, &whole.node(t[i].id) == &n, "the node found for " << t[i].id << " isn't its own");
      }
      for (std::size_t k = 0; k < positions.size(); ++k)
      {
        const bool in = std::find(path.begin(), path.end(), positions[k]) != path.end();
        VF_CHECK(g, whole.contains(positions[k], p) == in, "position " << positions[k] << " contains " << p << ": " << !in);
        VF_CHECK(g, (whole.node_from_position(positions[k]) < n) == (k + 1 < positions.size()), "relative order of nodes");
        VF_CHECK(g, !(n < whole.node_from_position(positions[k])), "relative order of nodes");
        VF_CHECK(g, positions[k] == p || !whole.contains(p, positions[k]), "a level contains one that is above");
      }
      path.push_back(p);
      if (!t[i].sub.empty()) (*this)(cur.nested(), t[i].sub);
      else VF_CHECK(g, cur.nested().empty(), "nested order of a flat level");
      path.pop_back();
      cur = cur.next();
    }
    VF_CHECK(g, cur.empty(), "order of " << showt(t) << " too long");
    // Flat identifiers, from any sub-order and to any kind of output.
    std::vector<Id> a, f, out;
    ids_of(t, a, f);
    o.flat(std::back_inserter(out));
    VF_CHECK(g, out == f, "flat identifiers of " << showt(t));
    std::vector<Id> buf(f.size());
    o.flat(buf.begin());
    VF_CHECK(g, buf == f, "flat identifiers of " << showt(t) << " written to a random access range");
  }
};

void compare(G& g, const Order& o, const Ts& t)
{
  VF_CHECK(g, o.empty() == t.empty(), "emptiness of an order of " << showt(t));
  OrderCheck c{g, o};
  c(o, t);
  if (!t.empty()) VF_CHECK(g, o.nodes().size() == total(t), "number of nodes of an order of " << showt(t));
}

template <typename E, typename F>
bool refused(G& g, F&& f, const Id& about, bool exact_id)
{
  try { f(); }
  catch (const E& e)
  {
    std::ostringstream os;
    os << "\"" << about << "\"";
    const sdd::order_error& base = e;
    VF_CHECK(g, !exact_id || std::string(base.what()).find(os.str()) != std::string::npos, "error message: " << base.what() << " about " << about);
    VF_CHECK(g, !std::string(base.what()).empty(), "empty error message");
    return true;
  }
  return false;
}

Ts find_level(Ts t) { return t; }

// Random edit of a tree; false if nothing changed.
bool edit(G& g, Ts& t, int& next_id)
{
  if (t.empty()) { t.push_back(T{ident(next_id++)}); return true; }
  const std::size_t i = g.below(t.size());
  switch (g.range(0, 6))
  {
    case 0: if (!t[i].art) { t[i].id = ident(next_id++); return true; } return false;
    case 1: t.insert(t.begin() + i, T{ident(next_id++)}); return true;
    case 2: if (t.size() > 1) { t.erase(t.begin() + i); return true; } return false;
    case 3: if (i > 0) { std::swap(t[i], t[i - 1]); return true; } return false;
    case 4: if (!t[i].sub.empty()) { Ts s = t[i].sub; t[i].sub.clear(); if (t[i].art) return false; t.insert(t.begin() + i + 1, s.begin(), s.end()); return true; } return false; // unnest
    case 5: if (i + 1 < t.size() && t[i].sub.empty()) { t[i].sub.push_back(t[i + 1]); t.erase(t.begin() + i + 1); return true; } return false; // nest
    default: if (!t[i].sub.empty()) return edit(g, t[i].sub, next_id); return false;
  }
}

Builder rebuild(const Ts& t)
{
  Builder b;
  for (auto it = t.rbegin(); it != t.rend(); ++it)
  {
    if (it->art) return Builder(); // not used with artificial identifiers
    b.push(it->id, rebuild(it->sub));
  }
  return b;
}

bool has_art(const Ts& t) { for (const auto& x : t) if (x.art || has_art(x.sub)) return true; return false; }
bool deep(const Ts& t) { for (const auto& x : t) if (!x.sub.empty()) return true; return false; }

void builders(G& g)
{
  int next_id = 0;
  const bool dups = g.chance(20);
  auto fresh = [&]() { if (dups && next_id > 0 && g.chance(15)) return ident(g.below(next_id)); return ident(next_id++); };
  std::vector<BT> pool(1);
  std::string log;
  int refusals = 0;
  bool big = false;
  for (int i = 0, n = g.range(1, 20); i < n; ++i)
  {
    const std::size_t a = g.below(pool.size()), b = g.below(pool.size());
    if (total(pool[a].t) + total(pool[b].t) > 40) { pool[a] = BT(); continue; }
    const int op = g.range(0, 12);
    switch (op)
    {
      case 0: { const Id x = fresh(); pool.push_back(BT{Builder(x), {T{x}}}); log += "one "; break; }
      case 1: { const Id x = fresh(); Id y = x; pool.push_back(BT{Builder(std::move(y), pool[a].b), {T{x, 0, pool[a].t}}}); log += "nest "; break; }
      case 2: { const Id x = fresh(); pool.push_back(BT{Builder(x, pool[a].b), {T{x, 0, pool[a].t}}}); log += "nest "; break; }
      case 3:
      {
        std::vector<Id> xs;
        Ts t;
        for (int k = 0, q = g.range(0, 7); k < q; ++k) { xs.push_back(fresh()); t.push_back(T{xs.back()}); }
        const std::list<Id> l(xs.begin(), xs.end());
        pool.push_back(BT{Builder(l.begin(), l.end()), t});
        log += "range ";
        break;
      }
      case 4: { const Id x = fresh(), y = fresh(), z = fresh(); pool.push_back(BT{Builder(std::initializer_list<Id>{x, y, z}), {T{x}, T{y}, T{z}}}); log += "list "; break; }
      case 5: { const Id x = fresh(); Builder& r = pool[a].b.push(x); VF_CHECK(g, &r == &pool[a].b, "push returns another builder"); pool[a].t.insert(pool[a].t.begin(), T{x}); log += "push "; break; }
      case 6: { const Id x = fresh(); const Ts s = pool[b].t; pool[a].b.push(x, pool[b].b); pool[a].t.insert(pool[a].t.begin(), T{x, 0, s}); log += "push_nested "; break; }
      case 7:
      {
        if (pool[b].t.empty()) break;
        const sdd::order_identifier<C> x;
        const Ts s = pool[b].t;
        if (g.below(2)) { pool[a].b.push(x, pool[b].b); pool[a].t.insert(pool[a].t.begin(), T{Id(), x.artificial(), s}); }
        else pool.push_back(BT{Builder(x, pool[b].b), {T{Id(), x.artificial(), s}}});
        log += "artificial ";
        break;
      }
      case 8:
      case 9:
      {
        const BT other = pool[b];
        const Builder r = pool[a].b << other.b;
        pool[a].t.insert(pool[a].t.end(), other.t.begin(), other.t.end());
        compare(g, r, pool[a].t);
        compare(g, other.b, other.t);
        log += "append ";
        break;
      }
      case 10: pool[a] = pool[b]; log += "copy "; break;
      case 11: if (pool.size() > 1) pool.erase(pool.begin() + a); break;
      default: { if (pool[a].t.empty()) break; const bool nested = g.below(2); const BT r = nested ? BT{pool[a].b.nested(), pool[a].t[0].sub} : BT{pool[a].b.next(), Ts(pool[a].t.begin() + 1, pool[a].t.end())}; pool.push_back(r); log += "part "; }
    }
    if (!dups && g.below(10) != 9)
    {
      // What was used in an operation isn't used again: identifiers stay unique.
      if ((op == 1 || op == 2 || op == 12) && a < pool.size()) pool[a] = BT();
      else if ((op >= 6 && op <= 10) && b < pool.size() && (a != b || op != 10)) pool[b] = BT();
    }
    if (pool.size() > 6) pool.erase(pool.begin() + g.below(pool.size()));
    for (const auto& p : pool) compare(g, p.b, p.t);
    const BT& p = g.pick(pool);
    if (has_dup(p.t))
    {
      std::vector<Id> all, flat;
      ids_of(p.t, all, flat);
      std::sort(all.begin(), all.end());
      std::set<Id> d;
      for (std::size_t k = 0; k + 1 < all.size(); ++k) if (all[k] == all[k + 1]) d.insert(all[k]);
      const bool r = refused<sdd::duplicate_identifier_error<C>>(g, [&] { const Order o(p.b); (void)o; }, *d.begin(), d.size() == 1);
      VF_CHECK(g, r, "an order with duplicate identifiers is accepted: " << showt(p.t));
      ++refusals;
    }
    else
    {
      const Order o(p.b);
      compare(g, o, p.t);
      if (total(p.t) >= 4 && deep(p.t)) big = true;
      const Id unknown = ident(5000);
      if (!p.t.empty() || true)
      {
        const bool r = refused<sdd::identifier_not_found_error<C>>(g, [&] { (void)o.node(unknown); }, unknown, true);
        VF_CHECK(g, r, "an unknown identifier is found in " << showt(p.t));
      }
      // A copy survives, and equality.
      Order copy = o;
      VF_CHECK(g, copy == o, "a copy of an order is different: " << showt(p.t));
      const Order again(p.b);
      VF_CHECK(g, again == o, "two orders made of the same builder are different: " << showt(p.t));
      compare(g, again, p.t);
      {
        const BT& q = g.pick(pool);
        if (!has_dup(q.t)) { const Order oq(q.b); VF_CHECK(g, (oq == o) == same(q.t, p.t) && (o == oq) == same(q.t, p.t), "equality of " << showt(p.t) << " and " << showt(q.t)); copy = oq; compare(g, copy, q.t); }
      }
      if (!has_art(p.t))
      {
        const Order r(rebuild(p.t));
        VF_CHECK(g, r == o && o == r, "two orders of the same structure are different: " << showt(p.t));
        Ts e = p.t;
        int fresh_id = 6000;
        if (edit(g, e, fresh_id) && !has_dup(e))
        {
          const Order oe(rebuild(e));
          compare(g, oe, e);
          VF_CHECK(g, (oe == o) == same(e, p.t) && (o == oe) == same(e, p.t), "equality of " << showt(p.t) << " and " << showt(e));
        }
      }
    }
  }
  std::size_t m = 0;
  for (std::size_t k = 1; k < pool.size(); ++k) if (total(pool[k].t) > total(pool[m].t)) m = k;
  g.desc << showt(pool[m].t).substr(0, 120) << " " << log.substr(0, 120);
  if (refusals) g.label("duplicates refused");
  if (big || refusals) g.nontrivial();
}

// Orders of shapes: large ones; duplicates far apart; homomorphisms on unknown identifiers.
void shapes(G& g)
{
  ShapeOpts so;
  so.max_leaves = g.oneof<int>({6, 30, 150});
  so.max_depth = 5;
  so.artificial = false;
  const Shape s = gen_shape(g, so);
  std::function<Ts (const Shape&)> conv = [&](const Shape& sh) { Ts t; for (const auto& l : sh) t.push_back(T{ident(l.id), 0, conv(l.sub)}); return t; };
  Ts t = conv(s);
  {
    const Order o(make_builder(s));
    compare(g, o, t);
    auto m = sdd::init<C>(roomy_conf());
    const Id unknown = ident(100000);
    VF_CHECK(g, (refused<sdd::identifier_not_found_error<C>>(g, [&] { sdd::local<C>(unknown, o, sdd::id<C>()); }, unknown, true)), "local on an unknown identifier is accepted");
    VF_CHECK(g, (refused<sdd::identifier_not_found_error<C>>(g, [&] { sdd::carrier<C>(o, unknown, sdd::id<C>()); }, unknown, true)), "carrier on an unknown identifier is accepted");
  }
  // One duplicate.
  std::vector<T*> nodes;
  std::function<void (Ts&)> walk = [&](Ts& x) { for (auto& y : x) { nodes.push_back(&y); walk(y.sub); } };
  walk(t);
  if (nodes.size() >= 2)
  {
    const std::size_t a = g.below(nodes.size());
    std::size_t b = g.below(nodes.size());
    if (a == b) b = (b + 1) % nodes.size();
    const Id saved = nodes[a]->id;
    nodes[a]->id = nodes[b]->id;
    const bool r = refused<sdd::duplicate_identifier_error<C>>(g, [&] { const Order o(rebuild(t)); (void)o; }, nodes[b]->id, true);
    VF_CHECK(g, r, "an order with a duplicate identifier is accepted: " << showt(t));
    nodes[a]->id = saved;
  }
  g.desc << show(s).substr(0, 150);
  if (total(t) >= 4 && deep(t)) g.nontrivial();
}

// Very long scopes, very deep nesting, very many levels overall, very many artificial identifiers.
void large(G& g)
{
  int next_id = 0;
  const int kind = g.range(0, 4);
  Ts t;
  auto flat = [&](int n) { Ts r; for (int i = 0; i < n; ++i) r.push_back(T{ident(next_id++)}); return r; };
  switch (kind)
  {
    case 0: t = flat(g.range(250, 1500)); break;
    case 1: for (int d = g.range(20, 300); d > 0; --d) { Ts r = flat(g.range(0, 3)); r.insert(r.begin() + g.below(r.size() + 1), T{ident(next_id++), 0, t}); t = r; } break;
    case 2: { const int k = g.below(4) == 0 ? 260 : g.range(10, 40); for (int i = 0; i < k; ++i) t.push_back(T{ident(next_id++), 0, flat(k == 260 ? 260 : g.range(1, 60))}); break; }
    case 3: { const int k = g.range(250, 600); for (int i = 0; i < k; ++i) t.push_back(T{ident(next_id++), 0, flat(g.range(0, 2))}); break; }
    default:
    {
      const int n = g.below(4) == 0 ? 66000 : g.range(250, 2000);
      std::vector<unsigned> seen;
      for (int i = 0; i < n; ++i) { const sdd::order_identifier<C> x; VF_CHECK(g, x.is_artificial(), "an artificial identifier isn't"); seen.push_back(x.artificial()); }
      std::sort(seen.begin(), seen.end());
      VF_CHECK(g, std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "two artificial identifiers are the same, out of " << n);
      g.desc << n << " artificial identifiers";
      g.nontrivial();
      return;
    }
  }
  const std::size_t n = total(t);
  const Builder b = rebuild(t);
  VF_CHECK(g, b.size() == n && b.height() == t.size(), "size of a large builder: " << b.size() << " and " << b.height() << " instead of " << n << " and " << t.size());
  const Order o(b);
  VF_CHECK(g, o.nodes().size() == n, "number of nodes of a large order");
  // Every level, in linear time.
  unsigned count = 0;
  std::vector<unsigned> path;
  std::vector<const T*> seen;
  std::function<void (const Order&, const Ts&)> walk = [&](const Order& from, const Ts& ts)
  {
    Order cur = from;
    for (std::size_t i = 0; i < ts.size(); ++i)
    {
      VF_CHECK(g, !cur.empty(), "a large order is too short");
      VF_CHECK(g, cur.position() == count, "position " << cur.position() << " instead of " << count);
      VF_CHECK(g, cur.variable() == ts.size() - 1 - i, "variable " << cur.variable() << " instead of " << ts.size() - 1 - i);
      VF_CHECK(g, !cur.identifier().is_artificial() && cur.identifier().user() == ts[i].id, "identifier " << cur.identifier() << " instead of " << ts[i].id);
      const auto& node = o.node(ts[i].id);
      VF_CHECK(g, node.position() == count && node.variable() == cur.variable() && node.identifier() == cur.identifier(), "the node found for " << ts[i].id << " isn't its own");
      VF_CHECK(g, &o.node_from_position(count) == &node, "the node of position " << count);
      VF_CHECK(g, same_range(node.path(), path), "chain of enclosing levels of " << ts[i].id);
      if (!path.empty()) { const unsigned q = g.pick(path); VF_CHECK(g, o.contains(q, count) && !o.contains(count, q), "position " << q << " contains " << count); }
      seen.push_back(&ts[i]);
      path.push_back(count++);
      if (ts[i].sub.empty()) VF_CHECK(g, cur.nested().empty(), "nested order of a flat level"); else walk(cur.nested(), ts[i].sub);
      path.pop_back();
      cur = cur.next();
    }
    VF_CHECK(g, cur.empty(), "a large order is too long");
  };
  walk(o, t);
  std::vector<Id> all, f, out;
  ids_of(t, all, f);
  o.flat(std::back_inserter(out));
  VF_CHECK(g, out == f, "flat identifiers of a large order");
  // One edit far from the top.
  {
    Ts e = t;
    std::vector<T*> nodes;
    std::function<void (Ts&)> collect = [&](Ts& x) { for (auto& y : x) { nodes.push_back(&y); collect(y.sub); } };
    collect(e);
    T& x = *nodes[nodes.size() - 1 - g.below(std::min<std::size_t>(nodes.size(), 4))];
    const bool dup = g.below(2);
    x.id = dup ? nodes[0]->id : ident(next_id);
    if (!dup || &x == nodes[0]) VF_CHECK(g, (Order(rebuild(e)) == o) == same(e, t), "equality of large orders that differ at the bottom");
    else VF_CHECK(g, (refused<sdd::duplicate_identifier_error<C>>(g, [&] { const Order q(rebuild(e)); (void)q; }, x.id, true)), "a large order with a duplicate is accepted");
    VF_CHECK(g, Order(rebuild(t)) == o, "equality of large orders");
  }
  g.desc << "large order: kind " << kind << ", " << n << " levels, " << t.size() << " at the top";
  g.nontrivial();
}

VF_CASE("large/" VF_CONF_NAME, 1, large);
VF_CASE("builders/" VF_CONF_NAME, 60, builders);
VF_CASE("shapes/" VF_CONF_NAME, 15, shapes);

} // namespace
