// C15 -- symbolic state spaces equal explicit exploration.
#include "hom.hh"
#include <deque>

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C15";
const char* const rule =
  "case = random bounded transition system (Petri nets, rings, counters, arbitrary guarded table transitions, "
  "if-then-else transitions; 1..7 variables) explored by explicit breadth-first search, then by the library under 2..4 "
  "random combinations of variable order, hierarchy, encoding of transitions (functions, inductives, locals), shape "
  "of the fixpoint, saturation rewriting and configuration; states and counts must be equal. Non-trivial: at "
  "least 5 reachable states, more than the initial ones, and 2 or more transitions.";
}
#endif

using namespace md;
namespace {

struct Trans
{
  std::map<int, Table> on;          // by variable
  int guard_var = -1;               // if-then-else: guard on a variable
  Table guard;
  std::map<int, Table> otherwise;
};

struct System
{
  int n = 0;
  std::vector<unsigned> dom;
  std::vector<std::vector<unsigned>> init; // per variable
  std::vector<Trans> ts;
  std::string txt;
};

void fire(const std::map<int, Table>& on, const Word& x, Set& out)
{
  Set cur{x};
  for (const auto& p : on)
  {
    Set nxt;
    for (const auto& y : cur) for (auto v : p.second(y[p.first])) { Word z = y; z[p.first] = v; nxt.push_back(z); }
    cur.swap(nxt);
  }
  out.insert(out.end(), cur.begin(), cur.end());
}

Set bfs(const System& s, std::size_t limit)
{
  std::set<Word> seen;
  std::deque<Word> todo;
  for (const auto& x : product_set(s.init)) { seen.insert(x); todo.push_back(x); }
  while (!todo.empty())
  {
    const Word x = todo.front();
    todo.pop_front();
    Set succ;
    for (const auto& t : s.ts)
    {
      if (t.guard_var < 0) fire(t.on, x, succ);
      else if (!t.guard(x[t.guard_var]).empty()) fire(t.on, x, succ);
      else fire(t.otherwise, x, succ);
    }
    for (const auto& y : succ) if (seen.insert(y).second) todo.push_back(y);
    if (seen.size() > limit) throw vf::Discard{};
  }
  return Set(seen.begin(), seen.end());
}

Table at_least(const std::vector<unsigned>& dom, std::size_t k)
{
  Table t;
  for (std::size_t i = 0; i < dom.size() && i < k; ++i) t.m[dom[i]] = {};
  return t;
}

Table shift(const std::vector<unsigned>& dom, int d) // out of the domain: blocked
{
  Table t;
  for (int i = 0; i < static_cast<int>(dom.size()); ++i)
  {
    const int k = i + d;
    t.m[dom[i]] = k >= 0 && k < static_cast<int>(dom.size()) ? std::vector<unsigned>{dom[k]} : std::vector<unsigned>{};
  }
  return t;
}

System gen_system(G& g)
{
  System s;
  s.n = g.range(1, 7);
  const int k = g.range(2, s.n > 5 ? 3 : 5);
  unsigned base = g.oneof({0u, 0u, 5u, 50u});
  for (int i = 0; i < k; ++i) s.dom.push_back(base + static_cast<unsigned>(i));
  for (int i = 0; i < s.n; ++i)
  {
    s.init.push_back({g.pick(s.dom)});
    if (g.chance(15)) s.init.back() = gen_subset(g, s.dom);
  }
  const int kind = g.range(0, 3);
  const int nt = g.range(1, 7);
  s.txt = kind == 0 ? "petri" : kind == 1 ? "ring" : kind == 2 ? "tables" : "mixed";
  for (int i = 0; i < nt; ++i)
  {
    Trans t;
    if (kind == 0 || (kind == 3 && g.below(2)))
    {
      for (int v = 0; v < s.n; ++v) if (g.below(3) == 0) t.on[v] = shift(s.dom, g.range(-2, 2));
    }
    else if (kind == 1)
    {
      const int a = i % s.n, b = (i + 1 + static_cast<int>(g.below(2))) % s.n;
      if (a != b) { t.on[a] = shift(s.dom, -1); t.on[b] = shift(s.dom, +1); }
      else t.on[a] = shift(s.dom, g.range(-1, 1));
      if (g.chance(20)) t.on[static_cast<int>(g.below(s.n))] = at_least(s.dom, 1);
    }
    else
    {
      for (int v = 0; v < s.n; ++v)
        if (g.below(3) == 0) t.on[v] = gen_table(g, s.dom, g.oneof({TKind::selector, TKind::shifter, TKind::any}));
    }
    if (g.chance(20))
    {
      t.guard_var = static_cast<int>(g.below(s.n));
      t.guard = gen_table(g, s.dom, TKind::selector);
      for (int v = 0; v < s.n; ++v) if (g.below(3) == 0) t.otherwise[v] = shift(s.dom, g.range(-1, 1));
    }
    s.ts.push_back(t);
  }
  return s;
}

// Applies tables by identifier; skips the other variables. Works in any scope: descends in hierarchies.
struct ByTables
{
  std::shared_ptr<const std::map<Id, Table>> on;
  std::shared_ptr<const std::set<Id>> keep; // hierarchical levels which contain a target
  int tag;
  bool skip(const Id& i) const noexcept { return !on->count(i) && !keep->count(i); }
  Hom operator()(const Order& o, const SDD& x) const
  {
    // The evaluation cache has no order in its keys: each scope gets its own homomorphism.
    ByTables nested = *this;
    nested.tag = tag * 64 + 1 + static_cast<int>(o.position());
    return sdd::cons<C>(o, sdd::inductive<C>(nested)(o.nested(), x), sdd::inductive<C>(*this));
  }
  Hom operator()(const Order& o, const Values& v) const
  {
    std::vector<unsigned> r;
    const auto& t = on->at(o.identifier().user());
    for (auto x : vt::elems(v)) { const auto y = t(x); r.insert(r.end(), y.begin(), y.end()); }
    return sdd::cons<C>(o, mkv(r), sdd::inductive<C>(*this));
  }
  SDD operator()() const { return sdd::one<C>(); }
  friend bool operator==(const ByTables& l, const ByTables& r) { return l.tag == r.tag; }
};

} // namespace

namespace std { template <> struct hash<ByTables> { std::size_t operator()(const ByTables& b) const noexcept { return static_cast<std::size_t>(b.tag); } }; }

namespace {

struct Encoder
{
  G& g;
  const System& s;
  World w;
  std::vector<int> at;      // variable -> flat position
  std::vector<int> var;     // flat position -> variable
  std::vector<int> ids;     // flat position -> identifier
  int tags = 0;

  bool keep(const Shape& sh, const std::map<Id, Table>& on, std::set<Id>& k) const
  {
    bool any = false;
    for (const auto& l : sh)
    {
      bool in = l.sub.empty() ? on.count(ident(l.id)) > 0 : keep(l.sub, on, k);
      if (in && !l.sub.empty()) k.insert(ident(l.id));
      any |= in;
    }
    return any;
  }

  bool artificial(const Shape& sh) const
  {
    for (const auto& l : sh) if (l.artificial || artificial(l.sub)) return true;
    return false;
  }

  Hom fun(int v, const Table& t) { return make_function(g, w.order(), ident(ids[at[v]]), t, s.dom); }

  Hom action(const std::map<int, Table>& on)
  {
    if (!artificial(w.shape) && g.chance(30))
    {
      std::map<Id, Table> by;
      for (const auto& p : on) by[ident(ids[at[p.first]])] = p.second;
      std::set<Id> k;
      keep(w.shape, by, k);
      g.label("inductive transition");
      return sdd::inductive<C>(ByTables{std::make_shared<std::map<Id, Table>>(by), std::make_shared<std::set<Id>>(k), ++tags});
    }
    std::vector<Hom> fs;
    for (const auto& p : on)
    {
      // A table is sometimes split in a guard and an effect.
      if (g.chance(30))
      {
        Table guard;
        for (auto d : s.dom) if (p.second(d).empty()) guard.m[d] = {};
        Table effect;
        for (auto d : s.dom) effect.m[d] = p.second(d).empty() ? std::vector<unsigned>{d} : p.second(d);
        fs.push_back(sdd::composition<C>(fun(p.first, effect), fun(p.first, guard)));
      }
      else fs.push_back(fun(p.first, p.second));
    }
    g.shuffle(fs);
    Hom h = sdd::id<C>();
    if (g.below(2)) for (const auto& f : fs) h = sdd::composition<C>(f, h);
    else            for (const auto& f : fs) h = sdd::composition<C>(h, f);
    return h;
  }

  Hom transition(const Trans& t)
  {
    if (t.guard_var < 0) return action(t.on);
    FnBase b;
    b.t = std::make_shared<Table>(t.guard);
    b.sel = true;
    b.shift = false;
    Fn<1> f;
    static_cast<FnBase&>(f) = b;
    const Hom p = sdd::function<C>(w.order(), ident(ids[at[t.guard_var]]), std::move(f));
    return sdd::if_then_else<C>(p, action(t.on), action(t.otherwise));
  }

  Hom whole()
  {
    std::vector<Hom> ts;
    for (const auto& t : s.ts) ts.push_back(transition(t));
    const Hom id = sdd::id<C>();
    switch (g.range(0, 4))
    {
      case 0: case 1:
        ts.push_back(id);
        g.shuffle(ts);
        return sdd::fixpoint<C>(sdd::sum<C>(w.order(), ts.begin(), ts.end()));
      case 2: // nested sums
      {
        Hom h = id;
        for (const auto& t : ts) h = sdd::sum<C>(w.order(), {h, t});
        return sdd::fixpoint<C>(h);
      }
      case 3: // chaining
      {
        Hom h = id;
        for (const auto& t : ts) h = sdd::composition<C>(sdd::sum<C>(w.order(), {id, t}), h);
        return sdd::fixpoint<C>(h);
      }
      default: // fixpoint of fixpoints
      {
        std::vector<Hom> fs{id};
        for (const auto& t : ts) fs.push_back(sdd::fixpoint<C>(sdd::sum<C>(w.order(), {t, id})));
        return sdd::fixpoint<C>(sdd::sum<C>(w.order(), fs.begin(), fs.end()));
      }
    }
  }
};

void systems(G& g)
{
  const System s = gen_system(g);
  const Set reach = bfs(s, 4000);
  g.desc << s.txt << " " << s.n << " variables, " << s.ts.size() << " transitions, " << reach.size() << " states";
  const int encodings = g.range(2, 4);
  for (int i = 0; i < encodings; ++i)
  {
    int next = 0;
    const bool art = g.chance(30);
    const Shape shape = gen_scope(g, s.n, g.range(1, 4), art, next);
    std::string ctxt;
    auto m = sdd::init<C>(gen_conf(g, &ctxt));
    Encoder e{g, s, make_world(shape, s.dom), {}, {}, {}};
    flat_ids(shape, e.ids);
    for (int v = 0; v < s.n; ++v) e.var.push_back(v);
    g.shuffle(e.var);
    e.at.resize(s.n);
    for (int p = 0; p < s.n; ++p) e.at[e.var[p]] = p;
    std::map<Id, int> by_id;
    for (int p = 0; p < s.n; ++p) by_id[ident(e.ids[p])] = e.var[p];
    const SDD init(e.w.order(), [&](const Id& id) { return mkv(s.init[by_id.at(id)]); });
    Hom h = e.whole();
    const bool rw = g.below(2);
    if (rw) h = sdd::rewrite<C>(e.w.order(), h);
    const SDD x = h(e.w.order(), init);
    Set expected;
    for (const auto& y : reach)
    {
      Word z(s.n, 0);
      for (int v = 0; v < s.n; ++v) z[e.at[v]] = y[v];
      expected.push_back(z);
    }
    normalize(expected);
    expect_set(g, e.w, x, expected, s.txt + (rw ? " rewritten" : " plain") + " encoding " + std::to_string(i));
    VF_CHECK(g, x.size() == expected.size(), "number of states " << x.size() << " instead of " << expected.size());
    if (shape_depth(shape) > 1) g.label("hierarchical");
    if (rw) g.label("rewritten");
  }
  if (reach.size() >= 5 && reach.size() > product_set(s.init).size() && s.ts.size() >= 2) g.nontrivial();
}

VF_CASE("systems/" VF_CONF_NAME, 50, systems);

} // namespace
