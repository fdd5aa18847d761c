// User functions and inductive homomorphisms described by tables, random homomorphism expressions,
// and their reference semantics on explicit sets.
#pragma once

#include "model.hh"

namespace md {
namespace {

/*------------------------------------------------------------------------------------------------*/
// Fault injection: every call to user code goes through user_call().

struct Injected : public std::runtime_error
{
  long at;
  explicit Injected(long a) : std::runtime_error("injected"), at(a) {}
};

struct FaultState { long calls = 0; long throw_at = -1; long fired = 0; };
FaultState fault;

inline void user_call()
{
  const long n = fault.calls++;
  if (n == fault.throw_at) { ++fault.fired; throw Injected(n); }
}

/*------------------------------------------------------------------------------------------------*/
// Functions on values.

struct Table
{
  std::map<unsigned, std::vector<unsigned>> m;

  std::vector<unsigned> operator()(unsigned v) const
  {
    const auto it = m.find(v);
    return it == m.end() ? std::vector<unsigned>{v} : it->second;
  }

  bool is_selector() const
  {
    for (const auto& p : m) if (p.second.size() > 1 || (p.second.size() == 1 && p.second[0] != p.first)) return false;
    return true;
  }

  bool is_shifter(const std::vector<unsigned>& alpha) const
  {
    std::set<unsigned> seen;
    for (auto a : alpha) for (auto v : (*this)(a)) if (!seen.insert(v).second) return false;
    return true;
  }

  friend bool operator==(const Table& l, const Table& r) { return l.m == r.m; }

  std::string show() const
  {
    std::string r = "[";
    for (const auto& p : m)
    {
      r += std::to_string(p.first) + ">";
      for (std::size_t i = 0; i < p.second.size(); ++i) r += (i ? "," : "") + std::to_string(p.second[i]);
      r += " ";
    }
    return r + "]";
  }
};

inline std::size_t table_hash(const Table& t, int mode)
{
  switch (mode)
  {
    case 0: { std::size_t h = 17; for (const auto& p : t.m) { h = h * 31 + p.first; for (auto v : p.second) h = h * 131 + v; } return h; }
    case 1: return 0;
    default: return t.m.size();
  }
}

// Kind: 0 no predicate, 1 selector(), 2 shifter(), 3 both.
template <int Kind> struct Fn;

struct FnBase
{
  std::shared_ptr<const Table> t;
  bool sel;
  bool shift;

  Values operator()(const Values& v) const
  {
    user_call();
    std::vector<unsigned> r;
    for (auto x : vt::elems(v)) { const auto y = (*t)(x); r.insert(r.end(), y.begin(), y.end()); }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return mkv(r);
  }

  bool eq(const FnBase& o) const { return *t == *o.t && sel == o.sel && shift == o.shift; }
};

template <> struct Fn<0> : FnBase { };
template <> struct Fn<1> : FnBase { bool selector() const noexcept { return sel; } };
template <> struct Fn<2> : FnBase { bool shifter() const noexcept { return shift; } };
template <> struct Fn<3> : FnBase { bool selector() const noexcept { return sel; } bool shifter() const noexcept { return shift; } };

template <int K> bool operator==(const Fn<K>& l, const Fn<K>& r) { return l.eq(r); }
inline std::ostream& operator<<(std::ostream& os, const Fn<1>& f) { return os << "table" << f.t->show(); }

// Random table over the alphabet.
enum class TKind { selector, shifter, any };

inline Table gen_table(G& g, const std::vector<unsigned>& a, TKind k)
{
  Table t;
  const int n = static_cast<int>(a.size());
  switch (k)
  {
    case TKind::selector:
      switch (g.range(0, 4))
      {
        case 0: { const unsigned x = g.pick(a); for (auto v : a) if (v > x) t.m[v] = {}; break; }
        case 1: { const unsigned x = g.pick(a); for (auto v : a) if (v != x) t.m[v] = {}; break; }
        case 2: t.m[g.pick(a)] = {}; break;
        case 3: for (auto v : a) if (g.below(2)) t.m[v] = {}; break;
        default: if (g.chance(30)) { for (auto v : a) t.m[v] = {}; } else t.m[g.pick(a)] = {};
      }
      break;
    case TKind::shifter:
      switch (g.range(0, 2))
      {
        case 0: { const int d = g.range(0, n - 1); for (int i = 0; i < n; ++i) t.m[a[i]] = {a[(i + d) % n]}; break; }
        case 1: { auto b = a; g.shuffle(b); for (int i = 0; i < n; ++i) t.m[a[i]] = {b[i]}; break; }
        default: // partial injection: some values disappear, as in "consume one token"
        {
          const int d = g.range(0, n - 1);
          for (int i = 0; i < n; ++i) t.m[a[i]] = i + d < n ? std::vector<unsigned>{a[i + d]} : std::vector<unsigned>{};
        }
      }
      break;
    case TKind::any:
      switch (g.range(0, 5))
      {
        case 0: for (int i = 0; i < n; ++i) t.m[a[i]] = {a[std::min(i + 1, n - 1)]}; break;          // saturating successor
        case 1: { const unsigned c = g.pick(a); for (auto v : a) t.m[v] = {c}; break; }                // constant
        case 2: for (int i = 0; i < n; ++i) { t.m[a[i]] = {a[i]}; if (i + 1 < n) t.m[a[i]].push_back(a[i + 1]); } break;
        case 3: for (auto v : a) { std::vector<unsigned> o; for (auto x : a) if (g.below(3) == 0) o.push_back(x); t.m[v] = o; } break;
        case 4: for (auto v : a) t.m[v] = {g.pick(a)}; break;
        default: { t.m[g.pick(a)] = {g.pick(a)}; }
      }
      break;
  }
  return t;
}

inline Hom make_function(G& g, const Order& o, const Id& id, const Table& t, const std::vector<unsigned>& alpha)
{
  FnBase b;
  b.t = std::make_shared<Table>(t);
  b.sel = t.is_selector();
  b.shift = t.is_shifter(alpha);
  const int kind = g.range(0, 3);
  // A predicate may be conservative: say false though true. Flags matter only if the method exists.
  if (g.chance(15)) { b.sel = false; }
  if (g.chance(15)) { b.shift = false; }
  switch (kind)
  {
    case 0: { b.sel = b.shift = false; Fn<0> f; static_cast<FnBase&>(f) = b; return sdd::function<C>(o, id, std::move(f)); }
    case 1: { b.shift = false; Fn<1> f; static_cast<FnBase&>(f) = b; return sdd::function<C>(o, id, std::move(f)); }
    case 2: { b.sel = false; Fn<2> f; static_cast<FnBase&>(f) = b; return sdd::function<C>(o, id, std::move(f)); }
    default: { Fn<3> f; static_cast<FnBase&>(f) = b; return sdd::function<C>(o, id, std::move(f)); }
  }
}

/*------------------------------------------------------------------------------------------------*/
// Inductive homomorphisms: finite transducers that read the levels of one scope from top to bottom.

struct E;

struct Transducer
{
  struct Flat { std::vector<std::pair<unsigned, int>> to; };           // (output value, next state)
  struct Nested { int hom; int state; };                               // (nested homomorphism or -1, next state)
  struct At                                                            // behaviour at one level
  {
    bool skip = false;                                                 // identity at this level
    std::vector<std::map<unsigned, Flat>> flat;                        // [state][value]
    std::vector<std::vector<Nested>> nested;                           // [state]
  };
  int tag = 0;                                                         // unique in the case
  int states = 1;
  bool selector = false;
  std::vector<bool> accept;
  std::map<int, At> at;                                                // by number of levels below
  std::vector<Hom> homs;                                               // nested homomorphisms
  std::vector<std::function<Set (const Set&)>> refs;
  std::set<Id> skipped;
  int hash_mode = 0;
  bool evaluate_in_callback = false;
};

// Kind: 0 plain, 1 skip(), 2 selector(), 3 both.
template <int Kind> struct Ind;

struct IndBase
{
  std::shared_ptr<const Transducer> t;
  int state;
  bool eq(const IndBase& o) const { return t->tag == o.t->tag && state == o.state; }
};

template <int Kind>
Hom ind_next(const std::shared_ptr<const Transducer>& t, int state);

template <int Kind>
Hom ind_flat(const IndBase& i, const Order& o, const Values& v)
{
  user_call();
  const auto& at = i.t->at.at(static_cast<int>(o.variable()));
  if (at.skip) return sdd::cons<C>(o, v, ind_next<Kind>(i.t, i.state));
  std::map<int, std::vector<unsigned>> out; // next state -> values
  for (auto x : vt::elems(v))
  {
    const auto& f = at.flat[i.state];
    const auto it = f.find(x);
    if (it == f.end()) continue;
    for (const auto& p : it->second.to) out[p.second].push_back(p.first);
  }
  std::vector<Hom> ops;
  for (auto& p : out) ops.push_back(sdd::cons<C>(o, mkv(p.second), ind_next<Kind>(i.t, p.first)));
  if (ops.empty()) return sdd::constant<C>(sdd::zero<C>());
  return sdd::sum<C>(o, ops.begin(), ops.end());
}

template <int Kind>
Hom ind_nested(const IndBase& i, const Order& o, const SDD& x)
{
  user_call();
  const auto& at = i.t->at.at(static_cast<int>(o.variable()));
  if (at.skip) return sdd::cons<C>(o, x, ind_next<Kind>(i.t, i.state));
  std::vector<Hom> ops;
  for (const auto& n : at.nested[i.state])
  {
    const SDD y = n.hom < 0 ? x : i.t->homs[n.hom](o.nested(), x);
    ops.push_back(sdd::cons<C>(o, y, ind_next<Kind>(i.t, n.state)));
  }
  if (ops.empty()) return sdd::constant<C>(sdd::zero<C>());
  return sdd::sum<C>(o, ops.begin(), ops.end());
}

inline SDD ind_end(const IndBase& i)
{
  user_call();
  return i.t->accept[i.state] ? sdd::one<C>() : sdd::zero<C>();
}

#define VF_IND_COMMON(K)                                                                            \
  Hom operator()(const Order& o, const SDD& x) const { return ind_nested<K>(*this, o, x); }          \
  Hom operator()(const Order& o, const Values& v) const { return ind_flat<K>(*this, o, v); }         \
  SDD operator()() const { return ind_end(*this); }

template <> struct Ind<0> : IndBase { VF_IND_COMMON(0) };
template <> struct Ind<1> : IndBase { VF_IND_COMMON(1) bool skip(const Id& id) const noexcept { return t->skipped.count(id); } };
template <> struct Ind<2> : IndBase { VF_IND_COMMON(2) bool selector() const noexcept { return t->selector; } };
template <> struct Ind<3> : IndBase { VF_IND_COMMON(3) bool skip(const Id& id) const noexcept { return t->skipped.count(id); } bool selector() const noexcept { return t->selector; } };

template <int K> bool operator==(const Ind<K>& l, const Ind<K>& r) { return l.eq(r); }

} // namespace
} // namespace md

namespace std {
// Equal objects have equal hashes; some are poor on purpose, to exercise collisions.
template <int K> struct hash<md::Fn<K>>
{
  std::size_t operator()(const md::Fn<K>& f) const noexcept { return md::table_hash(*f.t, static_cast<int>(f.t->m.size() % 3)); }
};
template <int K> struct hash<md::Ind<K>>
{
  std::size_t operator()(const md::Ind<K>& i) const noexcept { return i.t->hash_mode ? 42 : static_cast<std::size_t>(i.t->tag * 16 + i.state); }
};
}

namespace md {
namespace {

template <int Kind>
Hom ind_next(const std::shared_ptr<const Transducer>& t, int state)
{
  Ind<Kind> i;
  i.t = t;
  i.state = state;
  return sdd::inductive<C>(i);
}

/*------------------------------------------------------------------------------------------------*/
// Expressions.

using Ref = std::function<Set (const Set&)>;

struct E
{
  Hom h;
  Ref ref;
  bool linear;     // distributes over union
  bool selector;   // subset of the operand, by construction of the reference
  std::string txt;
};

// Elementwise reference.
inline Ref elementwise(std::function<void (const Word&, Set&)> f)
{
  auto memo = std::make_shared<std::map<Word, Set>>();
  return [f, memo](const Set& s)
  {
    Set r;
    for (const auto& w : s)
    {
      auto it = memo->find(w);
      if (it == memo->end())
      {
        Set x;
        f(w, x);
        normalize(x);
        it = memo->emplace(w, std::move(x)).first;
      }
      r.insert(r.end(), it->second.begin(), it->second.end());
    }
    normalize(r);
    return r;
  };
}

struct Scope
{
  const Shape* shape;
  std::shared_ptr<Order> ord; // standalone order of this scope
  int leaves;
  std::vector<int> start;     // first flat position of each level
  std::vector<std::shared_ptr<Scope>> sub;
  bool has_artificial;        // some level of this very scope is artificial
  std::vector<E> pool;        // expressions made for this scope
};

inline std::shared_ptr<Scope> make_scope(const Shape& s, std::shared_ptr<Order> ord = nullptr)
{
  auto r = std::make_shared<Scope>();
  r->shape = &s;
  r->ord = ord ? ord : std::make_shared<Order>(make_builder(s));
  r->leaves = 0;
  r->has_artificial = false;
  for (const auto& l : s)
  {
    r->start.push_back(r->leaves);
    r->leaves += l.leaves;
    r->sub.push_back(l.sub.empty() ? nullptr : make_scope(l.sub));
    r->has_artificial |= l.artificial;
  }
  return r;
}

// Flat positions with their identifier.
inline void flat_ids(const Shape& s, std::vector<int>& ids)
{
  for (const auto& l : s) { if (l.sub.empty()) ids.push_back(l.id); else flat_ids(l.sub, ids); }
}

struct GenOpts
{
  int depth = 3;
  bool nonlinear = true;      // intersection of non-selectors, at the top scope only
  bool inductive = true;
  bool constant = true;
  bool fixpoint = true;
  std::size_t universe = 1000;
};

class HomGen
{
public:

  G& g;
  const World& w;
  GenOpts opts;
  std::shared_ptr<Scope> top;
  int tags = 0;
  int nodes = 0;

  HomGen(G& g_, const World& w_, GenOpts o)
    : g(g_), w(w_), opts(o), top(make_scope(w.shape, w.ord))
  {}

  E expr() { return expr(*top, opts.depth, opts.nonlinear); }

  E identity() { return E{sdd::id<C>(), [](const Set& s) { return s; }, true, true, "id"}; }

  E function(Scope& s, TKind k)
  {
    std::vector<int> ids;
    flat_ids(*s.shape, ids);
    const int pos = static_cast<int>(g.below(ids.size()));
    return function_at(s, ids, pos, gen_table(g, w.alpha, k));
  }

  E function_at(Scope& s, const std::vector<int>& ids, int pos, const Table& t)
  {
    const Hom h = make_function(g, *s.ord, ident(ids[pos]), t, w.alpha);
    return E{h, elementwise([t, pos](const Word& x, Set& out)
                            {
                              for (auto v : t(x[pos])) { Word y = x; y[pos] = v; out.push_back(y); }
                            })
            , true, t.is_selector(), "f(" + std::to_string(ids[pos]) + "," + t.show() + ")"};
  }

  E local(Scope& s, int lvl, const E& e)
  {
    const Level& l = (*s.shape)[lvl];
    const int b = s.start[lvl], n = l.leaves;
    const Hom h = l.artificial
                ? sdd::local<C>(static_cast<C::variable_type>(s.shape->size() - 1 - lvl), e.h)
                : sdd::local<C>(ident(l.id), *s.ord, e.h);
    const Ref r = e.ref;
    return E{h, elementwise([r, b, n](const Word& x, Set& out)
                            {
                              for (const auto& y : r(Set{x.substr(b, n)})) out.push_back(x.substr(0, b) + y + x.substr(b + n));
                            })
            , true, e.selector, "@" + std::to_string(l.id) + "(" + e.txt + ")"};
  }

  // e is over the scope that contains flat identifier ids[pos] directly... through carrier.
  E inductive(Scope& s, bool want_selector)
  {
    auto t = std::make_shared<Transducer>();
    t->tag = ++tags;
    t->hash_mode = g.chance(30);
    t->states = g.range(1, 3);
    const bool use_skip = !s.has_artificial && g.chance(50);
    for (int q = 0; q < t->states; ++q) t->accept.push_back(t->states == 1 ? !g.chance(5) : g.below(3) != 2);
    bool all_sel = true;
    const int n = static_cast<int>(s.shape->size());
    for (int lvl = 0; lvl < n; ++lvl)
    {
      const Level& l = (*s.shape)[lvl];
      Transducer::At at;
      at.skip = use_skip && g.below(2) == 0;
      if (at.skip) t->skipped.insert(ident(l.id));
      else
      {
        const int style = g.range(0, 3); // 0: identity, states may change; 1: filter; 2,3: anything
        for (int q = 0; q < t->states; ++q)
        {
          std::map<unsigned, Transducer::Flat> f;
          std::vector<Transducer::Nested> ne;
          if (l.sub.empty())
          {
            for (auto v : w.alpha)
            {
              Transducer::Flat fl;
              const int q2 = static_cast<int>(g.below(t->states));
              if (style == 0) fl.to.push_back({v, q2});
              else if (style == 1 || want_selector) { if (g.below(4) != 3) fl.to.push_back({v, q2}); }
              else
              {
                for (int k = 0, m = g.range(0, 2); k < m; ++k) fl.to.push_back({g.pick(w.alpha), static_cast<int>(g.below(t->states))});
                for (const auto& p : fl.to) if (p.first != v) all_sel = false;
              }
              if (!fl.to.empty()) f[v] = fl;
            }
          }
          else
          {
            for (int k = 0, m = style == 0 ? 1 : g.range(0, 2); k < m; ++k)
            {
              Transducer::Nested nn{-1, static_cast<int>(g.below(t->states))};
              if (style >= 2 && g.chance(60))
              {
                const E e = leaf(*s.sub[lvl], want_selector);
                t->homs.push_back(e.h);
                t->refs.push_back(e.ref);
                nn.hom = static_cast<int>(t->homs.size()) - 1;
                if (!e.selector) all_sel = false;
              }
              ne.push_back(nn);
            }
          }
          at.flat.push_back(f);
          at.nested.push_back(ne);
        }
      }
      t->at[n - 1 - lvl] = at;
    }
    t->selector = all_sel;
    const int kind = use_skip ? (g.below(2) ? 3 : 1) : (g.below(2) ? 2 : 0);
    Hom h = sdd::id<C>();
    switch (kind)
    {
      case 0: h = ind_next<0>(t, 0); break;
      case 1: h = ind_next<1>(t, 0); break;
      case 2: h = ind_next<2>(t, 0); break;
      default: h = ind_next<3>(t, 0);
    }
    const Shape* sp = s.shape; // owned by the world
    const std::vector<int> start = s.start;
    std::shared_ptr<const Transducer> ct = t;
    const bool sel = all_sel && (kind == 2 || kind == 3);
    return E{h, elementwise([ct, sp, start, n](const Word& x, Set& out)
                            {
                              std::set<std::pair<Word, int>> cur{{Word(), 0}};
                              for (int lvl = 0; lvl < n; ++lvl)
                              {
                                const Level& l = (*sp)[lvl];
                                const Word part = x.substr(start[lvl], l.leaves);
                                const auto& at = ct->at.at(n - 1 - lvl);
                                std::set<std::pair<Word, int>> nxt;
                                for (const auto& c : cur)
                                {
                                  if (at.skip) { nxt.insert({c.first + part, c.second}); continue; }
                                  if (l.sub.empty())
                                  {
                                    const auto it = at.flat[c.second].find(part[0]);
                                    if (it == at.flat[c.second].end()) continue;
                                    for (const auto& p : it->second.to) nxt.insert({c.first + Word(1, p.first), p.second});
                                  }
                                  else
                                  {
                                    for (const auto& ne : at.nested[c.second])
                                    {
                                      const Set img = ne.hom < 0 ? Set{part} : ct->refs[ne.hom](Set{part});
                                      for (const auto& y : img) nxt.insert({c.first + y, ne.state});
                                    }
                                  }
                                }
                                cur.swap(nxt);
                              }
                              for (const auto& c : cur) if (ct->accept[c.second]) out.push_back(c.first);
                            })
            , true, sel, "ind" + std::to_string(kind) + "#" + std::to_string(t->tag)};
  }

  E constant(Scope& s)
  {
    Set v;
    for (int i = 0, n = g.range(1, 3); i < n; ++i)
    {
      Word x;
      for (int k = 0; k < s.leaves; ++k) x.push_back(g.pick(w.alpha));
      v.push_back(x);
    }
    normalize(v);
    const Hom h = sdd::constant<C>(build_canonical(*s.shape, 0, v));
    return E{h, [v](const Set& x) { return x.empty() ? Set{} : v; }, true, false, "const" + show(v)};
  }

  E leaf(Scope& s, bool selector)
  {
    ++nodes;
    if (selector)
    {
      switch (g.range(0, 5))
      {
        case 4: return identity();
        case 5: if (opts.inductive) { E e = inductive(s, true); if (e.selector) return e; }
        default: return function(s, TKind::selector);
      }
    }
    switch (g.range(0, 11))
    {
      case 0: case 1: return function(s, TKind::selector);
      case 2: case 3: return function(s, TKind::shifter);
      case 4: case 5: case 6: return function(s, TKind::any);
      case 7: return identity();
      case 8: case 9: return opts.inductive ? inductive(s, false) : function(s, TKind::any);
      case 10: if (opts.constant && g.chance(40)) return constant(s);
      default:
      {
        for (std::size_t i = 0; i < s.sub.size(); ++i)
        {
          if (s.sub[i]) { const E e = leaf(*s.sub[i], false); return local(s, static_cast<int>(i), e); }
        }
        return function(s, TKind::any);
      }
    }
  }

  E selector_expr(Scope& s, int depth)
  {
    if (depth <= 0) return leaf(s, true);
    switch (g.range(0, 4))
    {
      case 0: return leaf(s, true);
      case 1: return compose(selector_expr(s, depth - 1), selector_expr(s, depth - 1));
      case 2: return sum(s, {selector_expr(s, depth - 1), selector_expr(s, depth - 1)});
      case 3: return intersection(s, {selector_expr(s, depth - 1), selector_expr(s, depth - 1)});
      default:
      {
        std::vector<int> hier;
        for (std::size_t i = 0; i < s.sub.size(); ++i) if (s.sub[i]) hier.push_back(static_cast<int>(i));
        if (hier.empty()) return leaf(s, true);
        const int l = g.pick(hier);
        const E e = selector_expr(*s.sub[l], depth - 1);
        return local(s, l, e);
      }
    }
  }

  E compose(const E& a, const E& b)
  {
    const Ref ra = a.ref, rb = b.ref;
    return E{sdd::composition<C>(a.h, b.h), [ra, rb](const Set& x) { return ra(rb(x)); }
            , a.linear && b.linear, a.selector && b.selector, "(" + a.txt + " o " + b.txt + ")"};
  }

  E sum(Scope& s, const std::vector<E>& es)
  {
    std::vector<Hom> hs;
    std::vector<Ref> rs;
    bool lin = true, sel = true;
    std::string t = "(";
    for (const auto& e : es)
    {
      hs.push_back(e.h);
      rs.push_back(e.ref);
      lin &= e.linear;
      sel &= e.selector;
      t += (t.size() > 1 ? " + " : "") + e.txt;
    }
    const Hom h = hs.size() == 2 && g.below(2) ? sdd::sum<C>(*s.ord, {hs[0], hs[1]}) : sdd::sum<C>(*s.ord, hs.begin(), hs.end());
    return E{h, [rs](const Set& x) { Set r; for (const auto& f : rs) r = set_union(r, f(x)); return r; }, lin, sel, t + ")"};
  }

  E intersection(Scope& s, const std::vector<E>& es)
  {
    std::vector<Hom> hs;
    std::vector<Ref> rs;
    bool sel = true;
    std::string t = "(";
    for (const auto& e : es)
    {
      hs.push_back(e.h);
      rs.push_back(e.ref);
      sel &= e.selector;
      t += (t.size() > 1 ? " & " : "") + e.txt;
    }
    const Hom h = sdd::intersection<C>(*s.ord, hs.begin(), hs.end());
    return E{h, [rs](const Set& x) { Set r = rs[0](x); for (const auto& f : rs) r = set_inter(r, f(x)); return r; }
            , sel || es.size() == 1, sel, t + ")"};
  }

  E ite(const E& p, const E& a, const E& b)
  {
    const Ref rp = p.ref, ra = a.ref, rb = b.ref;
    return E{sdd::if_then_else<C>(p.h, a.h, b.h)
            , [rp, ra, rb](const Set& x) { const Set y = rp(x); return set_union(ra(y), rb(set_minus(x, y))); }
            , a.linear && b.linear, a.selector && b.selector, "ite(" + p.txt + "," + a.txt + "," + b.txt + ")"};
  }

  E fix(const E& e)
  {
    const Ref r = e.ref;
    return E{sdd::fixpoint<C>(e.h)
            , [r](const Set& x)
              {
                Set cur = x;
                for (int i = 0; i < 20000; ++i)
                {
                  Set n = r(cur);
                  if (n == cur) return cur;
                  cur.swap(n);
                }
                throw vf::Discard{};
              }
            , e.linear, e.selector, "fix" + e.txt};
  }

  // A fixpoint without the identity: its limit exists for each word taken alone (else the case is abandoned), thus for
  // every part of a set the library may consider.
  E limit(const E& e)
  {
    const Ref r = e.ref;
    return E{sdd::fixpoint<C>(e.h)
            , elementwise([r](const Word& w, Set& out)
              {
                Set cur{w};
                for (int i = 0; i < 500; ++i)
                {
                  Set n = r(cur);
                  if (n == cur) { out = cur; return; }
                  cur.swap(n);
                }
                throw vf::Discard{};
              })
            , true, e.selector, "lim" + e.txt};
  }

  // Only ever increases values (in the order of the alphabet), or drops the word.
  Table increasing()
  {
    const auto& a = w.alpha;
    const int n = static_cast<int>(a.size());
    Table t;
    switch (g.range(0, 3))
    {
      case 0: for (int i = 0; i < n; ++i) t.m[a[i]] = {a[std::min(i + 1, n - 1)]}; break;
      case 1: { const int c = g.range(0, n - 1); for (int i = 0; i < n; ++i) t.m[a[i]] = {a[std::max(i, c)]}; break; }
      case 2: for (int i = 0; i + 1 < n; ++i) t.m[a[i]] = {a[g.range(i, n - 1)]}; break;
      default:
        for (int i = 0; i < n; ++i)
        {
          std::vector<unsigned> o;
          for (int k = i; k < n; ++k) if (g.below(2)) o.push_back(a[k]);
          t.m[a[i]] = o;
        }
    }
    return t;
  }

  E increasing_expr(Scope& s, int depth)
  {
    ++nodes;
    std::vector<int> ids;
    flat_ids(*s.shape, ids);
    switch (depth <= 0 ? 0 : g.range(0, 6))
    {
      case 1: return compose(increasing_expr(s, depth - 1), increasing_expr(s, depth - 1));
      case 2: return sum(s, {increasing_expr(s, depth - 1), increasing_expr(s, depth - 1)});
      case 3:
      {
        const E p = function(s, TKind::selector);
        if (!p.h.selector()) return p;
        return ite(p, increasing_expr(s, depth - 1), increasing_expr(s, depth - 1));
      }
      case 4: return limit(increasing_expr(s, depth - 1));
      case 5:
        for (std::size_t i = 0; i < s.sub.size(); ++i)
          if (s.sub[i]) { const E e = increasing_expr(*s.sub[i], depth - 1); return local(s, static_cast<int>(i), e); }
      default: return function_at(s, ids, static_cast<int>(g.below(ids.size())), increasing());
    }
  }

  E rewritten(Scope& s, const E& e)
  {
    E r = e;
    r.h = sdd::rewrite<C>(*s.ord, e.h);
    r.txt = "rw" + e.txt;
    return r;
  }

  E expr(Scope& s, int depth, bool nonlinear)
  {
    E e = expr_impl(s, depth, nonlinear);
    if (s.pool.size() < 8) s.pool.push_back(e);
    return e;
  }

  E expr_impl(Scope& s, int depth, bool nonlinear)
  {
    if (nodes > 60 || depth <= 0) return leaf(s, false);
    if (!s.pool.empty() && g.chance(12))
    {
      const E& p = g.pick(s.pool);
      if (p.linear || nonlinear) return p;
    }
    const bool nl = nonlinear;
    switch (g.range(0, 11))
    {
      case 0: return leaf(s, false);
      case 1: case 2: return compose(expr(s, depth - 1, nl), expr(s, depth - 1, nl));
      case 3: case 4: return sum(s, many(s, depth, nl));
      case 5:
        if (nl) return intersection(s, many(s, depth, nl));
        return intersection(s, {selector_expr(s, depth - 1), selector_expr(s, depth - 1)});
      case 6:
      {
        E p = selector_expr(s, depth - 1);
        if (!p.h.selector()) p = function(s, TKind::selector);
        if (!p.h.selector()) return leaf(s, false);
        return ite(p, expr(s, depth - 1, false), expr(s, depth - 1, false));
      }
      case 7: case 8:
        if (opts.fixpoint) return extensive_fixpoint(s, depth, nl);
        return leaf(s, false);
      case 9:
        if (opts.fixpoint && g.chance(40)) return g.chance(60) ? limit(increasing_expr(s, depth)) : fix(selector_expr(s, depth - 1));
        return rewritten(s, expr(s, depth - 1, nl));
      default:
      {
        std::vector<int> hier;
        for (std::size_t i = 0; i < s.sub.size(); ++i) if (s.sub[i]) hier.push_back(static_cast<int>(i));
        if (hier.empty()) return compose(expr(s, depth - 1, nl), expr(s, depth - 1, nl));
        const int l = g.pick(hier);
        const E e = expr(*s.sub[l], depth - 1, false);
        return local(s, l, e);
      }
    }
  }

  E extensive_fixpoint(Scope& s, int depth, bool nl)
  {
    std::vector<E> es;
    es.push_back(identity());
    for (int i = 0, n = g.range(1, 4); i < n; ++i) es.push_back(transition(s, depth - 1, nl));
    g.shuffle(es);
    return fix(sum(s, es));
  }

  // What a user typically puts in a fixpoint.
  E transition(Scope& s, int depth, bool nl)
  {
    switch (g.range(0, 4))
    {
      case 0: return function(s, TKind::any);
      case 1: return compose(function(s, TKind::shifter), function(s, TKind::selector));
      case 2: return compose(function(s, TKind::any), compose(function(s, TKind::any), function(s, TKind::selector)));
      default: return expr(s, depth, nl);
    }
  }

  std::vector<E> many(Scope& s, int depth, bool nl)
  {
    std::vector<E> es;
    for (int i = 0, n = g.range(2, 4); i < n; ++i) es.push_back(expr(s, depth - 1, nl));
    return es;
  }
};

inline Set apply_ref(const E& e, const Set& x) { return x.empty() ? Set{} : e.ref(x); }

} // namespace
} // namespace md
