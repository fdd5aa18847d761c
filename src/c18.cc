// C18 -- textual and graph exports determine the object printed.
#include "model.hh"

#include "sdd/order/strategies/force_hypergraph.hh"
#include "sdd/tools/dot/force_hypergraph.hh"
#include "sdd/tools/dot/sdd.hh"

#if VF_CONF == 1
namespace vf {
const char* const property_id = "C18";
const char* const rule =
  "case = a random diagram over a random nested order (text), over a random flat order (graph), a random order, value set "
  "or hypergraph, printed and read back by our own parsers; the object read must be the one printed, node by node and arc "
  "by arc for diagrams. Non-trivial: at least 3 words in the diagram, 4 levels in the order, 3 values in the set, or 3 "
  "hyperedges.";
}
#endif

using namespace md;
namespace {

struct Parse
{
  G& g;
  const std::string& t;
  std::size_t p = 0;

  [[noreturn]] void bad(const std::string& what) { VF_FAIL(g, "can't read back, " << what << " expected at " << p << " of: " << t.substr(0, 400)); }
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n')) ++p; }
  bool is(const std::string& s) { ws(); return t.compare(p, s.size(), s) == 0; }
  void eat(const std::string& s) { if (!is(s)) bad("'" + s + "'"); p += s.size(); }
  unsigned long num()
  {
    ws();
    std::size_t b = p;
    while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p;
    if (b == p) bad("a number");
    return std::stoul(t.substr(b, p - b));
  }
  // {1,2..5}
  std::vector<unsigned> values()
  {
    std::vector<unsigned> r;
    eat("{");
    if (is("}")) { eat("}"); return r; }
    for (;;)
    {
      const auto a = num();
      if (is(".."))
      {
        eat("..");
        const auto b = num();
        if (b < a || b - a > 1000) bad("an interval");
        for (auto i = a; i <= b; ++i) r.push_back(static_cast<unsigned>(i));
      }
      else r.push_back(static_cast<unsigned>(a));
      if (!is(",")) break;
      eat(",");
    }
    eat("}");
    return r;
  }
  struct N; // a diagram as printed
  using NP = std::shared_ptr<N>;
  struct Arc { std::vector<unsigned> vals; NP nested; NP succ; };
  struct N { int term = -1; unsigned var = 0; std::vector<Arc> arcs; };
  NP node()
  {
    auto n = std::make_shared<N>();
    if (is("|0|")) { eat("|0|"); n->term = 0; return n; }
    if (is("|1|")) { eat("|1|"); n->term = 1; return n; }
    n->var = static_cast<unsigned>(num());
    eat("[");
    for (;;)
    {
      Arc a;
      if (is("{")) a.vals = values(); else a.nested = node();
      eat("-->");
      a.succ = node();
      n->arcs.push_back(a);
      if (is("]")) break;
      eat("||");
    }
    eat("]");
    return n;
  }
  void end() { ws(); if (p != t.size()) bad("the end"); }
};

// Compare what was printed with the diagram, node by node and arc by arc (in any order).
struct Same
{
  G& g;
  bool operator()(const Parse::NP& n, const SDD& x) { return sdd::visit(V{*this, n}, x); }
  struct V
  {
    Same& s;
    const Parse::NP& n;
    bool operator()(const sdd::zero_terminal<C>&) const { return n->term == 0; }
    bool operator()(const sdd::one_terminal<C>&) const { return n->term == 1; }
    bool operator()(const sdd::flat_node<C>& f) const
    {
      if (n->term >= 0 || n->var != f.variable() || n->arcs.size() != f.size()) return false;
      for (const auto& a : f)
      {
        int k = 0;
        for (const auto& b : n->arcs) if (!b.nested && b.vals == vt::elems(a.valuation())) { ++k; if (!s(b.succ, a.successor())) return false; }
        if (k != 1) return false;
      }
      return true;
    }
    bool operator()(const sdd::hierarchical_node<C>& f) const
    {
      if (n->term >= 0 || n->var != f.variable() || n->arcs.size() != f.size()) return false;
      for (const auto& a : f)
      {
        int k = 0;
        for (const auto& b : n->arcs) if (b.nested && s(b.nested, a.valuation())) { ++k; if (!s(b.succ, a.successor())) return false; }
        if (k != 1) return false;
      }
      return true;
    }
  };
};

template <typename T> std::string text(const T& x) { std::ostringstream os; os << x; return os.str(); }

void diagrams(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  const World w = gen_world(g, so, 4, 800);
  auto m = sdd::init<C>(gen_conf(g));
  const Set s = gen_set(g, w, 25);
  const SDD x = build(g, w, s);
  const std::string t = text(x);
  Parse p{g, t};
  const auto n = p.node();
  p.end();
  VF_CHECK(g, Same{g}(n, x), "the diagram read back isn't the one printed: " << t);
  // And two different diagrams are printed differently.
  const Set s2 = gen_set(g, w, 25);
  const SDD y = build(g, w, s2);
  VF_CHECK(g, (text(y) == t) == (s == s2), "two diagrams are printed alike: " << t);
  g.desc << show(w) << " " << t.substr(0, 150);
  if (s.size() >= 3) g.nontrivial();
}

void values(G& g)
{
  auto m = sdd::init<C>(roomy_conf());
  auto vs = gen_alphabet(g, 1, 12);
  if (g.chance(5)) vs.clear();
  const Values v = mkv(vs);
  const std::string t = text(v);
  Parse p{g, t};
  const auto r = p.values();
  p.end();
  VF_CHECK(g, r == vs, "the value set read back isn't the one printed: " << t);
  g.desc << t.substr(0, 150);
  if (vs.size() >= 3) g.nontrivial();
}

/*------------------------------------------------------------------------------------------------*/

void orders(G& g)
{
  ShapeOpts so;
  so.max_leaves = g.oneof<int>({6, 20, 60});
  so.max_depth = 5;
  const Shape s = gen_shape(g, so);
  const Order o(make_builder(s));
  const std::string t = text(o);
  // Expected lines, with the artificial identifiers of the order.
  std::istringstream is(t);
  std::string line;
  std::vector<std::pair<std::size_t, Shape const*>> none;
  struct R { std::size_t indent; std::string id; unsigned var; };
  std::vector<R> lines;
  while (std::getline(is, line))
  {
    R r;
    r.indent = line.find_first_not_of(' ');
    const auto b = line.rfind(" (");
    VF_CHECK(g, r.indent != std::string::npos && b != std::string::npos && line.back() == ')', "can't read back: " << line);
    r.id = line.substr(r.indent, b - r.indent);
    r.var = static_cast<unsigned>(std::stoul(line.substr(b + 2)));
    lines.push_back(r);
  }
  std::size_t k = 0;
  std::set<std::string> arts;
  std::function<void (const Shape&, long)> walk = [&](const Shape& sh, long parent)
  {
    long here = -1;
    for (std::size_t i = 0; i < sh.size(); ++i)
    {
      VF_CHECK(g, k < lines.size(), "the order is printed with too few lines:\n" << t);
      const R& r = lines[k++];
      if (here < 0) here = static_cast<long>(r.indent);
      VF_CHECK(g, static_cast<long>(r.indent) == here && here > parent, "the nesting can't be read back:\n" << t);
      VF_CHECK(g, r.var == sh.size() - 1 - i, "variable of " << r.id << " in:\n" << t);
      if (sh[i].artificial)
      {
        VF_CHECK(g, r.id.size() > 2 && r.id.front() == '@' && r.id.back() == '@', "artificial identifier printed as " << r.id);
        VF_CHECK(g, arts.insert(r.id).second, "two artificial identifiers are printed alike");
      }
      else VF_CHECK(g, r.id == text(ident(sh[i].id)), "identifier printed as " << r.id);
      walk(sh[i].sub, here);
    }
  };
  walk(s, -1);
  VF_CHECK(g, k == lines.size(), "the order is printed with too many lines:\n" << t);
  // Sub-orders are printed alone.
  if (s.size() > 1) VF_CHECK(g, text(o.next()) == t.substr(t.find([&] { std::ostringstream os; os << o.next().identifier() << " (" << o.next().variable() << ")"; return os.str(); }())), "next order printed");
  g.desc << show(s).substr(0, 150);
  if (count_levels(s) >= 4) g.nontrivial();
}

/*------------------------------------------------------------------------------------------------*/

struct Dot
{
  std::map<std::string, std::map<std::string, std::string>> nodes;
  struct E { std::string a, b; std::map<std::string, std::string> attr; };
  std::vector<E> edges;
  std::vector<std::string> node_order;

  Dot(G& g, const std::string& t, const std::string& head, const std::string& arrow)
  {
    std::istringstream is(t);
    std::string line;
    std::getline(is, line);
    VF_CHECK(g, line.compare(0, head.size(), head) == 0 && line.find('{') != std::string::npos, "first line: " << line);
    bool closed = false;
    while (std::getline(is, line))
    {
      while (!line.empty() && (line.back() == ' ' || line.back() == ';')) line.pop_back();
      if (line.empty()) continue;
      VF_CHECK(g, !closed, "text after the end: " << line);
      if (line == "}") { closed = true; continue; }
      std::map<std::string, std::string> attr;
      std::string lhs = line;
      const auto br = line.find('[');
      if (br != std::string::npos)
      {
        VF_CHECK(g, line.back() == ']', "line: " << line);
        lhs = line.substr(0, br);
        std::string a = line.substr(br + 1, line.size() - br - 2);
        std::size_t i = 0;
        while (i < a.size())
        {
          const auto eq = a.find('=', i);
          VF_CHECK(g, eq != std::string::npos, "attributes: " << line);
          const std::string key = a.substr(i, eq - i);
          std::string v;
          i = eq + 1;
          if (i < a.size() && a[i] == '"') { const auto e = a.find('"', i + 1); VF_CHECK(g, e != std::string::npos, "attributes: " << line); v = a.substr(i + 1, e - i - 1); i = e + 1; }
          else { const auto e = a.find(',', i); v = a.substr(i, e == std::string::npos ? e : e - i); i = e == std::string::npos ? a.size() : e; }
          attr[key] = v;
          if (i < a.size() && a[i] == ',') ++i;
          while (i < a.size() && a[i] == ' ') ++i;
        }
      }
      auto trim = [](std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); while (!s.empty() && s.front() == ' ') s.erase(0, 1); return s; };
      const auto ar = lhs.find(" " + arrow + " ");
      if (ar == std::string::npos)
      {
        const std::string n = trim(lhs);
        VF_CHECK(g, nodes.emplace(n, attr).second, "vertex " << n << " is declared twice");
        node_order.push_back(n);
      }
      else edges.push_back(E{trim(lhs.substr(0, ar)), trim(lhs.substr(ar + arrow.size() + 2)), attr});
    }
    VF_CHECK(g, closed, "unterminated graph");
    for (const auto& e : edges) VF_CHECK(g, nodes.count(e.a) && nodes.count(e.b), "an edge between undeclared vertices " << e.a << " " << e.b);
  }
};

struct Collect
{
  std::vector<SDD> seen;
  std::size_t arcs = 0;
  struct V
  {
    Collect& c;
    int operator()(const sdd::zero_terminal<C>&) const { return 0; }
    int operator()(const sdd::one_terminal<C>&) const { return 0; }
    template <typename N> int operator()(const N& n) const { for (const auto& a : n) { ++c.arcs; c.go(a.successor()); } return 0; }
  };
  void go(const SDD& x)
  {
    for (const auto& y : seen) if (x == y) return;
    seen.push_back(x);
    sdd::visit(V{*this}, x);
  }
};

void graphs(G& g)
{
  ShapeOpts so;
  so.max_leaves = 6;
  so.max_depth = 1;
  const World w = gen_world(g, so, 4, 800);
  auto m = sdd::init<C>(gen_conf(g));
  const Set s = gen_set(g, w, 30);
  const SDD x = build(g, w, s);
  const std::string t = text(sdd::tools::dot(x, w.order()));
  VF_CHECK(g, text(sdd::tools::dot(x, w.order())) == t, "exporting twice gives different texts");
  const Dot d(g, t, "digraph", "->");
  Collect c;
  c.go(x);
  VF_CHECK(g, d.nodes.size() == c.seen.size(), d.nodes.size() << " vertices for " << c.seen.size() << " nodes:\n" << t);
  VF_CHECK(g, d.edges.size() == c.arcs, d.edges.size() << " edges for " << c.arcs << " arcs:\n" << t);
  // The root has no predecessor.
  std::set<std::string> roots;
  for (const auto& n : d.nodes) roots.insert(n.first);
  for (const auto& e : d.edges) roots.erase(e.b);
  VF_CHECK(g, roots.size() == 1, roots.size() << " roots:\n" << t);
  std::function<Set (const std::string&, std::size_t)> words_of = [&](const std::string& n, std::size_t lvl) -> Set
  {
    const auto& attr = d.nodes.at(n);
    const auto lab = attr.find("label");
    VF_CHECK(g, lab != attr.end(), "vertex without label:\n" << t);
    if (attr.count("shape"))
    {
      VF_CHECK(g, lab->second == "0" || lab->second == "1", "terminal label " << lab->second);
      if (lab->second == "0") return Set{};
      VF_CHECK(g, lvl == w.shape.size(), "|1| reached too early:\n" << t);
      return Set{Word()};
    }
    VF_CHECK(g, lvl < w.shape.size() && lab->second == text(ident(w.shape[lvl].id)), "label " << lab->second << " at level " << lvl << ":\n" << t);
    Set r;
    for (const auto& e : d.edges)
    {
      if (e.a != n) continue;
      const auto l = e.attr.find("label");
      VF_CHECK(g, l != e.attr.end(), "edge without label:\n" << t);
      Parse p{g, l->second};
      const auto vs = p.values();
      p.end();
      for (const auto& tail : words_of(e.b, lvl + 1)) for (auto v : vs) r.push_back(Word(1, v) + tail);
    }
    const std::size_t k = r.size();
    normalize(r);
    VF_CHECK(g, r.size() == k, "two paths with the same assignment:\n" << t);
    return r;
  };
  VF_CHECK(g, words_of(*roots.begin(), 0) == s, "the graph read back isn't the diagram exported (" << show(s) << "):\n" << t);
  g.desc << show(w) << " graph of " << d.nodes.size() << " vertices, " << d.edges.size() << " edges";
  if (s.size() >= 3) g.nontrivial();
}

void hypergraphs(G& g)
{
  const int n = g.range(1, 10);
  std::vector<Id> ids;
  for (int i = 0; i < n; ++i) ids.push_back(ident(i));
  sdd::force::hypergraph<C> hg(ids.begin(), ids.end());
  std::vector<std::multiset<std::string>> edges;
  for (int i = 0, m = g.range(0, 8); i < m; ++i)
  {
    std::vector<Id> e;
    std::multiset<std::string> s;
    for (int k = 0, q = g.range(1, 4); k < q; ++k) { e.push_back(g.pick(ids)); s.insert("v" + text(e.back())); }
    hg.add_hyperedge(e.begin(), e.end());
    edges.push_back(s);
  }
  const std::string t = text(sdd::tools::dot(hg));
  const Dot d(g, t, "graph", "--");
  std::map<std::string, std::multiset<std::string>> got;
  std::size_t vertices = 0;
  for (const auto& x : d.nodes)
  {
    if (x.second.count("shape")) got[x.first];
    else { ++vertices; VF_CHECK(g, x.second.count("label") && x.first == "v" + x.second.at("label"), "vertex " << x.first); }
  }
  VF_CHECK(g, vertices == ids.size(), vertices << " vertices for " << ids.size() << " identifiers:\n" << t);
  for (const auto& id : ids) VF_CHECK(g, d.nodes.count("v" + text(id)), "identifier " << id << " isn't exported");
  for (const auto& e : d.edges) { VF_CHECK(g, got.count(e.a), "edge from " << e.a); got[e.a].insert(e.b); }
  std::vector<std::multiset<std::string>> r;
  for (const auto& x : got) r.push_back(x.second);
  std::sort(r.begin(), r.end());
  std::sort(edges.begin(), edges.end());
  VF_CHECK(g, r == edges, "the hyperedges read back aren't the ones exported:\n" << t);
  g.desc << n << " vertices " << edges.size() << " hyperedges";
  if (edges.size() >= 3) g.nontrivial();
}

VF_CASE("diagrams/" VF_CONF_NAME, 40, diagrams);
VF_CASE("values/" VF_CONF_NAME, 10, values);
VF_CASE("orders/" VF_CONF_NAME, 20, orders);
VF_CASE("graphs/" VF_CONF_NAME, 40, graphs);
VF_CASE("hypergraphs/" VF_CONF_NAME, 10, hypergraphs);

} // namespace
