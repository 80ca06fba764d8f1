// G01: graph algorithms against definitions computed from a plain adjacency-set model.
#include "lib/Utils/Graph/Graph.h"
#include "mon.h"
using namespace mlir::heir::graph;
using mon::S;

namespace {
struct Model {
  std::set<int> v;
  std::set<std::pair<int, int>> e;
  std::string s() const {
    S o;
    o << "V=" << std::vector<int>(v.begin(), v.end()) << " E=";
    for (auto [a, b] : e) o << a << ">" << b << " ";
    return o;
  }
};

std::map<int, std::set<int>> reach(const Model &m) {
  std::map<int, std::set<int>> out, r;
  for (auto [a, b] : m.e) out[a].insert(b);
  for (int s : m.v) {
    std::vector<int> st{s};
    r[s].insert(s);
    while (!st.empty()) {
      int x = st.back(); st.pop_back();
      for (int y : out[x]) if (r[s].insert(y).second) st.push_back(y);
    }
  }
  return r;
}

void build(const Model &m, Graph<int> &g) {
  for (int x : m.v) g.addVertex(x);
  for (auto [a, b] : m.e) g.addEdge(a, b);
}

Model randomGraph(mon::Case &c, int maxN, bool dag, bool self = false) {
  Model m;
  int n = c.rng.in(1, maxN);
  std::vector<int> ids;
  while ((int)ids.size() < n) {
    int x = c.rng.in(-50, 200);
    if (m.v.insert(x).second) ids.push_back(x);
  }
  c.rng.shuffle(ids);
  double p = c.rng.pick({0.05, 0.1, 0.2, 0.35, 0.6});
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if ((i != j || (self && c.rng.chance(0.3))) && (!dag || i < j) && c.rng.chance(p)) m.e.insert({ids[i], ids[j]});
  return m;
}

bool acyclic(const Model &m) {
  auto r = reach(m);
  for (auto [a, b] : m.e) if (a == b || r[b].count(a)) return false;
  return true;
}

void compare(mon::Case &c, Graph<int> &g, const Model &m, const std::string &key) {
  c.check(g.getVertices() == m.v, key + ":vertices", [&] { return S() << "vertex set differs, have " << std::vector<int>(g.getVertices().begin(), g.getVertices().end()) << " want " << m.s(); });
  auto e = g.getEdges();
  c.check(e == m.e, key + ":edges", [&] { Model k; k.v = g.getVertices(); k.e = e; return "edge set differs, have " + k.s() + " want " + m.s(); });
  std::set<int> src, snk;
  for (int x : m.v) {
    std::vector<int> out, in;
    for (auto [a, b] : m.e) { if (a == x) out.push_back(b); if (b == x) in.push_back(a); }
    std::sort(out.begin(), out.end()); std::sort(in.begin(), in.end());
    c.check(g.edgesOutOf(x) == out && g.edgesInto(x) == in, key + ":adjacency", [&] { return S() << "adjacency of " << x << ": out " << g.edgesOutOf(x) << " in " << g.edgesInto(x) << " want " << out << " / " << in; });
    c.check(g.getInDegree(x) == in.size() && g.getOutDegree(x) == out.size(), key + ":degree", "degree differs");
    if (in.empty()) src.insert(x);
    if (out.empty()) snk.insert(x);
  }
  c.check(g.getSources() == src, key + ":sources", "sources differ");
  c.check(g.getSinks() == snk, key + ":sinks", "sinks differ");
}
}  // namespace

// A history of mutations, observed after every step.
MON_FAMILY(history, 1500, 30000) {
  Graph<int> g;
  Model m;
  int steps = c.rng.in(3, 40), hi = c.rng.in(3, 12);
  S d;
  for (int i = 0; i < steps; ++i) {
    int a = c.rng.in(0, hi), b = c.rng.in(0, hi), k = c.rng.in(0, 9);
    if (k < 3) { d << "v" << a << " "; c.describe(d); g.addVertex(a); m.v.insert(a); }
    else if (k < 8) {
      bool want = m.v.count(a) && m.v.count(b);
      bool w = c.rng.chance(0.3);
      d << (w ? "w" : "e") << a << ">" << b << " "; c.describe(d);
      bool got = w ? g.addEdge(a, b, (int)c.rng.in(-5, 50)) : g.addEdge(a, b);
      c.check(got == want, "history:addEdge", "addEdge's answer is wrong");
      if (want) m.e.insert({a, b});
    } else {
      if (a == b) continue;
      bool want = m.e.count({a, b});
      d << "c" << a << ">" << b << " "; c.describe(d);
      int calls = 0, sa = -1, sb = -1; bool before = false;
      bool got = c.rng.chance(0.5) ? g.contractEdge(a, b, [&](int &x, const int &y) { ++calls; sa = x; sb = y; before = g.contains(b) && g.hasEdge(a, b); })
                                   : (calls = -1, g.contractEdge(a, b));
      c.check(got == want, "history:contract-answer", "contractEdge's answer is wrong");
      if (calls >= 0) c.check(want ? (calls == 1 && sa == a && sb == b && before) : calls == 0, "history:merge-callback", [&] { return S() << "merge callback ran " << calls << " times with " << sa << "," << sb; });
      if (want) {
        std::set<std::pair<int, int>> ne;
        for (auto [x, y] : m.e) {
          int p = x == b ? a : x, q = y == b ? a : y;
          if (p == q && !(x == y && x != b)) continue;
          if (x == b && y == b) continue;
          ne.insert({p, q});
        }
        m.e = ne; m.v.erase(b);
        c.event("contractions");
      }
    }
    if (c.rng.chance(0.4) || i + 1 == steps) compare(c, g, m, "history");
    int q = c.rng.in(0, hi), r = c.rng.in(0, hi);
    c.check(g.contains(q) == (m.v.count(q) > 0) && g.hasEdge(q, r) == (m.e.count({q, r}) > 0) && g.empty() == m.v.empty(), "history:query", [&] { return S() << "contains/hasEdge/empty wrong for " << q << "," << r; });
  }
}

MON_FAMILY(order, 1500, 30000) {
  Model m = randomGraph(c, c.rng.chance(0.1) ? 60 : 14, c.rng.chance(0.7), true);
  c.describe(m.s());
  Graph<int> g;
  build(m, g);
  bool ok = acyclic(m);
  auto t = g.topologicalSort();
  c.check(succeeded(t) == ok, "order:topological-answer", "topological sort succeeded/failed wrongly");
  if (succeeded(t)) {
    std::map<int, int> pos;
    for (size_t i = 0; i < t->size(); ++i) pos[(*t)[i]] = i;
    bool good = t->size() == m.v.size() && pos.size() == m.v.size();
    for (auto [a, b] : m.e) good &= pos[a] < pos[b];
    c.check(good, "order:topological-order", [&] { return S() << "not a topological order: " << *t; });
  }
  auto lv = g.sortGraphByLevels();
  c.check(succeeded(lv) == ok, "order:levels-answer", "level sort succeeded/failed wrongly");
  if (succeeded(lv) && ok) {
    // longest path to a sink, by definition
    std::map<int, std::set<int>> out;
    for (auto [a, b] : m.e) out[a].insert(b);
    std::map<int, int> h;
    std::function<int(int)> height = [&](int x) -> int {
      if (h.count(x)) return h[x];
      int r = 0;
      for (int y : out[x]) r = std::max(r, 1 + height(y));
      return h[x] = r;
    };
    int mx = 0;
    for (int x : m.v) mx = std::max(mx, height(x));
    std::map<int, int> level;
    size_t count = 0;
    for (size_t i = 0; i < lv->size(); ++i) for (int x : (*lv)[i]) { level[x] = i; ++count; }
    bool good = count == m.v.size() && level.size() == m.v.size() && (int)lv->size() == mx + 1;
    for (auto [a, b] : m.e) good &= level[a] < level[b];
    c.check(good, "order:levels", [&] { S o; for (auto &l : *lv) o << l << " "; return "levels are wrong: " + o.s(); });
    for (int x : m.v) good &= level[x] == mx - h[x];
    c.check(good, "order:levels-tight", [&] { S o; for (auto &l : *lv) o << l << " "; return "a vertex is not at the level of its longest path to an output: " + o.s(); });
    c.event("levels", lv->size());
  }
  auto cp = g.findApproximateCriticalPath();
  if (ok) c.check(succeeded(cp), "order:critical-path", "critical path missing on an acyclic graph");
  else c.check(failed(cp), "order:critical-path", "critical path of a cyclic graph");
}

MON_FAMILY(components, 1500, 30000) {
  Model m = randomGraph(c, c.rng.chance(0.1) ? 40 : 12, false, c.rng.chance(0.3));
  c.describe(m.s());
  Graph<int> g;
  build(m, g);
  auto r = reach(m);
  std::set<std::set<int>> want;
  std::map<int, int> rep;
  for (int x : m.v) {
    std::set<int> s;
    for (int y : m.v) if (r[x].count(y) && r[y].count(x)) s.insert(y);
    want.insert(s);
    rep[x] = *s.begin();
  }
  auto sccs = g.getStronglyConnectedComponents();
  c.check(std::set<std::set<int>>(sccs.begin(), sccs.end()) == want && sccs.size() == want.size(), "components:scc", [&] { S o; for (auto &s : sccs) o << std::vector<int>(s.begin(), s.end()); return "wrong components " + o.s(); });
  c.event("components", want.size());
  std::vector<std::pair<int, int>> merges;
  g.condenseGraph([&](int &a, const int &b) { merges.push_back({a, b}); });
  // one survivor per component, and reachability between components is kept
  std::map<int, int> surv;
  bool good = g.getVertices().size() == want.size();
  for (int x : g.getVertices()) { good &= m.v.count(x) && !surv.count(rep[x]); surv[rep[x]] = x; }
  c.check(good, "components:condense-vertices", [&] { return S() << "condensation has vertices " << std::vector<int>(g.getVertices().begin(), g.getVertices().end()) << " for " << want.size() << " components"; });
  std::set<std::pair<int, int>> we, ge;
  for (auto [a, b] : m.e) if (rep[a] != rep[b]) we.insert({rep[a], rep[b]});
  for (auto [a, b] : g.getEdges()) if (a != b) ge.insert({rep[a], rep[b]});
  c.check(we == ge, "components:condense-edges", "edges between components were lost or invented");
  bool self = false;
  for (auto [a, b] : m.e) self |= a == b;
  c.check(succeeded(g.topologicalSort()), self ? "components:condense-acyclic-selfloop" : "components:condense-acyclic", "the condensation has a cycle");
  // the merges account for every removed vertex exactly once
  std::set<int> gone;
  bool okm = true;
  for (auto [a, b] : merges) if (a != b) okm &= gone.insert(b).second && rep[a] == rep[b];
  c.check(okm && gone.size() + want.size() == m.v.size(), "components:merge-calls", "merge callbacks do not account for each removed vertex exactly once");
}

MON_FAMILY(shortest_path, 1500, 30000) {
  Model m = randomGraph(c, c.rng.chance(0.1) ? 30 : 10, c.rng.chance(0.4), c.rng.chance(0.3));
  std::vector<int> vs(m.v.begin(), m.v.end());
  int a = c.rng.pick(vs), b = c.rng.pick(vs);
  c.describe(S() << m.s() << " from " << a << " to " << b);
  Graph<int> g;
  build(m, g);
  std::map<int, int> dist{{a, 0}};
  std::vector<int> q{a};
  for (size_t i = 0; i < q.size(); ++i) for (auto [x, y] : m.e) if (x == q[i] && !dist.count(y)) { dist[y] = dist[x] + 1; q.push_back(y); }
  auto p = g.getShortestPath(a, b);
  c.check(succeeded(p) == (dist.count(b) > 0), "path:answer", "a path is reported although there is none, or the reverse");
  if (succeeded(p)) {
    bool good = !p->empty() && p->front() == a && p->back() == b;
    for (size_t i = 0; i + 1 < p->size(); ++i) good &= m.e.count({(*p)[i], (*p)[i + 1]}) > 0;
    c.check(good, "path:valid", [&] { return S() << "not a path of the graph: " << *p; });
    c.check((int)p->size() == dist[b] + 1, "path:shortest", [&] { return S() << "path " << *p << " has not the length " << dist[b]; });
    c.event("path_edges", p->size());
  }
}

MON_FAMILY(colouring, 1500, 30000) {
  UndirectedGraph<int> g;
  int kind = c.rng.in(0, 3), n = c.rng.in(1, c.rng.chance(0.1) ? 60 : 14);
  std::set<std::pair<int, int>> e;
  std::vector<int> id(n);
  for (int i = 0; i < n; ++i) id[i] = i * 3 - 7;
  c.rng.shuffle(id);
  double p = c.rng.pick({0.1, 0.3, 0.6, 0.95});
  int limit = -1;
  if (kind == 0) { for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (c.rng.chance(p)) e.insert({id[i], id[j]}); }
  else if (kind == 1) { for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if ((i + j) % 2 && c.rng.chance(p)) e.insert({id[i], id[j]}); limit = 2; }
  else if (kind == 2 && n >= 3) { for (int i = 0; i < n; ++i) e.insert({id[i], id[(i + 1) % n]}); limit = n % 2 ? 3 : 2; }
  else { for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) e.insert({id[i], id[j]}); limit = n; }
  S d; d << "kind " << kind << " n=" << n << " E=";
  for (auto [a, b] : e) d << a << "-" << b << " ";
  c.describe(d);
  for (int x : id) g.addVertex(x);
  for (auto [a, b] : e) g.addEdge(a, b);
  c.check(!g.addEdge(100000, id[0]) && !g.hasEdge(100000, id[0]), "colouring:missing-vertex", "an edge to an unknown vertex was accepted");
  std::map<int, std::set<int>> adj;
  for (auto [a, b] : e) { adj[a].insert(b); adj[b].insert(a); }
  for (int x : id) c.check(g.edgesIncidentTo(x) == std::vector<int>(adj[x].begin(), adj[x].end()), "colouring:incident", "incident edges differ");
  GreedyGraphColoring<int> col;
  for (int round = 0; round < 2; ++round) {  // the object is reusable
    auto k = col.color(g);
    bool ok = k.size() == (size_t)n;
    int used = 0, maxdeg = 0;
    for (int x : id) { ok &= k.count(x) && k[x] >= 0; used = std::max(used, k[x] + 1); maxdeg = std::max<int>(maxdeg, adj[x].size()); }
    for (auto [a, b] : e) ok &= k[a] != k[b];
    c.check(ok, "colouring:proper", "two neighbours share a colour, or a vertex has none");
    c.check(used <= maxdeg + 1, "colouring:greedy-bound", [&] { return S() << used << " colours with maximum degree " << maxdeg; });
    if (limit >= 0) c.check(used <= std::max(1, limit), "colouring:exact-class", [&] { return S() << used << " colours where the class needs " << limit; });
    c.event("colours", used);
  }
}
MON_MAIN()
