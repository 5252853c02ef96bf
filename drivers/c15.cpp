// C15: shortest paths and reachability
#include "vt.hpp"
#include "graph.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/minmax_floyd_warshall.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/segment_tree_graph.hpp"
using namespace vt; using namespace suisen; using namespace dgraph;
typedef std::tuple<int, int, int> T3;
VI sources(int n) { VI s; int k = rng.coin(1, 2) ? 1 : rng(1, 3); while (k--) s.push_back(rng(0, n - 1)); return s; }
template <class B> void bfs(const char* kind) {
    int n = size(9); E e; if (kind[0] == 'c' && rng.coin(1, 2)) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (rng.coin(5, 6)) e.push_back({i, j}); rng.shuffle(e); } else e = shape(n, true, true);
    int mode = rng(0, 2); E init; if (mode) init = E(e.begin(), e.begin() + e.size() / 2);
    begin(kind, n, init); pend("ctor");
    B b = mode == 0 ? B(n) : mode == 1 ? B(n, init) : B([&] { std::vector<VI> g(n); for (auto [u, v] : init) g[u].push_back(v), g[v].push_back(u); return g; }());
    size_t at = init.size();
    auto q = [&] { auto s = sources(n); pend("dist", s); if (s.size() == 1) ev("dist", s, b.distance(s[0])); else ev("dist", s, b.distance(s)); pend("comps"); ev("comps", b.connected_components()); };
    q(); while (at < e.size()) { for (int i = rng(1, 4); i-- && at < e.size(); ++at) { b.add_edge(e[at].first, e[at].second); ev("add", e[at].first, e[at].second); } q(); }
    finish();
}
std::vector<T3> wedges(int n, int m, int lo, int hi) { std::vector<T3> r; for (auto [a, b] : edges(n, m, true, true)) r.emplace_back(a, b, (int)rng(lo, hi)); return r; }
void b01() {
    int n = size(9); auto e = wedges(n, rng(0, 3 * n), 0, 1); auto src = sources(n); std::vector<std::vector<std::pair<int, bool>>> g(n); for (auto [a, b, c] : e) g[a].push_back({b, c});
    auto t = [&](int u, auto f) { for (auto [v, c] : g[u]) f(v, c); };
    { pend("bfs01"); std::optional<BFS01> b; if (src.size() == 1) b.emplace(n, src[0], t); else b.emplace(n, src, t); VI d(n); std::vector<bool> r(n); for (int i = 0; i < n; ++i) { d[i] = (*b)[i]; r[i] = b->is_reachable(i); if (r[i] == b->is_unreachable(i)) d[i] = -7; } ev("sssp", n, e, src, d, r); }
    { typedef std::pair<int, int> N; auto enc = [](int u) { return N{u / 3 - 1, u % 3}; }; auto dec = [](N p) { return (p.first + 1) * 3 + p.second; }; auto tm = [&](const N& u, auto f) { for (auto [v, c] : g[dec(u)]) f(enc(v), c); };
      pend("mapbfs01"); std::optional<MapBFS01<N>> b; std::vector<N> s2; for (int s : src) s2.push_back(enc(s)); if (src.size() == 1) b.emplace(s2[0], tm); else b.emplace(s2, tm); VI d(n); std::vector<bool> r(n); for (int i = 0; i < n; ++i) { d[i] = (*b)[enc(i)]; r[i] = b->is_reachable(enc(i)); if (r[i] == b->is_unreachable(enc(i))) d[i] = -7; } ev("sssp", n, e, src, d, r); }
}
template <class C> void dij() {
    int n = size(9); int hi = rng.coin(1, 3) ? 3 : rng.coin(1, 2) ? 20 : 100000000; auto e = wedges(n, rng(0, 3 * n), 0, hi); int s = rng(0, n - 1); std::vector<std::vector<std::pair<int, C>>> g(n); for (auto [a, b, c] : e) g[a].push_back({b, (C)c});
    pend("dijkstra"); auto go = [&](const dijkstra<C>& d) {
        std::vector<ll> ds(n); std::vector<bool> r(n); std::vector<std::pair<int, VI>> ps; for (int i = 0; i < n; ++i) { r[i] = d.is_reachale(i); ds[i] = r[i] ? (ll)d[i] : (ll)2147483647; if (r[i] == d.is_unreachable(i)) ds[i] = -7; if (r[i]) { auto p = d.path_to(i); ps.push_back({i, VI(p.begin(), p.end())}); } }
        ev("sssp", n, e, VI{s}, ds, r); ev("paths", n, e, s, ps); };
    if (rng.coin(1, 2)) go(dijkstra<C>(g, s)); else go(dijkstra<C>(n, [&](int u, C du, auto f) { for (auto [v, c] : g[u]) f(v, du + c); }, s));
}
void minmax(int n, int hi) {
    std::vector<std::vector<int>> c(n, VI(n)); for (auto& x : c) for (auto& y : x) y = rng.coin(1, 4) ? rng(-2, 2) : rng(-hi, hi); if (rng.coin(1, 3)) for (int i = 0; i < n; ++i) c[i][i] = -hi; if (rng.coin(1, 3)) { for (auto& x : c) for (auto& y : x) if (rng.coin(3, 5)) y = hi; }
    pend("minmax"); if (rng.coin(1, 2)) ev("minmax", c, "less", minmax_floyd_warshall(c)); else ev("minmax", c, "greater", minmax_floyd_warshall(c, std::greater<int>()));
}
void dag() {
    int n = size(9); VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); std::vector<T3> e; E ue; int s = rng(0, n - 1); int m = rng(0, 3 * n);
    for (int i = 0; i < m && n > 1; ++i) { int a = rng(0, n - 1), b = rng(0, n - 1); if (a == b) continue; if (a > b) std::swap(a, b); if (b <= s) continue; e.emplace_back(lab[a], lab[b], (int)rng(-20, 20)); ue.push_back({lab[a], lab[b]}); }
    std::vector<T3> k; E uk; for (size_t i = 0; i < e.size(); ++i) if (std::get<1>(e[i]) != lab[s]) k.push_back(e[i]), uk.push_back(ue[i]);
    bool w = rng.coin(2, 3); pend("dag"); std::vector<ll> d; 
    if (w) { Graph<int> g(n, k, directed_graph_tag{}); auto r = single_source_shortest_path_dag(g, lab[s]); d.assign(r.begin(), r.end()); }
    else { Graph<void> g(n, uk, directed_graph_tag{}); auto r = single_source_shortest_path_dag(g, lab[s]); d.assign(r.begin(), r.end()); for (auto& [a, b, c] : k) c = 1; }
    std::vector<bool> r(n); for (int i = 0; i < n; ++i) r[i] = d[i] != 2147483647; ev("sssp", n, k, VI{lab[s]}, d, r);
}
void seg() {
    int n = rng.coin(1, 3) ? rng(1, 4) : rng.coin(1, 3) ? 1 << rng(1, 4) : rng(2, 18); begin("seg", n); SegmentTreeGraph g(n); int k = rng(1, 3);
    for (int i = 0; i < k; ++i) { if (rng.coin(1, 3)) { VI p(n); std::iota(p.begin(), p.end(), 0); pend("order"); ev("order", p, g.add_order_identity()); } else { VI p(n); std::iota(p.begin(), p.end(), 0); rng.shuffle(p); pend("order"); ev("order", p, g.add_order(p)); } }
    E te; if (rng.coin(1, 2)) g.add_edges_to_children([&](int a, int b) { te.push_back({a, b}); }); else g.add_edges_to_children([&](int a, int b, int c) { te.push_back({a, b}); te.push_back({a, c}); });
    std::vector<std::tuple<int, int, int, int, E>> rq; std::set<int> used;
    for (int i = 0; i < 8; ++i) { int f = rng(0, n - 1), o = rng(0, k - 1), l = rng(0, n), r = rng(0, n); if (l > r) std::swap(l, r); E q; pend("edge", f, o, l, r); g.add_edge(f, SegmentTreeGraph::SegmentNode{o, l, r}, [&](int a, int b) { q.push_back({a, b}); used.insert(b); }); rq.emplace_back(f, o, l, r, q); }
    for (auto [a, b] : te) used.insert(a); std::vector<std::array<int, 4>> info; std::vector<bool> is; for (int v = 0; v < g.size(); ++v) { is.push_back(g.is_segment_node(v)); if (v >= n && used.count(v)) { pend("node", v); auto s = rng.coin(1, 2) ? g[v] : g.get_segment_node(v); info.push_back({v, s.order_id, s.l, s.r}); } }
    ev("graph", g.size(), te, rq, info, is); finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int i = 0; i < reps(800); ++i) { dgraph::X = i % 40 == 39 ? 2 + i / 40 % 5 : 1; bfs<BFS>("bfs"); bfs<ComplementBFS>("cbfs"); seg(); begin("sssp", 0); b01(); dij<int>(); dij<ll>(); dij<unsigned>(); dij<double>(); dag(); dag(); finish(); begin("minmax", 0); minmax(size(7), 50); minmax(size(9), 3); finish(); }
    dgraph::X = 1;
    for (int i = 0; i < reps(1); ++i) { for (int n : {(int)rng(63, 64), (int)rng(65, 75), (int)rng(66, 80), (int)rng(129, 135)}) { begin("minmax", 0); minmax(n, 1000); finish(); } }
}
