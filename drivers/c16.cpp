// C16: structure of graphs
#include "vt.hpp"
#include "alg.hpp"
#include "graph.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/low_link.hpp"
#include "library/graph/two_edge_connected_components.hpp"
#include "library/graph/biconnected_components.hpp"
#include "library/graph/block_cut_forest.hpp"
#include "library/graph/remove_multiedges.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/scc_tournament.hpp"
#include "library/graph/cycle_detection.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/bipartite_graph_recognition.hpp"
#include "library/graph/enumerate_triangles.hpp"
#include "library/graph/enumerate_cliques.hpp"
#include "library/graph/directed_eulerian_graph.hpp"
#include "library/graph/undirected_eulerian_graph.hpp"
#include "library/graph/tree_decomposition_tw2.hpp"
#include "library/graph/tree_decomposition_tw2_dp.hpp"
using namespace vt; using namespace suisen; using namespace dgraph; using alg::PR;
typedef std::tuple<int, int, int> T3;
template <class L> void low_ev(const L& l, int n) {
    int m = l.edge_num(); std::vector<bool> ib(m), ia(n); VI re(m), rv(n), pre(n); for (int i = 0; i < m; ++i) { auto [u, v] = l.edge(i); if (rng.coin(1, 2)) std::swap(u, v); ib[i] = l.is_bridge(u, v); re[i] = l.connected_component_num_if_removed(u, v); } for (int v = 0; v < n; ++v) ia[v] = l.is_articulation_point(v), rv[v] = l.connected_component_num_if_removed(v), pre[v] = l.pre_order(v);
    ev("low", l.bridge_ids(), l.articulation_points(), l.connected_component_num(), ib, re, ia, rv, pre);
}
template <class F, class G> void low_base(bool loops, F full, G mk) {
    int n = size(9); auto e = shape(n, loops, true); begin("low", n); int phase = rng.coin(1, 3) ? 2 : 1; size_t cut = phase == 2 ? rng(0, e.size()) : e.size();
    if (phase == 1 && rng.coin(1, 2)) { for (size_t i = 0; i < e.size(); ++i) ev("add", e[i].first, e[i].second, (int)i); pend("ctor"); auto l = mk(n, e); full(l, n); }
    else { auto l = mk(n, E{}); l = decltype(l)(n); for (size_t i = 0; i < cut; ++i) ev("add", e[i].first, e[i].second, l.add_edge(e[i].first, e[i].second)); pend("build"); l.build(); full(l, n); if (cut < e.size()) { for (size_t i = cut; i < e.size(); ++i) ev("add", e[i].first, e[i].second, l.add_edge(e[i].first, e[i].second)); pend("rebuild"); l.build(); full(l, n); } }
    finish();
}
void low() {
    low_base(true, [](auto& l, int n) { low_ev(l, n); }, [](int n, const E& e) { return LowLink(n, e); });
    low_base(true, [](auto& l, int n) { VI c(n); for (int i = 0; i < n; ++i) c[i] = l[i]; ev("tecc", c, l.component_num(), l.groups(), l.reduced_forest()); low_ev(l, n); }, [](int n, const E& e) { return TwoEdgeConnectedComponents(n, e); });
    low_base(false, [](auto& l, int n) { int m = l.edge_num(); VI c(m); for (int i = 0; i < m; ++i) c[i] = l[i]; std::vector<std::pair<VI, VI>> cs; for (auto& s : l.components()) cs.push_back({s.vertex_set(), s.edge_set()}); std::vector<bool> is; for (int i = 0; i < l.component_num(); ++i) is.push_back(l.is_isolated_component(i)); if (l.isolated_vertex_num() != (int)l.isolated_vertices().size()) is.clear();
        ev("bcc", c, l.edge_component_num(), l.isolated_vertices(), l.component_num(), cs, is); low_ev(l, n);
        pend("bcf"); BlockCutForest f(l); std::vector<VI> g; VI vn, ci(n); std::vector<std::pair<bool, bool>> fl; for (int i = 0; i < f.size(); ++i) { g.push_back(f[i]); vn.push_back(f.vertex_num(i)); bool a = f.is_articulation_point(i); fl.push_back({f.is_biconnected_component(i) ? false : a, f.is_isolated_vertex(i)}); } for (int v = 0; v < n; ++v) ci[v] = f.component_id(v); ev("bcf", c, l.isolated_vertices(), l.articulation_points(), f.size(), g, vn, ci, fl); }, [](int n, const E& e) { return BiconnectedComponents(n, e); });
}
E dagish(int n) { E e; VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); int m = rng(0, 2 * n); for (int i = 0; i < m; ++i) { int a = rng(0, n - 1), b = rng(0, n - 1); if (a == b && rng.coin(6, 7)) continue; if (a > b && rng.coin(14, 15)) std::swap(a, b); e.push_back({lab[a], lab[b]}); } return e; }
template <class Gr> auto pairs_of(const Gr& l) { std::vector<std::pair<int, int>> r; for (const auto& x : l) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) r.push_back({x, 1}); else r.push_back({std::get<0>(x), std::get<1>(x)}); } return r; }
void orders() {
    begin("order", 0);
    { int n = size(8); auto e = dagish(n); std::vector<VI> g(n); for (auto [a, b] : e) g[a].push_back(b); pend("topo"); topological_sort t(g); VI o = t.sorted(); bool ok = true; for (int i = 0; i < (int)o.size(); ++i) ok &= t[i] == o[i]; ev("topo", n, e, t.is_dag(), ok ? o : VI{}); }
    { int n = size(8); E e; VI in(n); bool tr = rng.coin(1, 3); VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { int a = lab[j], b = lab[i]; if (!tr ? rng.coin(1, 2) : rng.coin(1, 8)) std::swap(a, b); e.push_back({a, b}); ++in[b]; } pend("scct"); ev("scct", n, e, scc_tournament(in)); }
    for (int w = 0; w < 2; ++w) for (int d = 0; d < 2; ++d) { int n = size(8); E e; if (d) e = dagish(n); else if (rng.coin(1, 2)) e = shape(n, true, true); else { for (int i = 1; i < n; ++i) if (rng.coin(4, 5)) e.push_back({i, (int)rng(0, i - 1)}); if (rng.coin(1, 2) && !e.empty()) e.push_back(rng.coin(1, 2) ? e[rng(0, (int)e.size() - 1)] : PII{(int)rng(0, n - 1), (int)rng(0, n - 1)}); }
        std::vector<T3> t; for (auto [a, b] : e) t.emplace_back(a, b, w ? (int)rng(0, 2) : 1); pend("cycle", d, t);
        auto go = [&](auto&& g) { auto r = d ? get_cycle_directed(g) : get_cycle_undirected(g); ev("cycle", n, t, (bool)d, r.has_value(), r ? pairs_of(*r) : decltype(pairs_of(*r)){}); };
        if (w) { Graph<int> g = d ? Graph<int>(n, t, directed_graph_tag{}) : Graph<int>(n, t, undirected_graph_tag{}); go(g); } else { Graph<void> g = d ? Graph<void>(n, e, directed_graph_tag{}) : Graph<void>(n, e, undirected_graph_tag{}); go(g); } }
    { int n = size(9); auto e = shape(n, true, true); if (rng.coin(1, 2)) { E k; VI c(n); for (auto& x : c) x = rng(0, 1); for (auto p : e) if (c[p.first] != c[p.second]) k.push_back(p); e = k; } auto g = undirected(n, e); pend("bip"); int c0 = 0, c1 = 1; if (rng.coin(1, 2)) { c0 = rng(-3, 5); do c1 = rng(-3, 5); while (c1 == c0); } auto r = bipartite_coloring(g, c0, c1); ev("bip", n, e, c0, c1, r.has_value(), r ? *r : VI{}); }
    { int n = size(6); std::vector<VI> g(n); for (auto& x : g) for (int i = rng(0, 7); i--;) x.push_back(rng(0, n - 1)); auto h = g; pend("dedup"); remove_multiedges(h); ev("dedup", g, h); }
    { int n = size(9); auto e = shape(n); auto g = undirected(n, e); std::vector<VI> t; pend("tri"); enumerate_triangles(g, [&](int a, int b, int c) { t.push_back({a, b, c}); }); ev("tri", n, e, t); }
    { int n = std::min(size(8), 11); auto e = shape(n); auto g = undirected(n, e); std::vector<VI> t; pend("cliques"); enumerate_cliques(g, [&](const VI& c) { t.push_back(c); }); ev("cliques", n, e, t); }
    finish();
}
template <class G> void euler(bool dir) {
    int n = size(7); begin("euler", n, dir); G g(n); E e; auto add = [&](int a, int b) { g.add_edge(a, b); ev("add", a, b); };
    auto q = [&] { for (int k = rng(1, 3); k--;) { if (rng.coin(1, 2)) { int s = rng.coin(1, 2) ? -1 : rng(0, n - 1); pend("circuit", s); auto r = s < 0 && rng.coin(1, 2) ? g.eulerian_circuit() : g.eulerian_circuit(s); ev("circuit", s, r.has_value(), r ? *r : VI{}); } else { bool d = rng.coin(1, 3); pend("trail", d); auto r = g.eulerian_trail(d); ev("trail", d, r.has_value(), r ? *r : VI{}); } } std::vector<VI> a; for (int i = 0; i < n; ++i) a.push_back(g[i]); ev("graph", a); };
    int k = rng(1, 3); while (k--) { int u = rng(0, n - 1), s = u; for (int i = rng(0, 6 * X); i--;) { int v = rng(0, n - 1); add(u, v); u = v; } if (rng.coin(1, 2)) add(u, s); if (rng.coin(1, 2)) q(); } q(); finish();
}
int sadd(int a, int b) { return (a + b) % PR; } int zero() { return 0; } ll ladd(ll a, ll b) { return std::min<ll>(a + b, 1LL << 60); } ll lzero() { return 0; }
typedef std::array<int, 2> AF; AF acomp(AF x, AF f) { return AF{(int)((ll)x[0] * f[0] % PR), (int)(((ll)x[1] * f[0] + f[1]) % PR)}; } AF aid() { return AF{1, 0}; }
ll stepmax() { switch (rng(0, 6)) { case 0: return rng(0, 3); case 1: return rng(1, 20); case 2: return 1LL << rng(0, 61); case 3: return (1LL << rng(1, 62)) - 1; case 4: return std::numeric_limits<ll>::max() - rng(0, 1); case 5: return 1000000000000000000LL; default: return rng(0, 1LL << 62); } }
void fg() {
    int n = size(10); VI nx(n); int sh = rng(0, 4); for (int i = 0; i < n; ++i) nx[i] = sh == 0 ? rng(0, n - 1) : sh == 1 ? rng(i, n - 1) : sh == 2 ? (i + 1) % n : sh == 3 ? rng(std::max(0, i - 2), std::min(n - 1, i + 1)) : i; bool mono = sh == 1 || sh == 4;
    begin("fg", nx); FunctionalGraph g(nx); if (rng.coin(1, 4)) { FunctionalGraph h(n); for (int i = 0; i < n; ++i) h[i] = ((const FunctionalGraph&)g)[i]; g = h; } if (!mono && rng.coin(1, 3)) { int u = rng(0, n - 1), v = rng(0, n - 1); g[u] = v; ev("set", u, v); } 
    std::vector<std::array<int, 4>> ip; pend("inf"); for (auto& p : g.infinite_paths()) ip.push_back({p.head_v, p.head_len, p.loop_v, p.loop_len}); ev("inf", ip);
    for (int i = 0; i < 3; ++i) { ll k = rng.coin(1, 2) ? rng(0, 2 * n) : stepmax(); pend("kth", k); ev("kth", wide(k), g.kth_iterate(k)); }
    ll M = stepmax(); pend("doubling", M); auto d = g.doubling(M); VI a(n); for (auto& x : a) x = rng(0, PR - 1); auto ds = g.doubling<int, sadd, zero>(M, a); std::vector<AF> af(n); for (auto& x : af) x = AF{(int)rng(0, PR - 1), (int)rng(0, PR - 1)}; auto da = g.doubling<AF, acomp, aid>(M, af);
    std::vector<ll> sm(n); for (auto& x : sm) x = rng(0, 5); const ll kb = rng.coin(1, 2) ? 40000000003LL : 1; for (auto& x : sm) x *= kb; auto dl = g.doubling<ll, ladd, lzero>(M, sm);
    for (int i = 0; i < 5; ++i) { int u = rng(0, n - 1); ll k = rng.coin(1, 2) ? rng(0, std::min<ll>(M, 25)) : rng.coin(1, 3) ? M : rng(0, M < std::numeric_limits<ll>::max() ? M : M - 1);
        pend("query", u, k); ev("query", u, wide(k), d.query(u, k)); { std::pair<int, int> r = ds.query(u, k); ev("sum", u, wide(k), a, r.first, r.second); } if (k <= 25) { auto r = da.query(u, k); ev("osum", u, k, af, r.v, r.sum); }
        if (mono) { int B = rng(u, n - 1); pend("maxstep", u, B); std::pair<int, ll> r = d.max_step(u, [&](int v) { return v <= B; }); ev("maxstep", u, B, wide(M), r.first, wide(r.second)); B = rng(0, n); pend("until", u, B); auto t = d.step_until(u, [&](int v) { return v >= B; }); ev("until", u, B, wide(M), t.has_value(), t ? t->v : 0, wide(t ? t->step : 0)); }
        ll B = rng(0, 30); { pend("summax"); std::tuple<int, ll, ll> r = dl.max_step(u, [&](ll s) { return s <= B * kb; }); auto s1 = sm; for (auto& x : s1) x /= kb; ev("summax", u, s1, B, wide(M), std::get<0>(r), std::get<1>(r) % kb ? -1 : std::get<1>(r) / kb, wide(std::get<2>(r))); } { pend("sumuntil"); auto t = dl.step_until(u, [&](ll s) { return s >= B * kb; }); auto s1 = sm; for (auto& x : s1) x /= kb; ev("sumuntil", u, s1, B, wide(M), t.has_value(), t ? t->v : 0, t ? t->sum % kb ? -1 : t->sum / kb : 0LL, wide(t ? t->step : 0)); } }
    finish();
}
E tw_edges(int n) {
    if (rng.coin(1, 3)) return shape(n); E e; VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); std::vector<PII> av; for (int i = 1; i < n; ++i) { if (av.empty() || rng.coin(1, 5)) { if (rng.coin(5, 6)) { int p = rng(0, i - 1); av.push_back({p, i}); } } else { auto p = rng.pick(av); av.push_back({p.first, i}); av.push_back({p.second, i}); } }
    for (auto [a, b] : av) if (rng.coin(5, 6)) e.push_back({lab[a], lab[b]}); if (rng.coin(1, 4) && n > 3) { int a = rng(0, n - 1), b = rng(0, n - 1); if (a != b) e.push_back({a, b}); } std::set<PII> s; E r; for (auto [a, b] : e) if (s.insert({std::min(a, b), std::max(a, b)}).second) r.push_back({a, b}); rng.shuffle(r); return r;
}
void tw() {
    begin("tw", 0); int n = size(9); auto e = tw_edges(n); auto g = undirected(n, e); if (rng.coin(1, 6)) { int v = rng(0, n - 1); e.push_back({v, v}); }
    auto mk = [&] { switch (rng(0, 2)) { case 0: return TreeDecompositionTW2(n, e); case 1: return TreeDecompositionTW2(g); default: { TreeDecompositionTW2 t(n); for (auto [a, b] : e) t.add_edge(a, b); return t; } } };
    E se; for (auto p : e) if (p.first != p.second) se.push_back(p);
    pend("decomp", e); { auto r = mk().decomp(); std::vector<VI> b, a; if (r) for (auto& x : *r) b.push_back(x.bag), a.push_back(x.adj); ev("decomp", n, se, r.has_value(), b, a); }
    pend("nice", e); auto r = mk().nice_decomp(); std::vector<VI> b, c; VI p; std::vector<std::string> ty; if (r) { NiceDecompTree t = rng.coin(1, 2) ? NiceDecompTree(*r) : rng.coin(1, 2) ? NiceDecompTree(n, e) : NiceDecompTree(g); auto tt = t.get_node_types(); const char* nm[] = {"leaf", "introduce", "forget", "join"}; for (int i = 0; i < t.size(); ++i) { b.push_back(t[i].bag); p.push_back(t[i].par); c.push_back(t[i].ch); ty.push_back(nm[(int)tt[i]]); }
        ev("nice", n, se, true, b, p, c, ty);
        pend("dp"); typedef std::map<VI, ll> D; std::set<PII> ad; for (auto [x, y] : se) ad.insert({x, y}), ad.insert({y, x});   // chosen subset of the bag -> number of ways below
        auto leaf = [&](const DecompNodeRooted&, int v) { return D{{VI{}, 1}, {VI{v}, 1}}; };
        auto intro = [&](const DecompNodeRooted&, const DecompNodeRooted&, const D& d, int v) { D r; for (auto& [s, k] : d) { r[s] += k; bool ok = true; for (int x : s) ok &= !ad.count({x, v}); if (ok) { auto t = s; t.push_back(v); std::sort(t.begin(), t.end()); r[t] += k; } } return r; };
        auto forget = [&](const DecompNodeRooted&, const DecompNodeRooted&, const D& d, int v) { D r; for (auto& [s, k] : d) { VI t; for (int x : s) if (x != v) t.push_back(x); r[t] += k; } return r; };
        auto join = [&](const DecompNodeRooted&, const DecompNodeRooted&, const D& a, const DecompNodeRooted&, const D& b) { D r; for (auto& [s, k] : a) { auto it = b.find(s); if (it != b.end()) r[s] += k * it->second; } return r; };
        ll tot = 0; for (auto& [s, k] : t.run_dp<D>(leaf, intro, forget, join)) tot += k; ev("isets", n, se, tot); }
    else ev("nice", n, se, false, b, p, c, ty);
    finish();
}
// 2-trees with few edges missing: shortcut edges meet existing ones in long adjacency lists
void twdense() {
    begin("tw", 0); for (int t = 0; t < 3; ++t) { int n = rng(6, 15); VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); std::vector<PII> av{{0, 1}}; for (int i = 2; i < n; ++i) { auto p = rng.coin(1, 2) ? av[rng(0, rng(0, av.size() - 1))] : rng.pick(av); av.push_back({p.first, i}); av.push_back({p.second, i}); }
        int den = rng(0, 2); E e; for (auto [a, b] : av) if (rng(0, 7) >= den) { if (rng.coin(1, 2)) std::swap(a, b); e.push_back({lab[a], lab[b]}); } rng.shuffle(e);
        pend("decomp", e); auto r = TreeDecompositionTW2(n, e).decomp(); std::vector<VI> b, a; if (r) for (auto& x : *r) b.push_back(x.bag), a.push_back(x.adj); ev("decomp", n, e, r.has_value(), b, a); }
    finish();
}
// large partial 2-trees, given with the 2-tree they are part of: par[i] = the edge of the 2-tree on which vertex i (in construction order) was put
void twbig() {
    begin("tw", 0); int n = rng(250, 420); VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); std::vector<PII> av{{0, 1}}; E par{{0, 0}, {0, 0}}; for (int i = 2; i < n; ++i) { auto p = rng.coin(1, 2) ? av[rng(0, rng(0, av.size() - 1))] : rng.pick(av); par.push_back(p); av.push_back({p.first, i}); av.push_back({p.second, i}); }
    int den = rng(0, 2); E e; for (auto [a, b] : av) if (rng(0, 7) >= den) { if (rng.coin(1, 2)) std::swap(a, b); e.push_back({a, b}); } rng.shuffle(e); E f; for (auto [a, b] : e) f.push_back({lab[a], lab[b]});
    pend("twbig", n); auto r = TreeDecompositionTW2(n, f).decomp(); std::vector<VI> b; E a; VI inv(n); for (int i = 0; i < n; ++i) inv[lab[i]] = i;
    if (r) for (int i = 0; i < (int)r->size(); ++i) { VI t; for (int x : (*r)[i].bag) t.push_back(inv[x]); b.push_back(t); for (int j : (*r)[i].adj) if (i < j) a.push_back({i, j}); }
    ev("twbig", n, par, e, r.has_value(), b, a); finish();
}
template <class Wt> void csr() {
    constexpr bool wd = !std::is_same_v<Wt, void>; int n = size(7); bool und = rng.coin(1, 2); E e = und ? shape(n, false, true) : edges(n, rng(0, 3 * n), true, true); std::vector<T3> t; for (auto [a, b] : e) t.emplace_back(a, b, wd ? (int)rng(0, 2) : 1);
    begin("csr", n, t, und); pend("ctor"); typedef Graph<Wt> G; G g; typedef typename G::input_edge_type IE; std::vector<IE> ie; for (auto [a, b, c] : t) { if constexpr (wd) ie.emplace_back(a, b, c); else ie.emplace_back(a, b); }
    switch (rng(0, und ? 3 : 4)) { case 0: g = und ? G::create_undirected_graph(n, ie) : G::create_directed_graph(n, ie); break; case 1: g = und ? G(n, ie, undirected_graph_tag{}) : G(n, ie, directed_graph_tag{}); break;
        case 2: if (und) { UndirectedGraphBuilder<Wt> b(n); for (auto& x : ie) b.add_edge(x); g = b.build(); } else { DirectedGraphBuilder<Wt> b(n); b.add_edges(ie); g = b.build_without_move(); } break;
        case 3: g = und ? UndirectedGraphBuilder<Wt>::build(n, ie) : DirectedGraphBuilder<Wt>::build(n, ie); break;
        case 4: { std::vector<std::vector<typename G::edge_type>> h(n); for (auto [a, b, c] : t) { if constexpr (wd) h[a].emplace_back(b, c); else h[a].push_back(b); } g = G(h); } break; }
    auto el = [&](int v, int w) { typename G::edge_type x; if constexpr (wd) x = typename G::edge_type(v, w); else x = v; return x; }; auto rec = [&](const typename G::edge_type& x) { if constexpr (wd) return PII{std::get<0>(x), std::get<1>(x)}; else return PII{(int)x, 1}; };
    auto lists = [&](const G& h) { std::vector<std::vector<PII>> r; for (int i = 0; i < h.size(); ++i) { r.push_back(pairs_of(h[i])); if ((int)r.back().size() != h[i].size() || h[i].empty() != r.back().empty()) r.back().clear(); } return r; };
    auto dfs = [&](const G& h, bool u) { int s = rng(0, n - 1); pend("dfs", s); auto d = s == 0 && rng.coin(1, 2) ? h.dfs_tree() : h.dfs_tree(s); ev("dfs", s, u, d.par, d.pre_ord, d.pst_ord, lists(d.tree), lists(d.back)); };
    ev("lists", lists(g)); std::optional<G> keep; if (und) dfs(g, true);
    for (int i = 0; i < 14; ++i) { int u = rng(0, n - 1); auto rw = [&] { return PII{(int)rng(0, n - 1), wd ? (int)rng(0, 2) : 1}; };
        switch (rng(0, 16)) {
            case 0: if (g[u].size()) { int k = rng(0, g[u].size() - 1); pend("at"); const G& cg = g; const auto& ca = cg[u]; auto& ma = g[u]; switch (rng(0, 7)) { case 0: ev("at", u, k, rec(ma[k])); break; case 1: ev("at", u, k, rec(ma.at(k))); break; case 2: ev("at", u, k, rec(ca[k])); break; case 3: ev("at", u, k, rec(ca.at(k))); break; case 4: ev("at", u, k, rec(ca.data()[k])); break; case 5: ev("at", u, k, rec(ma.data()[k])); break; case 6: ev("at", u, k, rec(*(ca.begin() + k))); break; default: ev("at", u, k, rec(*(ca.cend() - (ca.size() - k)))); } } break;
            case 15: if (g[u].size()) { int k = rng(0, g[u].size() - 1); auto p = rw(); auto x = el(p.first, p.second); auto& a = g[u]; switch (rng(0, 6)) { case 0: a[k] = x; break; case 1: a.at(k) = x; break; case 2: a.data()[k] = x; break; case 3: k = 0; a.front() = x; break; case 4: k = a.size() - 1; a.back() = x; break; case 5: a.begin()[k] = x; break; default: a.rbegin()[a.size() - 1 - k] = x; } ev("setat", u, k, p); } break;
            case 1: if (g[u].size()) { pend("ends"); std::vector<PII> r; const G& cg = g; const auto& ca = cg[u]; if (rng.coin(1, 2)) { for (auto it = ca.crbegin(); it != ca.crend(); ++it) r.push_back(rec(*it)); ev("ends", u, rec(ca.front()), rec(ca.back()), r); } else { for (auto it = g[u].rbegin(); it != g[u].rend(); ++it) r.push_back(rec(*it)); ev("ends", u, rec(g[u].front()), rec(g[u].back()), r); } } break;
            case 2: case 3: if (g[u].size() < g[u].capacity()) { auto p = rw(); if (rng.coin(1, 2)) g[u].push_back(el(p.first, p.second)); else { if constexpr (wd) g[u].emplace_back(p.first, p.second); else g[u].emplace_back(p.first); } ev("push", u, p); } break;
            case 4: if (g[u].size()) { g[u].pop_back(); ev("pop", u); } break;
            case 5: if (g[u].size()) { int k = rng(0, g[u].size() - 1); g[u].erase(g[u].cbegin() + k); ev("erase", u, k, k + 1); } break;
            case 6: { int l = rng(0, g[u].size()), r = rng(l, g[u].size()); g[u].erase(g[u].cbegin() + l, g[u].cbegin() + r); ev("erase", u, l, r); } break;
            case 7: if (rng.coin(1, 4)) { g[u].clear(); ev("clear", u); } break;
            case 8: { int room = g[u].capacity() - g[u].size(); if (room > 0) { int k = rng(0, g[u].size()); int c = rng(1, room); std::vector<PII> q; pend("insert"); switch (rng(0, 2)) { case 0: q = {rw()}; g[u].insert(g[u].cbegin() + k, el(q[0].first, q[0].second)); break; case 1: { auto p = rw(); q.assign(c, p); g[u].insert(g[u].cbegin() + k, c, el(p.first, p.second)); } break; default: { std::vector<typename G::edge_type> z; for (int j = 0; j < c; ++j) q.push_back(rw()), z.push_back(el(q.back().first, q.back().second)); g[u].insert(g[u].cbegin() + k, z.begin(), z.end()); } } ev("insert", u, k, q); } } break;
            case 9: pend("shrink"); g.shrink_to_fit(); break;
            case 10: pend("rev"); ev("rev", lists(g.reversed())); break;
            case 11: { keep.emplace(g); G h(*keep); if (rng.coin(1, 2)) { for (int v = 0; v < n; ++v) if (rng.coin(1, 2)) g[v].clear(); } pend("copied"); g = std::move(h); if (rng.coin(1, 2)) { for (int v = 0; v < n; ++v) (*keep)[v].clear(); keep->shrink_to_fit(); } if (rng.coin(1, 2)) keep.reset(); if (rng.coin(1, 2)) { pend("shrink"); g.shrink_to_fit(); } } break;
            case 12: dfs(g, false); break;
            case 13: { auto p = std::make_unique<G>(g); lists(*p); G c = rng.coin(1, 2) ? G(*p) : G(std::move(*p)); p.reset(); if (rng.coin(1, 2)) dfs(c, false); if (rng.coin(1, 2)) { pend("shrink"); c.shrink_to_fit(); ev("lists", lists(c)); g = std::move(c); } } break;
            default: ev("lists", lists(g));
        } }
    ev("lists", lists(g)); finish();
}
// blocks of regular tournaments, each block beating the later ones: every block is one component
void bigtour() { begin("order", 0); for (int t = 0; t < 3; ++t) { VI m{t == 1 ? 0 : (int)rng(33000, 36000), t == 0 ? (int)rng(0, 50) : (int)rng(33000, 36000), (int)rng(0, 3)}; VI in; int off = 0; std::vector<std::array<int, 3>> o; for (int x : m) { for (int i = 0; i <= 2 * x; ++i) in.push_back(off + x); off += 2 * x + 1; } pend("bigtour", m); for (auto& c : scc_tournament(in)) o.push_back({(int)c.size(), *std::min_element(c.begin(), c.end()), *std::max_element(c.begin(), c.end())}); ev("bigtour", m, o); } finish(); }
int main(int argc, char** argv) {
    init(argc, argv);
    bigtour();
    for (int i = 0; i < reps(400); ++i) { X = i % 8 == 7 ? 3 : 1; low(); orders(); euler<DirectedEulerianGraph>(true); euler<UndirectedEulerianGraph>(false); fg(); tw(); tw(); twdense(); if (i % 13 == 5) twbig(); csr<void>(); csr<int>(); }
}
