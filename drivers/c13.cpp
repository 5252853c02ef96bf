// C13: queries on static trees
#include "vt.hpp"
#include "alg.hpp"
#include "tree.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/lowest_common_ancestor.hpp"
#include "library/tree/level_ancestor.hpp"
#include "library/tree/get_path.hpp"
#include "library/tree/auxiliary_tree.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/tree/frequency_table_of_tree_distance.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
using namespace vt; using namespace alg; using namespace suisen; using dtree::VI;
void hld_session(bool forest) {
    int n = dtree::size(22); dtree::E e = dtree::edges(n); VI roots;
    if (forest && e.size()) e.resize(rng(0, e.size()));
    auto g = dtree::adj(n, e); VI comp(n, -1);
    auto dfs = [&](auto f, int u, int c) -> void { comp[u] = c; for (int v : g[u]) if (comp[v] < 0) f(f, v, c); };
    bool custom = rng.coin(1, 2);
    VI order(n); std::iota(order.begin(), order.end(), 0); if (custom) rng.shuffle(order);
    for (int i : order) if (comp[i] < 0) { roots.push_back(i); dfs(dfs, i, i); }
    VI val = rvec(n);
    begin("tree", n, e, roots, val); pend("build");
    HeavyLightDecomposition h = custom ? HeavyLightDecomposition(g, roots) : HeavyLightDecomposition(g);
    VI visit(n), leave(n), head(n), ord(n), siz(n), par(n), dep(n);
    for (int i = 0; i < n; ++i) visit[i] = h.get_visit_time(i), leave[i] = h.get_leave_time(i), head[i] = h.get_head(i), ord[i] = h.get_kth_visited(i), siz[i] = h.get_subtree_size(i), par[i] = h.get_parent(i), dep[i] = h.get_depth(i);
    ev("hld", visit, leave, head, ord, siz, par, dep, h.get_roots()); ev("hld", visit, leave, head, h.inv_ids(), siz, par, dep, h.get_roots());
    std::vector<int> arr(n); for (int i = 0; i < n; ++i) h.update_point(i, [&](int t) { arr[t] = val[i]; });
    auto sumq = [&](int l, int r) { int s = 0; for (int i = l; i < r; ++i) s = (s + arr[i]) % PR; return s; };
    auto foldq = [&](int l, int r) { H x = alg::e(); for (int i = l; i < r; ++i) x = alg::op(x, one(arr[i])); return x; };
    auto rfoldq = [&](int l, int r) { H x = alg::e(); for (int i = r - 1; i >= l; --i) x = alg::op(x, one(arr[i])); return x; };
    AuxiliaryTree aux(h);
    for (int q = 0; q < 25; ++q) {
        int u = rng(0, n - 1), v = rng(0, n - 1); if (rng.coin(1, 6)) v = u; bool ed = rng.coin(1, 2); bool same = comp[u] == comp[v];
        switch (rng(0, 9)) {
            case 0: if (same) { pend("lca", u, v); ev("lca", u, v, h.lca(u, v)); } break;
            case 1: if (same) { pend("dist", u, v); ev("dist", u, v, h.dist(u, v)); } break;
            case 2: { int k = rng(-1, rng.coin(1, 2) ? dep[u] + 1 : n + 1); pend("la", u, k); ev("la", u, k, h.la(u, k)); } break;
            case 3: if (same) { int d = rng(-1, rng.coin(1, 3) ? n + 1 : h.dist(u, v) + 1); pend("jump", u, v, d); ev("jump", u, v, d, h.jump(u, v, d)); } break;
            case 4: if (same) { pend("foldp", u, v); if (rng.coin(1, 2)) { const ll K = alg::K; ll x = h.fold_path(u, v, 0LL, [K](ll a, ll b) { return (a + b) % (PR * K); }, [&](int l, int r) -> ll { return sumq(l, r) * K; }, ed); ev("foldp", u, v, ed, x % K == 0 ? (int)(x / K) : -1); } else ev("foldp", u, v, ed, h.fold_path(u, v, 0, [](int a, int b) { return (a + b) % PR; }, sumq, ed)); } break;
            case 5: if (same) { pend("foldnc", u, v); ev("foldnc", u, v, ed, out(h.fold_path_noncommutative(u, v, alg::e(), [](H a, H b) { return alg::op(a, b); }, foldq, rfoldq, ed))); } break;
            case 6: if (same) { pend("updp", u, v); VI r; h.update_path(u, v, [&](int a, int b) { for (int i = a; i < b; ++i) r.push_back(ord[i]); }, ed); ev("updp", u, v, ed, r); } break;
            case 7: { pend("subt", u); VI r; if (rng.coin(1, 2)) h.update_subtree(u, [&](int a, int b) { for (int i = a; i < b; ++i) r.push_back(ord[i]); }, ed); else r = h.fold_subtree<VI>(u, [&](int a, int b) { VI r; for (int i = a; i < b; ++i) r.push_back(ord[i]); return r; }, ed); ev("subt", u, ed, r); } break;
            default: if (roots.size() == 1) { VI vs; int k = rng.coin(1, 4) ? rng(0, 2) : rng(1, n); VI all(n); std::iota(all.begin(), all.end(), 0); rng.shuffle(all); vs.assign(all.begin(), all.begin() + std::min(k, n)); pend("aux", vs); aux.build(vs); std::vector<VI> a(n); for (int i = 0; i < n; ++i) a[i] = aux[i]; ev("aux", vs, a); }
        }
    }
    finish();
}
void other_session() {
    int n = dtree::size(20); dtree::E e = dtree::edges(n); auto g = dtree::adj(n, e); int root = rng.coin(1, 2) ? 0 : rng(0, n - 1); VI val(n); for (auto& x : val) x = rng(0, 30);
    begin("tree", n, e, VI{root}, val); pend("build");
    EulerTour t = rng.coin(1, 2) ? EulerTour(g, root) : EulerTour([&](int u, auto f) { for (int v : g[u]) f(v); }, n, root); LowestCommonAncestor l(g, root); LevelAncestor a(g, root);
    VI visit(n), leave(n), par(n), dep(n); for (int i = 0; i < n; ++i) visit[i] = t.visit_time(i), leave[i] = t.leave_time(i), par[i] = t.parent(i), dep[i] = t.depth(i);
    ev("euler", visit, leave, par, dep);
    { VI x(n), y(n), z(n); for (int i = 0; i < n; ++i) x[i] = a.get_visit_time(i), y[i] = rng.coin(1, 2) ? a.get_visit_time_inv(i) : a.get_kth_visited(i), z[i] = a.get_depth(i); ev("lav", x, y, z); }
    for (int q = 0; q < 24; ++q) {
        int u = rng(0, n - 1), v = rng(0, n - 1); if (rng.coin(1, 6)) v = u;
        switch (rng(0, 5)) {
            case 0: pend("elca", u, v); ev("lca", u, v, t.lca(u, v)); break;
            case 1: pend("edist", u, v); ev("dist", u, v, t.dist(u, v)); break;
            case 2: pend("llca", u, v); ev("lca", u, v, rng.coin(1, 2) ? l(u, v) : l.lca(u, v)); break;
            case 3: pend("ldist", u, v); ev("dist", u, v, l.dist(u, v)); break;
            case 4: { int k = rng(-1, rng.coin(1, 2) ? dep[u] + 1 : n + 1); pend("la", u, k); ev("la", u, k, rng.coin(1, 2) ? a(u, k) : a.query(u, k)); } break;
            default: pend("path", u, v); ev("path", u, v, get_tree_path(g, u, v));
        }
    }
    pend("centroids"); ev("centroids", find_centroids(g));
    finish();
}
void cd_session() {
    int n = dtree::size(18); dtree::E e = dtree::edges(n); auto g = dtree::adj(n, e); int root = rng(0, n - 1); VI val(n); for (auto& x : val) x = rng(0, 30);
    VI par(n, -1); auto dfs = [&](auto f, int u, int p) -> void { par[u] = p; for (int v : g[u]) if (v != p) f(f, v, u); }; dfs(dfs, root, -1);
    begin("tree", n, e, VI{root}, val); pend("cd build");
    CentroidDecompositionUnweighted cd(UnweightedGraph::create_undirected_graph(n, e));
    VI cp(n), cd_(n), cs(n); for (int i = 0; i < n; ++i) cp[i] = cd.dct_parent(i), cd_[i] = cd.dct_depth(i), cs[i] = cd.dct_size(i);
    ev("cd", cp, cd_, cs);
    for (int q = 0; q < 4; ++q) { int u = rng(0, n - 1), r0 = rng(0, 5); pend("collect", u); ev("collect", cd_, u, r0, cd.collect(u, r0)); }
    std::vector<std::tuple<int, int, int>> we; for (auto [a, b] : e) we.emplace_back(a, b, par[a] == b ? val[a] : val[b]);
    CentroidDecompositionWeighted<int> cw(WeightedGraph<int>::create_undirected_graph(n, we));
    for (int i = 0; i < n; ++i) cp[i] = cw.dct_parent(i), cd_[i] = cw.dct_depth(i), cs[i] = cw.dct_size(i);
    ev("cd", cp, cd_, cs);
    for (int q = 0; q < 4; ++q) { int u = rng(0, n - 1), r0 = rng(0, 5); pend("wcollect", u); ev("wcollect", cd_, u, r0, cw.collect(u, std::plus<int>(), r0)); }
    pend("freq"); ev("freq", frequency_table_of_tree_distance(n, e));
    finish();
}
dtree::E relabel(int n, dtree::E e) { VI l(n); std::iota(l.begin(), l.end(), 0); rng.shuffle(l); for (auto& [a, b] : e) { a = l[a], b = l[b]; if (rng.coin(1, 2)) std::swap(a, b); } rng.shuffle(e); return e; }
template <class C> void iso_session() {
    begin("iso", 0); C c; std::vector<std::pair<int, dtree::E>> pool;
    for (int i = 0; i < 10; ++i) {
        int n; dtree::E e;
        if (!pool.empty() && rng.coin(2, 3)) { auto& q = rng.pick(pool); n = q.first; e = relabel(n, q.second); if (rng.coin(1, 3) && n > 2) { // move one leaf
                VI deg(n); for (auto [a, b] : e) ++deg[a], ++deg[b]; for (auto& [a, b] : e) { if (deg[a] == 1 && rng.coin(1, 2)) { int x; do x = rng(0, n - 1); while (x == a); b = x; break; } else if (deg[b] == 1) { int x; do x = rng(0, n - 1); while (x == b); a = x; break; } } } }
        else { n = rng(1, 9); if (rng.coin(1, 3)) { // two equal or nearly equal halves: two centroids
                int h = rng(1, 4); auto a = dtree::edges(h), b = rng.coin(1, 2) ? a : dtree::edges(h); n = 2 * h; e = a; for (auto [x, y] : b) e.push_back({x + h, y + h}); e.push_back({(int)rng(0, h - 1), (int)(h + rng(0, h - 1))}); e = relabel(n, e); } else e = dtree::edges(n); }
        pool.push_back({n, e}); auto g = dtree::adj(n, e);
        switch (rng(0, 4)) {
            case 0: { int r = rng(0, n - 1); pend("sub", n, e, r); ev("sub", n, e, r, c.classify_subtrees(g, r)); } break;
            case 1: { pend("reroot", n, e); ev("reroot", n, e, c.classify_rerooting(g)); } break;
            case 2: { auto& q = rng.pick(pool); auto g2 = dtree::adj(q.first, q.second); int r = rng(0, n - 1), r2 = rng(0, q.first - 1); pend("isor"); ev("isor", n, e, r, q.first, q.second, r2, c.is_isomorphic_rooted(g, r, g2, r2)); } break;
            default: { auto& q = rng.pick(pool); auto g2 = dtree::adj(q.first, q.second); pend("iso", n, e, q.first, q.second); auto o = c.is_isomorphic(g, g2); VI r; if (o) r = {o->first, o->second}; ev("iso", n, e, q.first, q.second, r); }
        }
    }
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int i = 0; i < reps(352); ++i) { dtree::X = i % 32 == 30 ? 2 + i / 32 % 4 : 1; hld_session(rng.coin(1, 3)); other_session(); if (i % 2) cd_session(); if (i % 2 == 0) iso_session<RootedTreeClassifier<>>(); else iso_session<RootedTreeClassifier<IDHandlerZobrist<>>>(); }
    dtree::X = 1;
    { int n = 40000; begin("bigtree", n); dtree::E e; for (int i = 1; i < n; ++i) e.push_back({i - 1, i}); pend("pathfreq"); auto f = frequency_table_of_tree_distance(n, e); for (int i = 0; i < 200; ++i) { int k = rng(1, n - 1); ev("pathfreq", n, k, f[k]); } finish(); }
    for (int n : {40000, 66000 + (int)rng(0, 3000)}) { begin("bigtree", n); dtree::E e; for (int i = 1; i < n; ++i) e.push_back({0, i}); pend("starfreq"); auto f = frequency_table_of_tree_distance(n, e); for (int k : {1, 2, 3, 4, n - 1}) ev("starfreq", n, k, wide(f[k])); finish(); }
}
