// C12: link-cut trees
#include "vt.hpp"
#include "alg.hpp"
#include "library/tree/link_cut_tree.hpp"
#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace vt; using namespace alg; using namespace suisen;
H fmap3(F f, H x, int n) { return mapn(f, x, n); }
typedef LinkCutTree<int> L0;
typedef LinkCutTreePathFoldable<H, op, e, toggle> L1;
typedef LinkCutTreePathFoldableLazy<H, op, e, F, fmap3, comp, id, toggle> L2;
template <class L, int KIND> void run(int n, int len) {
    using node = typename L::node_pointer_type; using V = typename L::value_type;
    auto mk = [](int x) { if constexpr (KIND == 0) return x; else return one(x); };
    auto un = [](const V& x) { if constexpr (KIND == 0) return x; else return x.h; };
    std::vector<int> init = rvec(n); begin("lct", init); pend("build");
    L::init_pool(n); std::vector<node> t; 
    if (rng.coin(1, 2)) { std::vector<V> vs; for (int x : init) vs.push_back(mk(x)); t = L::make_nodes(vs); } else for (int x : init) t.push_back(L::make_node(mk(x)));
    auto idx = [&](node p) { for (int i = 0; i < n; ++i) if (t[i] == p) return i; return -1; };
    std::set<std::pair<int, int>> edges;   // mirror used only to choose arguments
    auto comps = [&] { std::vector<int> c(n); std::iota(c.begin(), c.end(), 0); auto f = [&](auto f, int x) -> int { return c[x] == x ? x : f(f, c[x]); }; for (auto [a, b] : edges) c[f(f, a)] = f(f, b); for (int i = 0; i < n; ++i) c[i] = f(f, i); return c; };
    std::vector<int> par(n, -1); 
    auto evert = [&](int u) { int p = -1; while (u >= 0) { int q = par[u]; par[u] = p; p = u; u = q; } };
    // shape bias: long paths stress deep splays
    int shape = rng(0, 2);
    for (int i = 0; i < len; ++i) {
        auto c = comps(); int u = rng(0, n - 1), v = rng(0, n - 1), o = rng(0, KIND == 2 ? 15 : KIND == 1 ? 12 : 10);
        if (shape == 1 && o == 0) { v = 0; for (int k = 0; k < n; ++k) if (c[k] != c[u]) { v = k; if (rng.coin(1, 3)) break; } }
        bool con = c[u] == c[v];
        if (o <= 2) {
            if (!con) { pend("link", u, v); L::link(t[u], t[v]); evert(u); par[u] = v; edges.insert({std::min(u, v), std::max(u, v)}); ev("link", u, v); }
            else if (!edges.empty() && (rng.coin(1, 3) || (int)edges.size() == n - 1)) { auto it = edges.begin(); std::advance(it, rng(0, edges.size() - 1)); auto [a, b] = *it; if (rng.coin(1, 2)) std::swap(a, b);
                if (rng.coin(1, 2)) { pend("cut2", a, b); L::cut(t[a], t[b]); evert(a); par[b] = -1; edges.erase(it); ev("cut2", a, b); }
                else { int ch = par[a] == b ? a : b; pend("cut1", ch); L::cut(t[ch]); par[ch] = -1; edges.erase(it); ev("cut1", ch); } } }
        else if (o == 3) { pend("evert", u); L::evert(t[u]); evert(u); ev("evert", u); }
        else if (o == 4) { if (rng.coin(1, 8)) v = u; pend("conn", u, v); ev("conn", u, v, (bool)L::is_connected(t[u], t[v])); }
        else if (o == 5) { if (rng.coin(1, 8)) v = u; pend("lca", u, v); ev("lca", u, v, idx(L::lca(t[u], t[v]))); }
        else if (o == 6) { pend("get", u); ev("get", u, un(L::get(t[u]))); }
        else if (o == 7) { int x = rv(); pend("set", u, x); if (rng.coin(1, 2)) L::set(t[u], mk(x)); else L::update_value(t[u], [&](V) { return mk(x); }); ev("set", u, x); }
        else if (o == 8) { pend("rpath", u); std::vector<int> r; for (auto p : L::path_from_root(t[u])) r.push_back(idx(p)); ev("rpath", u, r); }
        else if (o <= 10) { pend("path", u, v); auto q = L::path(t[u], t[v]); std::vector<int> r; if (q) for (auto p : *q) r.push_back(idx(p)); if (q.has_value() && r.empty()) r.push_back(-7); evert(u); ev("path", u, v, r); }
        else if constexpr (KIND >= 1) {
            if (o == 11) { pend("rprod", u); ev("rprod", u, out(L::prod_from_root(t[u]))); }
            else if (o <= 13 && con) { pend("prod", u, v); auto x = out(L::prod(t[u], t[v])); evert(u); ev("prod", u, v, x); }
            else if constexpr (KIND == 2) { F f = rf(); if (o == 14) { pend("ract", u); L::apply_from_root(t[u], f); ev("ract", u, out(f)); } else if (con) { pend("act", u, v); L::apply(t[u], t[v], f); evert(u); ev("act", u, v, out(f)); } }
        }
    }
    finish();
}
// behaviours generated from the specification (Gen_C12)
template <class L, int KIND> void calls(const std::vector<Call>& h) {
    int n = num(h[0], 1); using node = typename L::node_pointer_type; using V = typename L::value_type; auto mk = [](int x) { if constexpr (KIND == 0) return x; else return one(x); };
    std::vector<int> init(n); std::iota(init.begin(), init.end(), 1); begin("lct", init); L::init_pool(n); std::vector<V> vs; for (int x : init) vs.push_back(mk(x)); auto t = L::make_nodes(vs);
    auto idx = [&](node p) { for (int i = 0; i < n; ++i) if (t[i] == p) return i; return -1; };
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int u = num(c, 1); pend(c[0], u); if (c[0] == "link") { L::link(t[u], t[num(c, 2)]); ev("link", u, num(c, 2)); } else if (c[0] == "cut1") { L::cut(t[u]); ev("cut1", u); } else { L::evert(t[u]); ev("evert", u); } }
    for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) ev("lca", u, v, idx(L::lca(t[u], t[v])));
    for (int u = 0; u < n; ++u) { std::vector<int> r; for (auto p : L::path_from_root(t[u])) r.push_back(idx(p)); ev("rpath", u, r); if constexpr (KIND >= 1) ev("rprod", u, out(L::prod_from_root(t[u]))); }
    for (int u = 0; u < n; ++u) for (int v = 0; v < n; ++v) { auto q = L::path(t[u], t[v]); std::vector<int> r; if (q) for (auto p : *q) r.push_back(idx(p)); ev("path", u, v, r); }
    finish();
}
void replay() { int line = 0; for (auto& h : script()) switch (++line % 3) { case 0: calls<L0, 0>(h); break; case 1: calls<L1, 1>(h); break; default: calls<L2, 2>(h); } }
int main(int argc, char** argv) {
    init(argc, argv);
    replay();
    for (int i = 0; i < reps(150); ++i) { int n = i % 10 == 9 ? rng(40, 90) : rng.coin(1, 4) ? rng(1, 4) : rng(5, 24); run<L0, 0>(n, 120); run<L1, 1>(n, 140); run<L2, 2>(n, 160); }
}
