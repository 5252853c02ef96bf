// C14: aggregation over trees
#include "vt.hpp"
#include "alg.hpp"
#include "tree.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
using namespace vt; using namespace alg; using namespace suisen; using dtree::VI;
int sadd(int a, int b) { return (a + b) % PR; } int zero() { return 0; } int sneg(int a) { return (PR - a) % PR; } int mx(int a, int b) { return std::max(a, b); }
std::pair<int, int> band(int n) { if (n > 30 && rng.coin(1, 2)) n = rng(3, 16); switch (rng(0, 5)) { case 0: return {0, 1}; case 1: { int d = rng(0, n); return {d, d + 1}; } case 2: return {rng(-1, 1), n + rng(0, 3)}; case 3: { int d = rng(-1, n + 1); return {d, d}; } default: { int a = rng(-1, n + 1), b = rng(-1, n + 1); if (a > b) std::swap(a, b); return {a, b}; } } }
struct Ses { int n; dtree::E e; VI a; Ses(const char* op) { n = dtree::size(24); e = dtree::edges(n); a = rvec(n); begin("contour", n, e, a, op); pend("build"); } };
template <class C> void edges(C& c, Ses& s) { for (auto [u, v] : s.e) c.add_edge(u, v); }
// values of 64 bits: the element v of the model is the number v * K of the code
ll sadd64(ll a, ll b) { return (a / K + b / K) % PR * K; } ll zero64() { return 0; } ll sneg64(ll a) { return (PR - a / K) % PR * K; } ll mx64(ll a, ll b) { return std::max(a, b); }
void contour() {
    { Ses s("sum"); ContourSumOnTree<ll, sadd64, zero64> c(up(s.a)); edges(c, s); c.build(); for (int i = 0; i < 12; ++i) { int u = rng(0, s.n - 1), d = rng(-1, rng.coin(1, 2) ? 4 : s.n + 1); pend("sum", u, d); ev("sum", u, d, d + 1, dn(c.sum(u, d))); } finish(); }
    { Ses s("sum"); RangeContourSumOnTree<ll, sadd64, zero64, sneg64> c(up(s.a)); edges(c, s); c.build(); for (int i = 0; i < 12; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("sum", u, l, r); ev("sum", u, l, r, dn(c.sum(u, l, r))); } finish(); }
    { Ses s("max"); PointAddRangeContourSum<ll, mx64, zero64> c(up(s.a)); edges(c, s); c.build(); for (int i = 0; i < 24; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("op", u, l, r); switch (rng(0, 3)) { case 0: ev("get", u, dn(c.get(u))); break; case 1: { int x = rv(); c.add(u, x * K); ev("add", u, x); } break; default: ev("sum", u, l, r, dn(c.sum(u, l, r))); } } finish(); }
    { Ses s("sum"); PointAddRangeContourSum<ll, sadd64, zero64> c(up(s.a)); edges(c, s); c.build(); for (int i = 0; i < 24; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("op", u, l, r); switch (rng(0, 3)) { case 0: ev("get", u, dn(c.get(u))); break; case 1: { int x = rv(); c.add(u, x * K); ev("add", u, x); } break; default: ev("sum", u, l, r, dn(c.sum(u, l, r))); } } finish(); }
    { Ses s("sum"); PointAddRangeContourSumOnTree<ll, sadd64, zero64, sneg64> c(up(s.a)); edges(c, s); c.build(); for (int i = 0; i < 24; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("op", u, l, r); switch (rng(0, 5)) { case 0: ev("get", u, dn(c.get(u))); break; case 1: { int x = rv(); c.add(u, x * K); ev("add", u, x); } break; case 2: { int x = rv(); c.set(u, x * K); ev("set", u, x); } break; default: ev("sum", u, l, r, dn(c.sum(u, l, r))); } } finish(); }
    for (int w = 0; w < 2; ++w) { auto go = [](auto&& c, Ses& s) { edges(c, s); c.build(); for (int i = 0; i < 24; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("op", u, l, r); switch (rng(0, 4)) { case 0: ev("get", u, dn(c.get(u))); break; case 1: case 2: { int x = rv(); c.set(u, x * K); ev("set", u, x); } break; default: ev("sum", u, l, r, dn(c.sum(u, l, r))); } } finish(); };
        if (w) { Ses s("max"); go(PointSetRangeContourSum<ll, mx64, zero64>(up(s.a)), s); } else { Ses s("sum"); go(PointSetRangeContourSum<ll, sadd64, zero64>(up(s.a)), s); } }
    { Ses s("sum"); PointGetRangeContourAddOnTree<ll, ll, sadd64, sadd64, zero64, sneg64> c(s.n); edges(c, s); c.build(up(s.a)); for (int i = 0; i < 30; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("op", u, l, r); int x = rv(); switch (rng(0, 5)) { case 0: c.add(u, x * K); ev("act", u, 0, 1, x); break; case 1: case 2: c.apply(u, l, r, x * K); ev("act", u, l, r, x); break; default: ev("get", u, dn(c.get(u))); } } finish(); }
    { Ses s("max"); PointGetRangeContourOperate<ll, ll, mx64, mx64, zero64> c(s.n); edges(c, s); c.build(up(s.a)); for (int i = 0; i < 30; ++i) { int u = rng(0, s.n - 1); auto [l, r] = band(s.n); pend("op", u, l, r); int x = rv(); switch (rng(0, 5)) { case 0: c.apply(u, x * K); ev("act", u, 0, 1, x); break; case 1: case 2: c.apply(u, l, r, x * K); ev("act", u, l, r, x); break; default: ev("get", u, dn(c.get(u))); } } finish(); }
}
int as(int x, int vw, int ew) { return ((ll)x * x + 3 * vw + 5 * ew + 1) % PR; } int ar(int x, int vw) { return (7 * x + vw * vw) % PR; }
template <bool V, bool W> void reroot1() {
    int n = dtree::size(11); auto e = dtree::edges(n); VI w(n), z(n, 0); std::vector<std::tuple<int, int, int>> we; for (auto& x : w) x = V ? rng(0, 1000) : 0; for (auto [a, b] : e) we.emplace_back(a, b, W ? rng(0, 1000) : 0);
    auto subf = [](auto... p) { if constexpr (sizeof...(p) == 3) return as(p...); else if constexpr (sizeof...(p) == 1) return as(p..., 0, 0); else { int q[] = {p...}; return V ? as(q[0], q[1], 0) : as(q[0], 0, q[1]); } };
    auto rootf = [](auto... p) { if constexpr (sizeof...(p) == 2) return ar(p...); else return ar(p..., 0); };
    auto fill = [&](auto& r, bool mode) { if constexpr (V) { if (mode) { for (int i = 0; i < n; ++i) r.add_vertex(w[i]); } else r.set_vertex_weights(w); } for (auto [a, b, c] : we) { if constexpr (W) r.add_edge(a, b, c); else r.add_edge(a, b); } };
    typedef std::conditional_t<V, std::conditional_t<W, RerootingWeighted<int, int>, RerootingVertexWeighted<int>>, std::conditional_t<W, RerootingEdgeWeighted<int>, Rerooting>> R;
    typedef std::conditional_t<V, std::conditional_t<W, RerootingInvertibleWeighted<int, int>, RerootingInvertibleVertexWeighted<int>>, std::conditional_t<W, RerootingInvertibleEdgeWeighted<int>, RerootingInvertible>> RI;
    bool m = V && rng.coin(1, 2); bool mxo = rng.coin(1, 2); int sz = m ? 0 : n;
    { R r(sz); if (m) r.reserve(n); fill(r, m); pend("reroot"); ev("reroot", n, we, w, mxo ? "max" : "sum", mxo ? r.run_dp(mx, zero, subf, rootf) : r.run_dp(sadd, zero, subf, rootf)); }
    { RI r(sz); if (m) r.reserve(n); fill(r, m); pend("rerooti"); ev("reroot", n, we, w, "sum", r.run_dp(sadd, zero, sneg, subf, rootf)); }
}
std::vector<std::array<int, 3>> gw; std::vector<int> gpar; bool shape_ok;
struct Pth { int a = 1, b = 0; };
Pth vertex(int v) { return Pth{gw[v][1], (int)(((ll)gw[v][1] * gw[v][0] + gw[v][2]) % PR)}; }
int add_edge(Pth& p, int v, int par) { if (gpar[v] != par) shape_ok = false; return p.b; }
int merge_subtrees(int& a, int& b) { return (a + b) % PR; }
Pth add_root(int& s, int v) { return Pth{gw[v][1], (int)(((ll)gw[v][1] * ((gw[v][0] + s) % PR) + gw[v][2]) % PR)}; }
Pth merge_paths(Pth& hi, Pth& lo) { return Pth{(int)((ll)hi.a * lo.a % PR), (int)(((ll)hi.a * lo.b + hi.b) % PR)}; }
void top() {
    int n = dtree::size(26); auto e = dtree::edges(n); auto g = dtree::adj(n, e); int root = rng(0, n - 1); gw.assign(n, {}); auto rw = [&] { return std::array<int, 3>{rv(), rv(), rv()}; }; for (auto& x : gw) x = rw();
    begin("top", n, e, root, gw); pend("build"); gpar.assign(n, -1); auto dfs = [&](auto f, int u, int p) -> void { gpar[u] = p; for (int v : g[u]) if (v != p) f(f, v, u); }; dfs(dfs, root, -1); shape_ok = true;
    static_toptree t(g, root); auto dp = t.tree_dp<int, Pth, vertex, add_edge, merge_subtrees, add_root, merge_paths>();
    ev("ans", rng.coin(1, 2) ? dp.answer().b : dp().b);
    for (int i = 0; i < 14; ++i) { int v = rng(0, n - 1); gw[v] = rw(); pend("upd", v); int r = dp.update(v).b; ev("upd", v, gw[v], r); if (i % 5 == 0) ev("ans", dp().b); }
    VI p(n), s(n); for (int i = 0; i < n; ++i) p[i] = t.parent(i), s[i] = t.subtree_size(i); ev("shape", p, s, shape_ok); finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int i = 0; i < reps(134); ++i) { if (i % 32 == 31) dtree::X = 2 + i / 32 % 4; else dtree::X = 1; contour(); begin("reroot", 0); reroot1<0, 0>(); reroot1<0, 1>(); reroot1<1, 0>(); reroot1<1, 1>(); finish(); top(); }
}
