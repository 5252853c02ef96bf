// C17: optimisation on graphs and submodular functions
#include "vt.hpp"
#include "alg.hpp"
#include "graph.hpp"
#include "library/graph/bipartite_matching.hpp"
#include "library/graph/dulmage_mendelsohn_decomposition.hpp"
#include "library/graph/edge_coloring_of_bipartite_graph.hpp"
#include "library/graph/chromatic_number.hpp"
#include "library/graph/maximum_clique.hpp"
#include "library/graph/maximum_independent_set.hpp"
#include "library/graph/minimum_vertex_cover.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/graph/assignment_problem.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/manhattan_mst.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
#include "library/optimization/project_selection_problem.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
#include "library/optimization/alien_dp.hpp"
using namespace vt; using namespace suisen; using namespace dgraph;
typedef std::tuple<int, int, int> T3; typedef std::tuple<int, int, int, int> T4;
extern int Y; void bm() {
    int l = Y > 1 ? rng(5, 10) : rng(0, 6), r = Y > 1 ? rng(5, 10) : rng(0, 6); begin("bm", l, r); BipartiteMatching b(l, r);
    auto q = [&] { switch (rng(0, 6)) {
        case 0: case 1: pend("solve"); ev("solve", b.solve()); break;
        case 2: { pend("matching"); auto m = b.max_matching(); VI a(l), c(r); for (int i = 0; i < l; ++i) a[i] = b.right(i); for (int i = 0; i < r; ++i) c[i] = b.left(i); ev("matching", m, a, c); } break;
        case 3: pend("ecover"); ev("ecover", b.min_edge_cover()); break;
        case 4: pend("vcover"); ev("vcover", b.min_vertex_cover()); break;
        case 5: pend("indep"); ev("indep", b.max_independent_set()); break;
        default: pend("dm"); ev("dm", dulmage_mendelsohn_decomposition(b)); } };
    int ph = rng(1, 3); while (ph--) { if (l && r) { int k = rng(0, (rng.coin(1, 2) ? 4 : 9) * Y); while (k--) { int u = rng(0, l - 1), v = rng(0, r - 1); if (rng.coin(1, 4)) v = std::min(u, r - 1); b.add_edge(u, v); ev("add", u, v); } } for (int i = rng(1, 4); i--;) q(); }
    finish();
}
int Y = 1;      // scale
void cert() {
    int l = rng(1, 45), r = rng.coin(1, 2) ? l : rng(1, 45); begin("bm", l, r); BipartiteMatching b(l, r); int sh = rng(0, 4), m = rng(0, sh == 0 ? 4 * l : 2 * l); VI lab(r); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab);
    auto add = [&](int u, int v) { b.add_edge(u, v); ev("add", u, v); };
    auto q = [&] { pend("cert"); int k = b.solve(); auto mm = b.max_matching(); VI a(l), c(r); for (int i = 0; i < l; ++i) a[i] = b.right(i); for (int i = 0; i < r; ++i) c[i] = b.left(i); auto vc = b.min_vertex_cover(); auto is = b.max_independent_set(); auto ec = b.min_edge_cover(); ev("cert", k, mm, a, c, vc, is, ec); };
    if (sh == 1) for (int i = 0; i < l; ++i) { if (rng.coin(9, 10)) add(i, lab[std::min(i, r - 1)]); if (i + 1 < r && rng.coin(9, 10)) add(i, lab[i + 1]); }     // long alternating paths
    else if (sh == 2) for (int i = l; i--;) { add(i, lab[i % r]); if (i) add(i, lab[(i - 1) % r]); }
    else for (int i = 0; i < m; ++i) { int u = rng(0, l - 1); add(u, sh == 3 ? lab[rng(0, std::min(r - 1, 2 + u / 2))] : rng(0, r - 1)); if (rng.coin(1, 2 * m)) q(); }
    q(); if (rng.coin(1, 2)) { for (int i = rng(1, 6); i--;) add(rng(0, l - 1), rng(0, r - 1)); q(); } finish();
}
void sets() {
    begin("set", 0);
    { int l = rng(1, 6 * Y), r = rng(1, 6 * Y); E e; int m = rng(0, 16 * Y * Y); EdgeColoringOfBipartiteGraph c(l, r); int mode = rng(0, 2); for (int i = 0; i < m; ++i) { int u = mode == 1 ? 0 : rng(0, l - 1), v = mode == 2 ? rng(0, std::min(1, r - 1)) : rng(0, r - 1); e.push_back({u, v}); c.add_edge(u, v); } pend("ecolor", l, r, e); auto [k, col] = c.solve(); ev("ecolor", l, r, e, k, col); }
    { int n = rng(0, Y > 1 ? 11 : 7); auto e = n ? shape(n, false, true) : E{}; pend("chrom"); ev("chrom", n, e, chromatic_number(n, e)); }
    { int n = rng(0, 9 * Y); auto e = n ? shape(n) : E{}; auto g = undirected(n, e); pend("mis", e); ev("mis", n, e, maximum_independent_set(g)); }
    { int n = rng(0, 8 * Y); auto e = n ? shape(n) : E{}; auto g = undirected(n, e); pend("clique", e); ev("clique", n, e, maximum_clique(g)); }
    { int n = rng(0, 8 * Y); auto e = n ? shape(n) : E{}; auto g = undirected(n, e); pend("vc", e); ev("vc", n, e, minimum_vertex_cover(g)); }
    finish();
}
template <MCFPotentialInitializer I, class Cap, class Cost> void mcf() {
    begin("flow", 0); int n = rng(2, 6 * Y), s = rng(0, n - 1), t; do t = rng(0, n - 1); while (t == s); VI lab(n), pot(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); for (auto& x : pot) x = rng(-6, 6); std::vector<T4> e; int m = rng(0, 3 * n);
    for (int i = 0; i < m; ++i) { int u = rng(0, n - 1), v = rng(0, n - 1); int cap = rng.coin(1, 8) ? 0 : rng(1, 4), c = rng(0, 7); if (I == DAG) { if (u == v) continue; if (u > v) std::swap(u, v); c = rng(-8, 8); u = lab[u], v = lab[v]; } if (I == BELLMAN_FORD) c += pot[v] - pot[u]; e.emplace_back(u, v, cap, c); }
    const ll kf = sizeof(Cap) == 8 && sizeof(Cost) == 8 ? 3000000019LL : 1, kc = sizeof(Cap) == 4 && sizeof(Cost) == 8 ? alg::K : 1; auto un = [](ll x, ll k) { return x % k == 0 ? x / k : 987654321LL; };      // scales of capacity and cost
    auto mk = [&] { MinCostFlow<Cap, Cost, I> g(n); bool ok = true; int k = 0; for (auto [a, b, c, d] : e) ok &= g.add_edge(a, b, c * kf, d * kc) == k++; if (!ok) pend("id"); return g; };
    auto rec = [&](auto& g, const char* mode, int lim, auto r) { std::vector<std::array<int, 5>> fs; for (auto& x : g.get_edges()) fs.push_back({x.from, x.to, (int)un(x.cap, kf), (int)un(x.flow, kf), (int)un(x.cost, kc)}); std::pair<ll, ll> v{un(r.first, kf), un(r.second, kf * kc)}; ev("mcf", n, e, s, t, mode, lim, v.first, v.second, fs); return v; };
    pend("max", e); auto g = mk(); auto tot = rec(g, "max", -1, g.min_cost_max_flow(s, t)); { auto h = mk(); pend("arb"); rec(h, "arb", -1, h.min_cost_arbitrary_flow(s, t)); }
    if (tot.first <= 8) { std::vector<ll> cs; for (int f = 0; f <= (int)tot.first; ++f) { auto h = mk(); pend("lim", f); auto r = h.min_cost_max_flow(s, t, f * kf); cs.push_back(rec(h, "max", f, r).second); } auto h = mk(); std::vector<std::pair<ll, ll>> sl; pend("slope"); for (auto [a, b] : h.min_cost_max_flow_slope(s, t)) sl.push_back({un(a, kf), un(b, kf * kc)}); ev("slope", sl, cs); auto z = mk(); rec(z, "max", (int)tot.first + 2, z.min_cost_max_flow(s, t, (tot.first + 2) * kf)); }
    finish();
}
void asg() { begin("asg", 0); for (int i = 0; i < 3; ++i) { int n = rng(0, 5 * Y); std::vector<std::vector<ll>> a(n, std::vector<ll>(n)); int hi = rng.coin(1, 3) ? 2 : rng.coin(1, 2) ? 30 : 10000000; for (auto& x : a) for (auto& y : x) y = rng(-hi, hi); pend("asg", a); if (rng.coin(1, 2)) { const ll k = rng.coin(1, 2) ? alg::K : 1; auto b = a; for (auto& x : b) for (auto& y : x) y *= k; auto [c, p] = assignment_problem(b); ev("asg", a, c % k == 0 ? c / k : 987654321LL, p); } else { std::vector<VI> b; for (auto& x : a) b.emplace_back(x.begin(), x.end()); auto [c, p] = assignment_problem(b); ev("asg", a, c, p); } } finish(); }
template <class M> void mst(const char* best) {
    int n = rng(0, 7 * Y); begin("mst", n, best); M g(n); typedef std::decay_t<decltype(g.get_weight())> W; const W k = sizeof(W) == 8 ? (W)alg::K : (W)1; int ph = rng(1, 3); while (ph--) { if (n) { auto e = shape(n, true, true); for (auto [a, b] : e) { int w = rng(-9, 9); if (rng.coin(1, 2)) g.add_edge(a, b, w * k); else g.add_edge(typename M::edge_type(a, b, w * k)); ev("add", a, b, w); } } pend("build"); bool c = g.build(); auto un = [&](ll x) { return x % k == 0 ? x / k : 987654321LL; }; std::vector<T3> es; for (auto [a, b, w] : g.get_mst()) es.emplace_back(a, b, (int)un(w)); ev("build", c, un(g.get_weight()), es); }
    finish();
}
template <class T> void manh() { int n = rng(0, 8 * Y); int R = rng.coin(1, 2) ? 3 : rng.coin(1, 2) ? 20 : 1000000; const ll k = std::is_same_v<T, ll> && rng.coin(1, 2) ? alg::K : 1; if (k > 1) R = std::min(R, 100000); auto un = [&](ll x) { return x % k == 0 ? x / k : 987654321LL; }; std::vector<std::pair<T, T>> p(n); E ip; for (auto& x : p) { int a = rng(-R, R), b = rng(-R, R); x = {(T)(a * k), (T)(b * k)}; ip.push_back({a, b}); } pend("manhattan", ip); { auto m = manhattan_mst<ll>(p); std::vector<T3> es; for (auto [a, b, w] : m.get_mst()) es.emplace_back(a, b, (int)un(w)); ev("manhattan", ip, un(m.get_weight()), es); } pend("nearest", ip); std::vector<ll> d; for (auto x : manhattan_minimum_distances(p)) d.push_back(n < 2 ? (x > 2e9 ? 2147483647LL : 0LL) : un((ll)x)); ev("nearest", ip, d); }
// project selection: every term is recorded as a table over its items
void psp() {
    int n = rng(0, 5); begin("psp", VI(n, 2)); ProjectSelection<ll> p(n); const ll k1 = rng.coin(1, 2) ? alg::K : 1; auto c = [&] { return rng(-9, 9) * k1; }; auto pc = [&] { return rng.coin(1, 4) ? 0LL : rng(0, 9) * k1; }; auto un = [&](ll x) { return x % k1 == 0 ? x / k1 : 987654321LL; }; auto term = [&](const VI& w, std::vector<ll> v) { for (auto& x : v) x = un(x); ev("term", w, v); };
    auto two = [&](int& i, int& j) { i = rng(0, n - 1); do j = rng(0, n - 1); while (j == i); };
    int T = rng(0, 8); for (int q = 0; q < T; ++q) { int k = n >= 3 && rng.coin(1, 5) ? 10 : rng(0, 14); pend("term", k); int i = 0, j = 0; ll a = c(), b = c(), w = pc();
        if (k == 0) { if (rng.coin(1, 2)) { p.add_cost(a); term(VI{}, std::vector<ll>{a}); } else { p.add_profit(a); term(VI{}, std::vector<ll>{-a}); } }
        else if (k <= 3 && n >= 1) { i = rng(0, n - 1); switch (rng(0, 5)) { case 0: p.add_cost_0(i, a); term(VI{i}, std::vector<ll>{a, 0}); break; case 1: p.add_cost_1(i, a); term(VI{i}, std::vector<ll>{0, a}); break; case 2: p.add_profit_0(i, a); term(VI{i}, std::vector<ll>{-a, 0}); break; case 3: p.add_profit_1(i, a); term(VI{i}, std::vector<ll>{0, -a}); break; case 4: p.add_cost(i, {a, b}); term(VI{i}, std::vector<ll>{a, b}); break; default: p.add_profit(i, {a, b}); term(VI{i}, std::vector<ll>{-a, -b}); } }
        else if (k <= 9 && n >= 2) { two(i, j); VI ij{i, j}; typedef std::vector<ll> V; switch (k) { case 4: p.add_cost_01(i, j, w); term(ij, V{0, w, 0, 0}); break; case 5: p.add_cost_10(i, j, w); term(ij, V{0, 0, w, 0}); break; case 6: p.add_cost_not_same(i, j, w); term(ij, V{0, w, w, 0}); break; case 7: switch (rng(0, 2)) { case 0: p.add_profit_00(i, j, w); term(ij, V{-w, 0, 0, 0}); break; case 1: p.add_profit_11(i, j, w); term(ij, V{0, 0, 0, -w}); break; default: p.add_profit_same(i, j, w); term(ij, V{-w, 0, 0, -w}); } break;
            default: { ll x = c(), y = c(); ll z = a + b - x - w; /* c01 + c10 - (c00 + c11) = w >= 0 */ ProjectSelection<ll>::CostFunc2 f{std::array<ll, 2>{x, a}, std::array<ll, 2>{b, z}}; (void)y; if (k == 8) { p.add_cost(i, j, f); term(ij, V{x, a, b, z}); } else { ProjectSelection<ll>::CostFunc2 g{std::array<ll, 2>{-x, -a}, std::array<ll, 2>{-b, -z}}; p.add_profit(i, j, g); term(ij, V{x, a, b, z}); } } } }
        else if (k <= 11 && n >= 3) { VI it(n); std::iota(it.begin(), it.end(), 0); rng.shuffle(it); it.resize(3); ll f[8]; auto ok = [&] { for (int x = 0; x < 8; ++x) for (int y = 0; y < 8; ++y) if (f[x] + f[y] < f[x | y] + f[x & y]) return false; return true; };
            // a submodular table: sum of pairwise submodular parts plus a triple term kept if still submodular
            for (int x = 0; x < 8; ++x) f[x] = 0; ll u[3] = {c(), c(), c()}, k0 = c(); ll pw[3] = {pc(), pc(), pc()}; ll tr = c(); if (rng.coin(1, 2)) for (auto& z : pw) z += std::max(tr, 0LL); for (int x = 0; x < 8; ++x) { int b0 = x >> 2 & 1, b1 = x >> 1 & 1, b2 = x & 1; f[x] = k0 + u[0] * b0 + u[1] * b1 + u[2] * b2 - pw[0] * b0 * b1 - pw[1] * b1 * b2 - pw[2] * b0 * b2 + tr * b0 * b1 * b2; } if (!ok()) for (int x = 0; x < 8; ++x) f[x] -= x == 7 ? tr : 0; if (!ok()) continue;
            ProjectSelection<ll>::CostFunc3 g; for (int x = 0; x < 8; ++x) g[x >> 2][x >> 1 & 1][x & 1] = f[x]; p.add_cost(it[0], it[1], it[2], g); term(it, std::vector<ll>(f, f + 8)); }
        else { VI it(n); std::iota(it.begin(), it.end(), 0); rng.shuffle(it); it.resize(rng(0, n)); std::vector<ll> tb(1 << it.size(), 0); if (k & 1) { p.add_profit_all_0(it, w); tb[0] -= w; } else { p.add_profit_all_1(it, w); tb.back() -= w; } term(it, tb); }
        if (q % 5 == 4) { pend("min"); auto r = p.min_cost(); ev("min", un(r.first), VI(r.second.begin(), r.second.end())); } }
    pend("min"); auto r = p.min_cost(); ev("min", un(r.first), VI(r.second.begin(), r.second.end())); auto m = p.max_profit(); ev("min", un(-m.first), VI(m.second.begin(), m.second.end())); finish();
}
void kpsp() {
    int n = rng(1, 4); VI ks(n); bool same = rng.coin(1, 4); int k0 = rng(1, 3); for (auto& x : ks) x = same ? k0 : rng(1, 4); begin("psp", ks); KProjectSelection<ll> p = same ? KProjectSelection<ll>(n, k0) : KProjectSelection<ll>(ks); const ll k1 = rng.coin(1, 3) ? alg::K : 1; auto c = [&] { return rng(-9, 9) * k1; }; auto un = [&](ll x) { return x % k1 == 0 ? x / k1 : 987654321LL; }; auto term = [&](const VI& w, std::vector<ll> v) { for (auto& x : v) x = un(x); ev("term", w, v); };
    int T = rng(0, 6); for (int q = 0; q < T; ++q) { pend("term"); switch (rng(0, 3)) {
        case 0: { ll a = c(); if (rng.coin(1, 2)) { p.add_cost(a); term(VI{}, std::vector<ll>{a}); } else { p.add_profit(a); term(VI{}, std::vector<ll>{-a}); } } break;
        case 1: { int i = rng(0, n - 1); std::vector<ll> f(ks[i]); for (auto& x : f) x = c(); auto g = f; for (auto& x : g) x = -x; if (rng.coin(1, 2)) p.add_cost(i, f); else p.add_profit(i, g); term(VI{i}, f); } break;
        default: if (n >= 2) { int i = rng(0, n - 1), j; do j = rng(0, n - 1); while (j == i); std::vector<std::vector<ll>> f(ks[i], std::vector<ll>(ks[j])); std::vector<ll> a(ks[i]), b(ks[j]); for (auto& x : a) x = c(); for (auto& x : b) x = c(); std::vector<std::vector<ll>> d(ks[i], std::vector<ll>(ks[j])); for (auto& x : d) for (auto& y : x) y = rng.coin(1, 2) ? 0 : rng(0, 4) * k1;
            for (int x = 0; x < ks[i]; ++x) for (int y = 0; y < ks[j]; ++y) { f[x][y] = a[x] + b[y]; for (int s = 0; s <= x; ++s) for (int t = 0; t <= y; ++t) if (s && t) f[x][y] -= d[s][t]; } std::vector<ll> tb; for (auto& x : f) for (ll y : x) tb.push_back(y); p.add_cost(i, j, f); term(VI{i, j}, tb); } } }
    pend("min"); auto r = p.min_cost(); ev("min", un(r.first), r.second); auto m = p.max_profit(); ev("min", un(-m.first), m.second); finish();
}
void alien() {
    begin("psp", VI{}); for (int q = 0; q < 4; ++q) { int N = rng(0, 7); const ll k = rng.coin(1, 2) ? alg::K : 1; std::vector<ll> d(N); for (auto& x : d) x = rng(-6, 6) * k; std::sort(d.begin(), d.end()); bool cv = rng.coin(1, 2); if (!cv) std::reverse(d.begin(), d.end()); std::vector<ll> f{rng(-20, 20) * k}; for (ll x : d) f.push_back(f.back() + x); std::vector<ll> g; for (ll x : f) g.push_back(x / k); auto un = [&](ll x) { return x % k == 0 ? x / k : 987654321LL; }; ll lo = N ? *std::min_element(d.begin(), d.end()) : 0, hi = N ? *std::max_element(d.begin(), d.end()) : 0; lo -= rng(0, 3) * k; hi += rng(0, 3) * k;
        auto val = [&](ll p) { ll b = f[0]; for (int i = 1; i <= N; ++i) { ll v = f[i] - p * i; b = cv ? std::min(b, v) : std::max(b, v); } return b; };
        auto arg = [&](ll p) { ll b = val(p); int a = -1; for (int i = 0; i <= N; ++i) if (f[i] - p * i == b) { if (cv ? a < 0 : true) a = i; } return std::pair<ll, int>{b, a}; };
        for (int x = 0; x <= N; ++x) { pend("alien", g, x); if (cv) { ev("alien", g, x, un(alien_convex<ll>(x, lo, hi, val))); ev("alien", g, x, un(alien_convex<ll>(x, lo, hi, arg))); } else { ev("alien", g, x, un(alien_concave<ll>(x, lo, hi, val))); ev("alien", g, x, un(alien_concave<ll>(x, lo, hi, arg))); } } }
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int i = 0; i < reps(250); ++i) { Y = i % 8 == 7 ? 3 : 1; if (i % 2) cert(); bm(); bm(); sets(); mcf<BELLMAN_FORD, int, ll>(); mcf<DIJKSTRA, ll, int>(); mcf<DIJKSTRA, ll, ll>(); mcf<DAG, int, int>(); asg(); mst<KruscalMinimumSpanningTree<ll>>("min"); mst<KruscalMaximumSpanningTree<int>>("max"); begin("mst", 0, "min"); manh<int>(); manh<ll>(); manh<double>(); finish(); psp(); kpsp(); alien(); }
}
