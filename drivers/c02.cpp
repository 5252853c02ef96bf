// C02: additive structures: Fenwick trees and friends, rectangle add / rectangle sum, cumulative sums.
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/step_sum.hpp"
using namespace vt; using namespace alg; using namespace suisen;
ll lmax(ll a, ll b) { return std::max(a, b); } ll lmin_e() { return -1000000 * K; }
ll ladd(ll a, ll b) { return a + b; } ll lzero() { return 0; } ll lneg(ll a) { return -a; }
void big_session(int n, int len) {
    std::vector<int> cur(n); bool by_n = rng.coin(1, 4); for (auto& x : cur) x = by_n ? 0 : rng(-9999, 9999);
    int which = rng(0, 4);
    if (which == 0) {
        begin("num", cur); pend("build"); FenwickTree<ll> t = by_n ? FenwickTree<ll>(n) : FenwickTree<ll>(up(cur));
        for (int i = 0; i < len; ++i) {
            int o = rng(0, 5), p = rng(0, n - 1), v = rng(-9999, 9999); auto [l, r] = range(n);
            if (o == 0) { t[p] = v * K; ev("set", p, v); } else if (o == 1) { t[p] += v * K; ev("add", p, v); } else if (o == 2) { t[p] -= v * K; ev("add", p, -v); }
            else if (o == 3) { if (std::abs(t[p]) < 100000 * K) { t[p] *= 3; ev("mul", p, 3); } } else if (o == 4) { if (rng.coin(1, 2)) { t[p] %= 7 * K; ev("mod", p, 7); } else { t[p] = 3 * v * K; ev("set", p, 3 * v); t[p] /= 3; ev("div", p, 3); } } else { t.add(p, v * K); ev("add", p, v); }
            ev("get", p, dn(t[p])); ev("sum", l, r, dn(rng.coin(1, 2) ? t(l, r) : t.sum(l, r)));
        }
    } else if (which == 1) {
        begin("num", std::vector<int>(n, 0)); MapFenwickTree<ll, int> t(n);
        for (int i = 0; i < len; ++i) { int p = rng(0, n - 1), v = rng(-9999, 9999); auto [l, r] = range(n); if (rng.coin(1, 3)) { t[p] = v * K; ev("set", p, v); } else { t.add(p, v * K); ev("add", p, v); } ev("get", p, dn((ll)t[p])); ev("sum", l, r, dn(t.sum(l, r))); }
    } else if (which == 2) {
        begin("num", cur); FenwickTreePrefix<ll, ladd, lzero> t(up(cur));
        for (int i = 0; i < len; ++i) { int p = rng(0, n - 1), v = rng(-9999, 9999), r = rng(0, n); t.apply(p, v * K); ev("add", p, v); ev("sum", 0, r, dn(t.prefix_query(r))); }
    } else if (which == 3) {
        begin("num", cur); FenwickTreePrefix<ll, lmax, lmin_e> t(up(cur));
        for (int i = 0; i < len; ++i) { int p = rng(0, n - 1), v = rng(-9999, 9999), r = rng(0, n); t.apply(p, v * K); ev("chmax", p, p + 1, v); ev("max", 0, r, -1000000, dn(t.prefix_query(r))); }
    } else {
        begin("log", cur); CumulativeSum<ll> s(up(cur)); int k = n;
        for (int i = 0; i < len; ++i) { auto [l, r] = range(k); ev("sum", l, r, dn(s(l, r))); if (rng.coin(1, 2)) { int v = rng(-9999, 9999); s.push_back(v * K); ++k; ev("push", v); } }
        int step = rng(1, 5); if (k == n) { StepSum<ll> q(up(cur), step); for (int i = 0; i < 5; ++i) { auto [l, r] = range(n + 2); int h = rng(0, step - 1); ev("step", step, h, l, r, dn(q(h, l, r))); } }
    }
    finish();
}
void big_stepsum(int n) { std::vector<int> a(n); for (auto& x : a) x = rng(-9999, 9999); begin("log", a); int step = rng(1, 5); StepSum<ll> q(up(a), step); for (int i = 0; i < 8; ++i) { auto [l, r] = range(n + 2); int h = rng(0, step - 1); ev("step", step, h, l, r, dn(q(h, l, r))); } finish(); }
void big_grid(int n, int m, int len) {
    std::vector<std::vector<int>> g(n, std::vector<int>(m, 0)); begin("grid", g); FenwickTree2D<ll> t(n, m);
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 5), x = rng(0, n - 1), y = rng(0, m - 1), v = rng(-9999, 9999); auto [u, d] = range(n); auto [l, r] = range(m); std::pair<int, int> p{x, y};
        if (o == 0) { t.add(x, y, v * K); ev("add", x, y, v); } else if (o == 1) { t[p] += v * K; ev("add", x, y, v); } else if (o == 2) { t[p] = v * K; ev("set", x, y, v); } else if (o == 3) { t[p] -= v * K; ev("add", x, y, -v); }
        else if (o == 4) { if (std::abs((ll)t[p]) < 100000 * K) { t[p] *= 2; ev("mul", x, y, 2); } } else { t[p] %= 5 * K; ev("mod", x, y, 5); }
        ev("get", x, y, dn(t[p])); ev("sum", u, d, l, r, dn(rng.coin(1, 2) ? t.sum(u, d, l, r) : t(u, d, l, r)));
    }
    finish();
    for (auto& q : g) for (auto& x : q) x = rng(-9999, 9999);
    std::vector<std::vector<ll>> h; for (auto& q : g) h.push_back(up(q));
    begin("grid", g); CumulativeSum2D<ll> s(h); for (int i = 0; i < 8; ++i) { auto [u, d] = range(n); auto [l, r] = range(m); ev("sum", u, d, l, r, dn(s(u, d, l, r))); } finish();
}
template <class T> void ft_session(int n, int len) {
    std::vector<T> cur(n); bool by_n = rng.coin(1, 4);
    for (auto& x : cur) x = by_n ? 0 : rng(-50, 50);
    begin("num", cur);
    pend("build");
    FenwickTree<T> t = by_n ? FenwickTree<T>(n) : rng.coin(1, 2) ? FenwickTree<T>(cur) : FenwickTree<T>(std::vector<T>(cur));
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 11), p = rng(0, n - 1), v = rng(-60, 60); auto [l, r] = range(n);
        T c = t[p];
        if (o == 0) { t[p] = v; ev("set", p, v); }
        else if (o == 1) { t[p] += v; ev("add", p, v); }
        else if (o == 2) { t[p] -= v; ev("add", p, -v); }
        else if (o == 3) { if (std::abs((ll)c) < 1000000) { t[p] *= 3; ev("mul", p, 3); } }
        else if (o == 4) { t[p] /= 3; ev("div", p, 3); }
        else if (o == 5) { t[p] %= 7; ev("mod", p, 7); }
        else if (o == 6) { ++t[p]; ev("add", p, 1); }
        else if (o == 7) { --t[p]; ev("add", p, -1); }
        else if (o == 8) { ev("get", p, (T)t[p]); }
        else { t.add(p, v); ev("add", p, v); }
        if (rng.coin(1, 2)) ev("sum", l, r, rng.coin(1, 2) ? t(l, r) : t.sum(l, r));
    }
    ev("sum", 0, t.size(), t.sum(0, n));
    finish();
}
void ft_empty() { begin("num", std::vector<int>{}); FenwickTree<int> t; ev("sum", 0, 0, t.sum(0, 0)); ev("sum", 0, t.size(), t(0, 0)); finish(); }
template <class MT, class Idx> void mapft_session(Idx n, int k, int len) {
    std::set<Idx> s; while ((int)s.size() < k) s.insert(rng.coin(1, 3) ? (Idx)rng(0, std::min<ll>(n - 1, 20)) : rng.coin(1, 3) ? (Idx)(n - 1 - rng(0, std::min<ll>(n - 1, 20))) : (Idx)rng(0, n - 1));
    std::vector<Idx> xs(s.begin(), s.end());
    begin("num", std::vector<int>(k, 0));
    MT t(n);
    auto at = [&](int i) -> Idx { if (i == 0) return rng(0, xs[0]); if (i == k) return rng(xs[k - 1] + 1, n); return rng(xs[i - 1] + 1, xs[i]); };
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 5), p = rng(0, k - 1), v = rng(-99, 99); auto [l, r] = range(k);
        if (o <= 1) { t.add(xs[p], v); ev("add", p, v); }
        else if (o == 2) { t[xs[p]] = v; ev("set", p, v); }
        else if (o == 3) ev("get", p, (int)t[xs[p]]);
        else { Idx a = at(l), b = l == r ? a : at(r); ev("sum", l, r, rng.coin(1, 2) ? t.sum(a, b) : t(a, b)); }
    }
    finish();
}
int imax(int a, int b) { return std::max(a, b); } int imin_e() { return -1000000; }
int iadd(int a, int b) { return a + b; } int izero() { return 0; } int ineg(int a) { return -a; }
// prefix trees over (max) and (+): "acc" accumulates into a cell with the operation of the session
template <bool MAXOP> void ftp_session(int n, int len) {
    std::vector<int> cur(n); bool by_n = rng.coin(1, 3); const int E = MAXOP ? -1000000 : 0;
    for (auto& x : cur) x = by_n ? E : rng(-50, 50);
    begin("num", cur);
    pend("build");
    using T = std::conditional_t<MAXOP, FenwickTreePrefix<int, imax, imin_e>, FenwickTreePrefix<int, iadd, izero>>;
    T t = by_n ? T(n) : T(cur);
    for (int i = 0; i < len; ++i) {
        int p = rng(0, n - 1), v = rng(-60, 60), r = rng(0, n);
        if (rng.coin(1, 2)) { t.apply(p, v); if (MAXOP) ev("chmax", p, p + 1, v); else ev("add", p, v); }
        if (MAXOP) ev("max", 0, r, E, t.prefix_query(r)); else ev("sum", 0, r, t.prefix_query(r));
    }
    finish();
}
void ft2d_session(int n, int m, int len) {
    std::vector<std::vector<int>> g(n, std::vector<int>(m, 0));
    begin("grid", g);
    FenwickTree2D<int> t(n, m);
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 10), x = rng(0, n - 1), y = rng(0, m - 1), v = rng(-60, 60); auto [u, d] = range(n); auto [l, r] = range(m);
        std::pair<int, int> p{x, y};
        if (o <= 1) { t.add(x, y, v); ev("add", x, y, v); }
        else if (o == 2) { t[p] += v; ev("add", x, y, v); }
        else if (o == 3) { t[p] = v; ev("set", x, y, v); }
        else if (o == 4) { t[p] -= v; ev("add", x, y, -v); }
        else if (o == 5) { ++t[p]; ev("add", x, y, 1); }
        else if (o == 6) { --t[p]; ev("add", x, y, -1); }
        else if (o == 7) { if (std::abs((int)t[p]) < 100000) { t[p] *= 2; ev("mul", x, y, 2); } }
        else if (o == 8) { if (rng.coin(1, 2)) { t[p] /= 3; ev("div", x, y, 3); } else { t[p] %= 5; ev("mod", x, y, 5); } }
        else ev("get", x, y, (int)t[p]);
        ev("sum", u, d, l, r, rng.coin(1, 2) ? t.sum(u, d, l, r) : t(u, d, l, r));
    }
    finish();
}
std::vector<int> coords(int k) { std::set<int> s; ll w = rng.coin(1, 2) ? 2 * k + 3 : rng.coin(1, 2) ? 2000000000 : 4294967280LL; if (w > 4000000000LL && rng.coin(1, 2)) s.insert(w / 2), s.insert(-w / 2); while ((int)s.size() < k) s.insert((int)(rng(0, w) - w / 2)); while ((int)s.size() > k) s.erase(s.begin()); return std::vector<int>(s.begin(), s.end()); }
// query coordinate that separates rank i-1 from rank i (need not be a registered one)
int sep(const std::vector<int>& xs, int i) { int k = xs.size(); if (i == 0) return xs[0] - rng(0, 3); if (i == k) return xs[k - 1] + rng(1, 3); return rng(std::max<ll>(xs[i - 1] + 1, xs[i] - 3), xs[i]); }
template <class V> void ft2s_session(int m, int len) {
    const V k = std::is_same_v<V, ll> ? (V)K : (V)1; auto out = [&](V x) { return std::is_same_v<V, ll> ? dn(x) : (int)x; };
    auto xs = coords(rng(1, m)), ys = coords(rng(1, m));
    std::vector<std::vector<int>> cells; std::set<std::pair<int, int>> pts; int np = rng(1, 3 * m);
    for (int i = 0; i < np; ++i) pts.insert({(int)rng(0, xs.size() - 1), (int)rng(0, ys.size() - 1)});
    for (auto& [a, b] : pts) cells.push_back({a, b, 0});
    rng.shuffle(cells);
    begin("cube", cells);
    FenwickTree2DSparse<V> t(xs.size());
    for (auto& c : cells) { t.add_point(xs[c[0]], ys[c[1]]); if (rng.coin(1, 4)) t.add_point(xs[c[0]], ys[c[1]]); }
    t.build();
    for (int i = 0; i < len; ++i) {
        auto c = rng.pick(cells); c.pop_back(); int o = rng(0, 9), v = rng(-99, 99), x = xs[c[0]], y = ys[c[1]];
        if (o <= 3) { t.add(x, y, v * k); ev("add", c, v); }
        else if (o == 4) { t.set(x, y, v * k); ev("set", c, v); }
        else if (o == 5) { t.apply(x, y, [&](V q) { return q + v * k; }); ev("add", c, v); }
        else if (o == 6) ev("get", c, out(t.get(x, y)));
        else {
            auto a = range(xs.size()), b = range(ys.size());
            int q0 = sep(xs, a.first), q1 = a.first == a.second ? q0 : sep(xs, a.second), q2 = sep(ys, b.first), q3 = b.first == b.second ? q2 : sep(ys, b.second);
            ev("sum", std::vector<std::pair<int, int>>{a, b}, out(rng.coin(1, 2) ? t.sum(q0, q1, q2, q3) : t(q0, q1, q2, q3)));
        }
    }
    finish();
}
template <int KD, class V, V (*AD)(V, V), V (*ZE)(), V (*NE)(V)> void cft_session(int m, int len) {
    std::vector<std::vector<int>> xs; for (int d = 0; d < KD; ++d) xs.push_back(coords(rng(1, m)));
    std::set<std::vector<int>> pts; int np = rng(1, 3 * m); std::vector<std::vector<int>> cells;
    for (int i = 0; i < np; ++i) { std::vector<int> c; for (int d = 0; d < KD; ++d) c.push_back(rng(0, xs[d].size() - 1)); pts.insert(c); }
    for (auto& c : pts) { auto q = c; q.push_back(0); cells.push_back(q); }
    rng.shuffle(cells);
    begin("cube", cells);
    CompressedFenwickTree<V, AD, ZE, NE, KD> t; CompressedFenwickTreePrefix<V, AD, ZE, KD> tp; const V k = std::is_same_v<V, ll> ? (V)K : (V)1; auto out = [&](V x) { return std::is_same_v<V, ll> ? dn(x) : (int)x; };
    auto mk = [&](const std::vector<int>& c) { if constexpr (KD == 1) return xs[0][c[0]]; else { std::array<int, KD> a; for (int d = 0; d < KD; ++d) a[d] = xs[d][c[d]]; return a; } };
    for (auto& c : cells) { auto a = mk(c); t.add_point(a); tp.add_point(a); if (rng.coin(1, 4)) t.add_point(a), tp.add_point(a); }
    t.build(); tp.build();
    for (int i = 0; i < len; ++i) {
        auto c = rng.pick(cells); c.pop_back();
        if (rng.coin(2, 5)) { int v = rng(-99, 99); t.apply(mk(c), v * k); tp.apply(mk(c), v * k); ev("add", c, v); }
        else {
            std::array<std::pair<int, int>, KD> q; std::vector<std::pair<int, int>> b, bp; std::array<int, KD> pr;
            for (int d = 0; d < KD; ++d) { auto lr = range(xs[d].size()); b.push_back(lr); q[d].first = sep(xs[d], lr.first); q[d].second = lr.first == lr.second ? q[d].first : sep(xs[d], lr.second); bp.push_back({0, lr.second}); pr[d] = sep(xs[d], lr.second); }
            if constexpr (KD == 1) { ev("sum", b, out(rng.coin(1, 2) ? t.query(q[0].first, q[0].second) : t.query(q[0]))); ev("sum", bp, out(tp.prefix_query(pr[0]))); }
            else { ev("sum", b, out(t.query(q))); ev("sum", bp, out(tp.prefix_query(pr))); }
        }
    }
    finish();
}
// ---------------------------------------------------------------- the plane
ll val(ll x) { return x; } ll val(Md x) { return x.v; }
template <class V> void rars_session(int m, int len, int W, ll k = 1) {
    auto val = [&](auto x) { return k > 1 ? (ll)dn(::val(x)) : ::val(x); };
    struct R { int l, r, d, u; }; std::vector<R> rs;
    auto rr = [&]() { int a = rng(-W, W), b = rng(-W, W), c = rng(-W, W), d = rng(-W, W); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); return R{a, b, c, d}; };
    for (int i = 0; i < m; ++i) rs.push_back(rr());
    begin(std::is_same<V, Md>::value ? "planem" : "plane", std::vector<int>{});
    std::set<int> xs; for (auto& q : rs) xs.insert(q.l), xs.insert(q.r);
    RectangleAddRectangleSum<V> t(xs.size());
    for (auto& q : rs) t.register_add_query_rectangle(q.l, q.r, q.d, q.u);
    t.build();
    for (int i = 0; i < len; ++i) {
        if (rng.coin(1, 2)) { auto q = rng.pick(rs); int v = rng(-9, 9); t.add(q.l, q.r, q.d, q.u, V(v * k)); ev("radd", q.l, q.r, q.d, q.u, v); }
        else { auto q = rr(); ev("rsum", q.l, q.r, q.d, q.u, val(t.sum(q.l, q.r, q.d, q.u))); }
    }
    finish();
}
template <class V> void static_rars_session(int m, int k, int W, ll kk = 1) {
    auto val = [&](auto x) { return kk > 1 ? (ll)dn(::val(x)) : ::val(x); };
    auto rr = [&]() { int a = rng(-W, W), b = rng(-W, W), c = rng(-W, W), d = rng(-W, W); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); return std::array<int, 4>{a, b, c, d}; };
    std::vector<AddQuery<V>> a; std::vector<SumQuery> s;
    for (int i = 0; i < m; ++i) { auto q = rr(); a.emplace_back(q[0], q[1], q[2], q[3], V(rng(-9, 9) * kk)); }
    for (int i = 0; i < k; ++i) { auto q = rr(); s.emplace_back(q[0], q[1], q[2], q[3]); }
    begin(std::is_same<V, Md>::value ? "planem" : "plane", std::vector<int>{});
    for (auto& q : a) ev("radd", q.l, q.r, q.d, q.u, val(q.val));
    pend("static solve");
    auto res = static_rectangle_add_rectangle_sum(a, s);
    for (int i = 0; i < k; ++i) ev("rsum", s[i].l, s[i].r, s[i].d, s[i].u, i < (int)res.size() ? val(res[i]) : 987654321);
    finish();
}
template <class V> void offline_rapg_session(int len, int W) {
    OfflineRectangleAddPointGet<V> t; const V k = std::is_same_v<V, ll> ? (V)K : (V)1; auto out = [&](V x) { return std::is_same_v<V, ll> ? dn(x) : (int)x; }; std::vector<std::array<int, 6>> h; int g = 0;
    begin("plane", std::vector<int>{});
    for (int i = 0; i < len; ++i) {
        if (rng.coin(1, 2)) { int a = rng(-W, W), b = rng(-W, W), c = rng(-W, W), d = rng(-W, W), v = rng(-9, 9); if (a > b) std::swap(a, b); if (c > d) std::swap(c, d); t.add(a, b, c, d, v * k); h.push_back({1, a, b, c, d, v}); }
        else { int x = rng(-W, W), y = rng(-W, W); t.get(x, y); h.push_back({0, x, y, g++}); }
    }
    pend("offline solve");
    auto res = t.solve();
    for (auto& q : h) if (q[0]) ev("radd", q[1], q[2], q[3], q[4], q[5]); else ev("pget", q[1], q[2], q[3] < (int)res.size() ? out(res[q[3]]) : 987654321);
    finish();
}
// ---------------------------------------------------------------- static sums
void csum_session(int n) {
    std::vector<int> a(n); for (auto& x : a) x = rng(-99, 99);
    begin("log", a);
    CumulativeSum<int> s(a); if (n == 0 && rng.coin(1, 2)) s = CumulativeSum<int>();
    for (int i = 0; i < 12; ++i) { auto [l, r] = range(n); ev("sum", l, r, rng.coin(1, 2) ? s(l, r) : s.sum(l, r)); if (rng.coin(1, 2)) { int v = rng(-99, 99); s.push_back(v); ++n; ev("push", v); } }
    finish();
}
void step_session(int n, int step) {
    std::vector<int> a(n); for (auto& x : a) x = rng(-99, 99);
    begin("log", a);
    StepSum<int> s(a, step);
    for (int i = 0; i < 12; ++i) { auto [l, r] = range(n + 2); int k = rng(0, step - 1); pend("step", step, k, l, r); ev("step", step, k, l, r, rng.coin(1, 2) ? s(k, l, r) : s.sum(k, l, r)); }
    finish();
}
void csum2_session(int n, int m) {
    std::vector<std::vector<int>> g(n, std::vector<int>(m)); for (auto& v : g) for (auto& x : v) x = rng(-99, 99);
    begin("grid", g);
    CumulativeSum2D<int> s(g);
    for (int i = 0; i < 12; ++i) { auto [u, d] = range(n); auto [l, r] = range(m); ev("sum", u, d, l, r, s(u, d, l, r)); }
    for (int i = 0; i < 4; ++i) { int u = rng(0, n + 1), d = rng(0, n + 1), l = rng(0, m + 1), r = rng(0, m + 1); if (u > d || l > r || d > n || r > m) ev("none", s(u, d, l, r)); }   // not a rectangle of the grid: nothing is summed
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    ft_empty();
    for (int i = 0; i < reps(200); ++i) { big_session(rng(1, 24), 20); big_stepsum(rng(0, 20)); big_grid(rng(1, 6), rng(1, 6), 12); }
    for (int n = 1; n <= 40; ++n) for (int i = 0; i < reps(3); ++i) { ft_session<int>(n, 25); ft_session<ll>(n, 25); ftp_session<false>(n, 20); ftp_session<true>(n, 20); }
    for (int i = 0; i < reps(150); ++i) { ft_session<ll>(rsize(200), 60); ftp_session<true>(rsize(200), 40); ftp_session<false>(rsize(200), 40); }
    for (int i = 0; i < reps(80); ++i) {
        int k = rng(1, 12);
        mapft_session<MapFenwickTree<int, int>, int>(std::max<ll>(k, rng.coin(1, 2) ? rng(1, 40) : 1000000000), k, 30);
        mapft_session<MapFenwickTree<int, ll>, ll>(std::max<ll>(k, rng.coin(1, 2) ? rng(1, 40) : 1000000000000000000LL), k, 30);
        mapft_session<MapFenwickTree<int, ll, true>, ll>(std::max<ll>(k, rng.coin(1, 2) ? rng(1, 40) : 1000000000000000000LL), k, 30);
    }
    for (int i = 0; i < reps(250); ++i) ft2d_session(rng(1, 9), rng(1, 9), 20);
    for (int i = 0; i < reps(20); ++i) ft2d_session(rsize(40), rsize(40), 30);
    for (int i = 0; i < reps(250); ++i) { ft2s_session<int>(rng(1, 9), 25); if (i % 3 == 0) ft2s_session<ll>(rng(1, 9), 25); }
    for (int i = 0; i < reps(200); ++i) { cft_session<1, int, iadd, izero, ineg>(rng(1, 12), 20); cft_session<2, int, iadd, izero, ineg>(rng(1, 8), 20); cft_session<3, int, iadd, izero, ineg>(rng(1, 6), 20); if (i % 3 == 0) { cft_session<1, ll, ladd, lzero, lneg>(rng(1, 12), 20); cft_session<2, ll, ladd, lzero, lneg>(rng(1, 8), 20); cft_session<3, ll, ladd, lzero, lneg>(rng(1, 6), 20); } }
    for (int i = 0; i < reps(150); ++i) { rars_session<ll>(rng(1, 10), 20, rng.coin(1, 2) ? 4 : 300); static_rars_session<ll>(rng(0, 12), rng(0, 12), rng.coin(1, 2) ? 4 : 300); rars_session<Md>(rng(1, 10), 20, 1000000000); rars_session<ll>(rng(1, 10), 20, 8, K); static_rars_session<ll>(rng(0, 12), rng(0, 12), 8, K); static_rars_session<Md>(rng(0, 12), rng(0, 12), 1000000000); }
    for (int i = 0; i < reps(300); ++i) { offline_rapg_session<int>(rng(0, 40), rng.coin(1, 2) ? 4 : 1000000000); if (i % 4 == 0) offline_rapg_session<ll>(rng(0, 40), rng.coin(1, 2) ? 4 : 1000000000); }
    for (int n = 0; n < 20; ++n) for (int i = 0; i < reps(8); ++i) { csum_session(n); step_session(n, rng(1, 8)); if (n) csum2_session(n % 7 + 1, rng(1, 7)); }
}
