// C08: line envelopes, slope trick, offline dynamic hull, monotone minima
#include "vt.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/algorithm/dynamic_convex_hull_offline.hpp"
#include "library/algorithm/monotone_minima.hpp"
using namespace vt; using namespace suisen;
typedef std::vector<int> VI; typedef std::vector<std::pair<int, int>> VP;
struct Scale { ll a, b, x; };
Scale sc() { switch (rng(0, 5)) { case 5: return {1000000000000LL, 1000000000000000000LL, 1000}; case 4: return {100000, 1000000000000000000LL, 1000000000000LL}; case 0: return {3, 6, 4}; case 1: return {20, 300, 20}; case 2: return {1000, 100000, 1000}; default: return {1000000000, 4000000000000000000LL, 1000000000}; } }
template <bool MIN, class T = ll> void cht(int len) {
    begin("line", MIN, std::vector<VI>{}); ConvexHullTrick<T, MIN> c; Scale s = sc(); if (sizeof(T) == 4) s = {1000000000, 1000000000, 1000000000}; std::vector<std::pair<ll, ll>> ls;
    for (int i = 0; i < len; ++i) {
        if (rng.coin(1, 2) || !c.has_line()) { ll a = rng(-s.a, s.a), b = rng(-s.b, s.b); if (!ls.empty() && rng.coin(1, 4)) { auto p = rng.pick(ls); a = p.first; if (rng.coin(1, 2)) b = p.second; } ls.emplace_back(a, b); pend("line", a); c.add_line(a, b); ev("line", wide(a), wide(b)); ev("has", c.has_line()); }
        int q = c.has_line() ? rng(1, 3) : 0; while (q--) { ll x = rng(-s.x, s.x); if (rng.coin(1, 5)) x = rng.coin(1, 2) ? s.x : -s.x; pend("q", x); ev("q", wide(x), wide(c.query(x))); }
    }
    finish();
}
template <class T, bool MIN, class Tag, int DIR> void mono(int len) {
    begin("line", MIN, std::vector<VI>{}); MonotonicCHT<T, MIN, Tag> c; Scale s = sc(); if (s.a == 1000000000) s.b = 1000000000000000000LL; if (!std::is_integral_v<T>) s = {20, 300, 20};
    ll lo = 0, hi = 0; bool any = false; ll x = DIR > 0 ? -s.x : s.x; ll step = std::max<ll>(1, s.x / len);
    bool keep = rng.coin(1, 2), side0 = rng.coin(1, 2);
    for (int i = 0; i < len; ++i) {
        if (!any || rng.coin(1, 2)) {
            bool down = keep ? side0 : rng.coin(1, 2); ll d = rng.coin(1, 6) ? 0 : rng(0, std::max<ll>(1, s.a / len * 2)), a; if (!any) a = lo = hi = rng(-s.a / 4, s.a / 4); else if (down) a = lo = lo - d; else a = hi = hi + d;
            any = true; ll b = rng(-s.b, s.b); pend("line", a); c.add_line(a, b); ev("line", wide(a), wide(b)); }
        int q = rng(0, 2); while (q--) { if (DIR == 0) x = rng(-s.x, s.x); else if (DIR > 0) x = std::min(s.x, x + rng(0, step)); else x = std::max(-s.x, x - rng(0, step)); pend("q", x); ev("q", wide(x), wide((i128)c.query(x))); }
    }
    finish();
}
template <bool MIN> void lichao(int len) {
    begin("line", MIN, std::vector<VI>{}); Scale s = sc(); if (s.a == 1000000000) s.b = 1000000000000000000LL; int n = rng(1, rng.coin(1, 2) ? 5 : 40); std::vector<ll> xs(n); for (auto& x : xs) x = rng(-s.x, s.x);
    LiChaoSegmentTree<ll, MIN> c(xs);
    for (int i = 0; i < len; ++i) {
        ll a = rng(-s.a, s.a), b = rng(-s.b, s.b);
        if (rng.coin(1, 4)) { pend("line", a); c.add_line(a, b); ev("line", wide(a), wide(b)); }
        else if (rng.coin(1, 2)) { ll l = rng.coin(1, 2) ? rng.pick(xs) : rng(-s.x - 2, s.x + 2), r = rng.coin(1, 2) ? rng.pick(xs) : rng(-s.x - 2, s.x + 2); if (l > r && rng.coin(9, 10)) std::swap(l, r); if (l <= r) { pend("seg", l, r); c.add_segment(l, r, a, b); ev("seg", wide(l), wide(r), wide(a), wide(b)); } }
        for (int q = rng(1, 3); q--;) { ll x = rng.pick(xs); pend("q", x); auto r = rng.coin(1, 2) ? c(x) : c.query(x); if (r) ev("q", wide(x), wide(*r)); else ev("q", wide(x), "none"); }
    }
    finish();
}
void slope(int len) {
    begin("slope"); const ll kk = rng.coin(1, 2) ? 1 : 40000000003LL; auto z = [&](ll x) { return x % kk ? 987654321 : (int)(x / kk); }; SlopeTrick<ll> f; int lo = 0, hi = 0; bool any = false;   // breakpoints stay in (-40, 40)
    auto note = [&](int a) { if (!any) lo = hi = a, any = true; lo = std::min(lo, a), hi = std::max(hi, a); };
    for (int i = 0; i < len; ++i) {
        int a = rng(-12, 12);
        switch (rng(0, 9)) {
            case 0: { int v = rng(-5, 5); f.add_const(v * kk); ev("const", v); break; }
            case 1: case 2: f.add_right(a * kk); note(a); ev("right", a); break;
            case 3: case 4: f.add_left(a * kk); note(a); ev("left", a); break;
            case 5: f.add_abs(a * kk); note(a); ev("abs", a); break;
            case 6: if (rng.coin(1, 4)) { if (rng.coin(1, 2)) { f.cumulative_min_left(); ev("cml"); } else { f.cumulative_min_right(); ev("cmr"); } } break;
            case 7: { int d = rng(-6, 6); if (lo + d > -36 && hi + d < 36) { int w = rng(0, 2); if (w == 0) f.translate(d * kk); else if (w == 1) f >>= d * kk; else f <<= -d * kk; lo += d, hi += d; ev("tr", d); } break; }
            case 8: { int p = rng.coin(1, 2) ? 0 : rng(-4, 4), q = rng(p, 4); if (p < 0 && rng.coin(1, 2)) q = 0; if (lo + p > -36 && hi + q < 36) { f.sliding_window_minimum(p * kk, q * kk); lo += p, hi += q; ev("win", p, q); } break; }
            default: { auto [n, b, p] = f.lines(); VI vn, vp; for (ll x : n) if (x > -1000000 * kk) vn.push_back(z(x)); for (ll x : p) if (x < 1000000 * kk) vp.push_back(z(x)); ev("lines", vn, z(b), vp); }
        }
        auto ar = f.argmin_range(); auto e = [&](ll x) { return std::abs(x) > 1000000 * kk ? x : (ll)z(x); }; ev("q", z(f.min()), std::make_pair(e(ar.first), e(ar.second)));
    }
    finish();
}
void hull(int len) {
    int s = rng.pick(*new VI{2, 4, 10, 1000000000}); int nx = len > 40 ? rng(10, 45) : rng(1, 9); if (len > 40 && rng.coin(2, 3)) s = 1000000000; VI xs(nx); for (auto& x : xs) x = rng(-s, s); begin("hull"); DynamicConvexHullOffline c(xs); std::set<std::pair<int, int>> pts;
    for (int i = 0; i < len; ++i) {
        int x = rng.pick(xs), y = rng(-s, s); if (len > 40 && rng.coin(1, 2)) { double t = x / (s + 1.0); y = int(s * (rng.coin(1, 2) ? 1 : -1) * std::sqrt(std::max(0.0, 1 - t * t))); }
        if (pts.empty() || rng.coin(2, 5)) { pend("ins", x, y); c.insert(x, y); pts.insert({x, y}); ev("ins", VI{x, y}); }
        else if (rng.coin(1, 3)) { auto it = pts.begin(); std::advance(it, rng(0, pts.size() - 1)); auto p = *it; pend("era", p); if (rng.coin(1, 10)) p = {x, y}; c.erase(p.first, p.second); pts.erase(p); ev("era", VI{p.first, p.second}); }
        if (!pts.empty()) { int q = std::max<int>(2, s), a = rng(-q, q), b = rng(-q, q); if (rng.coin(1, 6)) a = 0; if (rng.coin(1, 6)) b = 0; pend("lin", a, b); ev("lin", a, b, wide(c.linear_max(a, b)), wide(c.linear_min(a, b))); }
        if (rng.coin(1, 3)) { pend("hull"); ev("hull", c.get_upper_hull(), c.get_lower_hull(), c.get_hull()); }
    }
    finish();
}
void mm(int n, int m) {
    // totally monotone matrix: sums of Monge terms
    begin("rows"); std::vector<VI> a(n, VI(m)); int hi = rng(1, 4); VI r(n), cc(m); for (auto& x : r) x = rng(0, 20); for (auto& x : cc) x = rng(-hi, hi);
    std::vector<VI> w(n + 1, VI(m + 1)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) w[i + 1][j + 1] = w[i + 1][j] + w[i][j + 1] - w[i][j] + (rng.coin(1, 3) ? rng(0, 2) : 0);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a[i][j] = r[i] + cc[j] * (j + 1) - w[i + 1][j + 1];
    // keep only matrices that are totally monotone for leftmost minima (argmin nondecreasing in every submatrix follows from Monge)
    pend("mm", n, m); ev("mm", a, rng.coin(1, 2) ? monotone_minima(n, m, [&](size_t i, size_t j) { return a[i][j]; }) : monotone_minima(n, m, [&](size_t i, size_t j, size_t k) { return a[i][j] <= a[i][k]; }));
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int t = 0; t < reps(40); ++t) {
        int len = t % 10 == 9 ? rng(120, 250) : rng(5, 50);
        cht<true>(len); cht<false>(len); cht<true, int>(len); cht<false, int>(len);
        mono<ll, true, inc_query_tag, 1>(len); mono<ll, true, dec_query_tag, -1>(len); mono<ll, true, non_monotonic_query_tag, 0>(len);
        mono<ll, false, inc_query_tag, 1>(len); mono<ll, false, dec_query_tag, -1>(len); mono<ll, false, non_monotonic_query_tag, 0>(len);
        mono<double, true, inc_query_tag, 1>(len); mono<double, false, non_monotonic_query_tag, 0>(len);
        lichao<true>(len); lichao<false>(len);
        slope(30); hull(40); if (t % 5 == 0) hull(100); mm(rng(1, 10), rng(1, 10)); if (t % 10 == 9) mm(rng(20, 40), rng(20, 40));
    }
}
