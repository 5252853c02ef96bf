// Off-line algorithms and static range queries.
#include "vt.hpp"
#include "alg.hpp"
#include "library/algorithm/area_of_union_of_rectangles.hpp"
#include "library/algorithm/horn_sat.hpp"
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/mo.hpp"
#include "library/algorithm/offline_dynamic_connectivity.hpp"
#include "library/algorithm/offline_dynamic_connectivity_component_sum.hpp"
#include "library/algorithm/rmq_pm1.hpp"
#include "library/algorithm/rmq_pm1_with_index.hpp"
#include "library/algorithm/two_sat.hpp"
#include "library/range_query/static range_count_distinct.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/datastructure/permutation_tree.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/dp/number_of_subsequences.hpp"
#include "library/dp/grid_connectivity.hpp"
using namespace vt; namespace S = suisen;
typedef std::vector<int> VI; typedef std::vector<VI> VV;
bool LG = false;   // larger instances
VI arr(int n, int lo, int hi) { VI a(n); for (auto& x : a) x = rng(lo, hi); return a; }
VI word(int n) { int k = rng(0, 3); return arr(n, k == 3 ? -1000000000 : 0, k == 0 ? 1 : k == 1 ? 4 : k == 2 ? n + 1 : 1000000000); }

void horn() {
    int n = LG ? rng(7, 9) : rng(0, 6); begin("sat", n); S::HornSAT h(n);
    int ops = rng(0, LG ? 30 : 14); auto solve = [&] { bool b = h.satisfiable(); ev("solve", b, b ? h.answer() : std::vector<bool>()); };
    for (int i = 0; i < ops; ++i) {
        if (n == 0 || rng.coin(1, 12)) { VI l; for (int j = rng(n ? 1 : 0, n ? 3 : 0); j--;) l.push_back(rng(0, n - 1)); if (n == 0 && rng.coin(2, 3)) { solve(); continue; } h.add_clause(l, -1, true); ev("horn", l, -1, true); }
        else if (rng.coin(1, 4)) { int x = rng(0, n - 1); bool v = rng.coin(1, 2); h.add_clause(x, v); ev("horn", VI(), x, v); }
        else { VI l; for (int j = rng(1, 3); j--;) l.push_back(rng(0, n - 1)); int x = rng(0, n - 1); bool v = rng.coin(2, 3); h.add_clause(l, x, v); ev("horn", l, x, v); }
        if (rng.coin(1, 3)) solve();
    }
    solve(); finish();
}
void two() {
    int n = LG ? rng(7, 9) : rng(1, 6); begin("sat", n); S::TwoSAT t(n); auto solve = [&] { bool b = t.satisfiable(); ev("solve", b, b ? t.answer() : std::vector<bool>()); };
    for (int i = rng(0, LG ? 20 : 12); i--;) {
        int x = rng(0, n - 1), y = rng(0, n - 1); bool f = rng.coin(1, 2), g = rng.coin(1, 2);
        switch (rng(0, 4)) {
            case 0: t.implies(x, f, y, g); ev("implies", x, f, y, g); break;
            case 1: if (rng.coin(1, 2)) { t.set(x, f); ev("set", x, f); } break;
            case 2: t.at_most_one(x, f, y, g); ev("at_most_one", x, f, y, g); break;
            case 3: t.exactly_one(x, f, y, g); ev("exactly_one", x, f, y, g); break;
            default: t.add_clause(x, f, y, g); ev("clause", x, f, y, g);
        }
        if (rng.coin(1, 3)) solve();
    }
    solve(); finish();
}
void mo(bool three) {
    int n = rng(0, LG ? 60 : 14), q = rng.coin(1, 8) ? 0 : rng(1, LG ? 30 : 12); std::vector<std::pair<int, int>> qs; for (int i = 0; i < q; ++i) { int l = rng(0, n), r = rng(l, n); if (i && rng.coin(1, 5)) std::tie(l, r) = qs[rng(0, i - 1)]; qs.emplace_back(l, r); }
    begin("mo", n, qs); S::Mo m(n, qs);
    for (int t = 0; t < 2; ++t) {
        auto eval = [&] { ev("eval", m.get_query_id(), m.get_range()); return m.get_query_id(); };
        auto al = [&](int i) { ev("addl", i, std::make_pair(m.get_left(), m.get_right())); }; auto dl = [&](int i) { ev("dell", i, m.get_range()); }; auto ar = [&](int i) { ev("addr", i, m.get_range()); }; auto dr = [&](int i) { ev("delr", i, m.get_range()); };
        if (three) { auto add = [&](int i) { ev("add", i, m.get_range()); }; auto del = [&](int i) { ev("del", i, m.get_range()); }; ev("result", m.solve(eval, add, del)); }
        else ev("result", m.solve(eval, al, dl, ar, dr));
    }
    finish();
}
struct D { std::vector<int> h; ll s; D(ll s = 0) : s(s) {} };
void mg(D& a, const D& b) { a.h.push_back((int)b.s); a.s += b.s; }
void un(D& a) { a.s -= a.h.back(); a.h.pop_back(); }
ll gv(const D& a) { return a.s; }
void odc(bool sum) {
    int n = rng(1, LG ? 25 : 8); VI w = arr(n, -100, 100); begin("odc", n, w); S::OfflineDynamicConnectivity a(n); S::OfflineDynamicConnectivityComponentSum b; std::vector<std::pair<int, int>> es;
    int ops = LG ? rng(60, 200) : rng.coin(1, 10) ? rng(0, 2) : rng(5, 40);
    for (int i = 0; i < ops; ++i) {
        int u = rng(0, n - 1), v = rng(0, n - 1);
        switch (rng(0, 5)) {
            case 0: case 1: if (es.size() && rng.coin(1, 6)) std::tie(v, u) = rng.pick(es); es.emplace_back(u, v); sum ? b.add_query(u, v) : a.add_query(u, v); ev("add", u, v); break;
            case 2: if (es.size()) { int k = rng(0, es.size() - 1); std::tie(u, v) = es[k]; es.erase(es.begin() + k); if (rng.coin(1, 2)) std::swap(u, v); sum ? b.del_query(u, v) : a.del_query(u, v); ev("del", u, v); } break;
            case 3: if (sum) { b.component_sum_query(u); ev("sum", u); break; } [[fallthrough]];
            default: sum ? b.connectivity_query(u, v) : a.connectivity_query(u, v); ev("conn", u, v);
        }
    }
    pend("answer");
    // the recorded answers are pairs <<0, bool>> or <<1, sum>>
    auto out = [&](auto write) { if (ev_count++) cur += ','; cur += "[\"answer\",["; write(); cur += "]]"; };
    for (int t = 0; t < 2; ++t) {
        if (!sum) { auto r = a.answer(); out([&] { bool f = true; for (bool x : r) { if (!f) cur += ','; f = false; cur += "[0,"; put(cur, x); cur += ']'; } }); }
        else { std::vector<D> init(w.begin(), w.end()); auto r = b.answer<D, mg, un, ll, gv>(init); out([&] { bool f = true; for (auto& x : r) { if (!f) cur += ','; f = false; cur += x.index() ? "[1," : "[0,"; if (x.index()) put(cur, std::get<1>(x)); else put(cur, std::get<0>(x)); cur += ']'; } }); }
    }
    finish();
}
void gc() {
    int m = rng(1, LG ? 10 : 6), h = rng(1, LG ? 10 : 6); begin("gc", m); VI state(m, -1);
    for (int i = 0; i < h; ++i) { int d = rng(0, 2), mask = 0; VI row(m); for (int j = 0; j < m; ++j) if (row[j] = (i == 0 || !rng.coin(1, 12)) && rng.coin(1 + d, 3)) mask |= 1 << j; pend("transition", state, mask); auto r = S::grid_connectivity::transition(state, mask); ev("row", row, r.next_state, r.frontier_comp_num, r.forget_comp_num); state = r.next_state; if ((int)state.size() != m) break; }
    finish();
}
template <class F> void ranges(int n, int k, F f) { if (n <= 6) { for (int l = 0; l <= n; ++l) for (int r = l; r <= n; ++r) f(l, r); } else for (int i = 0; i < k; ++i) { int l = rng(0, n), r = rng(l, n); if (rng.coin(1, 6)) r = l; if (rng.coin(1, 6)) l = 0; if (rng.coin(1, 6)) r = n; f(l, r); } }
int pick_n() { if (LG) return rng(40, 110); return rng.coin(1, 10) ? 0 : rng.coin(1, 2) ? rng(1, 6) : rng(7, 30); }
void statics() {
    int n = pick_n(); VI a = word(n); begin("off", a);
    { pend("StaticRangeInversionNumberQuery"); if (rng.coin(1, 3)) { int mx = n ? *std::max_element(a.begin(), a.end()) : 0; std::vector<ll> b; for (int x : a) b.push_back(LLONG_MAX - (ll)(mx - x) * 4000000000LL); S::StaticRangeInversionNumberQuery<ll> q(b); ranges(n, 15, [&](int l, int r) { pend("rinv", l, r); ev("rinv", l, r, q(l, r)); }); } else if (rng.coin(1, 3)) { int mx = n ? *std::max_element(a.begin(), a.end()) : 0; VI b; for (int x : a) b.push_back(INT_MAX - (mx - x)); S::StaticRangeInversionNumberQuery<int> q(b); ranges(n, 15, [&](int l, int r) { pend("rinv", l, r); ev("rinv", l, r, q(l, r)); }); } else if (rng.coin(1, 2)) { S::StaticRangeInversionNumberQuery<int> q(a); ranges(n, 15, [&](int l, int r) { pend("rinv", l, r); ev("rinv", l, r, q(l, r)); }); } else { S::StaticRangeInversionNumberQuery<double> q(std::vector<double>(a.begin(), a.end())); ranges(n, 15, [&](int l, int r) { pend("rinv", l, r); ev("rinv", l, r, q(l, r)); }); } }
    { pend("StaticRangeModeQuery"); S::StaticRangeModeQuery<int> q(a); ranges(n, 15, [&](int l, int r) { if (l == r) return; pend("mode", l, r); auto [v, f] = rng.coin(1, 2) ? q(l, r) : q.query(l, r); ev("mode", l, r, v, f); }); }
    { pend("StaticRangeCountDistinctOffline"); S::StaticRangeCountDistinctOffline q(a); std::vector<std::pair<int, int>> qs; for (int t = 0; t < 2; ++t) { ranges(n, 12, [&](int l, int r) { if (rng.coin(1, 3)) return; int id = q.add_query(l, r); if (id != (int)qs.size()) ev("bad id", id); qs.emplace_back(l, r); }); ev("distinct", qs, q.solve()); } }
    ev("inv", a, S::inversion_number(a)); ev("lis", "inc", a, S::longest_increasing_subsequence(a)); ev("lis", "nondec", a, S::longest_nondecreasing_subsequence(a)); ev("lis", "dec", a, S::longest_decreasing_subsequence(a)); ev("lis", "noninc", a, S::longest_nonincreasing_subsequence(a));
    finish();
}
template <class T, int B> void mex() {
    int n = std::min(pick_n(), 36); std::vector<T> a(n); int k = rng(0, 2); std::vector<W> w; ull full = B >= 64 ? ~0ULL : (1ULL << B) - 1;
    T base = T(rng.next() & full); for (auto& x : a) x = k == 0 ? T(rng.next() & full) : k == 1 ? T(rng(0, (ll)std::min<ull>(n + 1, full))) : T((base ^ rng(0, std::max(1, n / 2))) & full);
    auto out = [](T x) { return uwide((std::make_unsigned_t<T>)x); }; for (T x : a) w.push_back(out(x));
    begin("off", w); pend("RangeXoredMexQuery"); S::RangeXoredMexQuery<T, B> q(a); if (rng.coin(1, 4)) { q = S::RangeXoredMexQuery<T, B>(); q.build(a); }
    ranges(n, 15, [&](int l, int r) { T x = rng.coin(1, 4) ? T(0) : n && rng.coin(1, 2) ? T(a[rng(0, n - 1)] ^ rng(0, 3)) : T(rng.next() & full); if (B < 30 && rng.coin(1, 6)) x = T(x | (T(1) << B)); pend("mex", l, r, out(x)); ev("mex", l, r, out(x), out(q.minimum_excluded(l, r, x))); });
    finish();
}
void rmq() {
    int n = rng.coin(1, 12) ? 0 : LG ? rng(100, 700) : rng.coin(1, 3) ? rng(1, 6) : rng(10, 80); VI a(n); int v = rng.coin(1, 3) ? rng(-5, 5) : rng.coin(1, 2) ? rng(1000, 2000000000) : rng(-2000000000, -1000), bias = rng(1, 3); for (int i = 0; i < n; ++i) { a[i] = v; v += rng.coin(bias, 4) ? 1 : -1; }
    begin("off", a); pend("RMQpm1"); S::RMQpm1<true> p(a); S::RMQpm1<false> q(a); S::RMQpm1WithIndex<true> s(a); S::RMQpm1WithIndex<false> t(a); VI c = a; S::RMQpm1<> u(std::move(c));
    ranges(n, 30, [&](int l, int r) { pend("rmq", l, r); ev("rmq", true, l, r, p(l, r)); ev("rmq", true, l, r, u(l, r)); ev("rmq", false, l, r, q(l, r)); auto x = s(l, r); ev("rmqi", true, l, r, x.first, x.second); x = t(l, r); ev("rmqi", false, l, r, x.first, x.second); });
    finish();
}
void grids() {
    begin("off"); int n = rng.coin(1, 10) ? 0 : rng(1, LG ? 7 : 5), m = rng(1, LG ? 7 : 5), d = rng(1, 5); VV g(n, VI(m)); for (auto& r : g) for (auto& x : r) x = rng.coin(d, 5);
    using R = std::tuple<int, int, int, int>; std::vector<R> out; S::maximal_rectangles(g, [&](int u, int dd, int l, int r) { out.emplace_back(u, dd, l, r); }); ev("maximals", g, out);
    auto a = S::maximum_rectngle(g); ev("maxrect", g, a.first, a.second); auto b = S::maximum_square(g); ev("maxsquare", g, b.first, b.second);
    VI h = arr(rng(0, LG ? 25 : 8), 0, rng(1, 6)); std::vector<std::tuple<int, int, int>> hs; S::maximal_rectangles_hist(h, [&](int l, int r, int v) { hs.emplace_back(l, r, v); }); ev("hist", h, hs);
    std::vector<bool> vb; // vector<bool> rows
    { std::vector<std::vector<bool>> gb(n, std::vector<bool>(m)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) gb[i][j] = g[i][j]; auto c = S::maximum_rectngle(gb); ev("maxrect", g, c.first, c.second); auto e = S::maximum_square(gb); ev("maxsquare", g, e.first, e.second); }
    int k = rng(0, LG ? 9 : 6); std::vector<std::tuple<ll, ll, ll, ll>> rs; ll c = rng.coin(1, 3) ? 1000000000 : rng(1, 8), kx = 1, ky = 1, ox = 0, oy = 0; if (rng.coin(1, 3)) { c = rng(1, 900); (rng.coin(1, 2) ? kx : ky) = alg::K; ox = rng(-100, 100) * alg::K; oy = rng(-100, 100) * alg::K; } std::vector<std::array<ll, 4>> o; for (int i = 0; i < k; ++i) { ll l = rng(-c, c), r = rng(l, c), dd = rng(-c, c), u = rng(dd, c); if (i && rng.coin(1, 5)) { l = o[i - 1][1]; r = std::max(r, l); } rs.emplace_back(l * kx + ox, r * kx + ox, dd * ky + oy, u * ky + oy); o.push_back({l, r, dd, u}); } pend("area"); ev("area", o, wide([&] { ll r = S::area_of_union_of_rectangles<ll>(rs); return r % (kx * ky) == 0 ? r / (kx * ky) : -1; }()));
    VI w = arr(rng(0, 9), 0, rng(0, 4)); ev("nsub", w, S::number_of_nonempty_subsequences<ll>(w));
    finish();
}
void invdesc(int n) {   // more than 2^31 inversions
    begin("off"); VI a(n); for (int i = 0; i < n; ++i) a[i] = n - i; std::vector<std::tuple<int, int, W>> o; pend("invdesc", n); S::StaticRangeInversionNumberQuery<int> q(a); for (int i = 0; i < 20; ++i) { int l = i < 5 ? i : i < 8 ? 0 : rng(0, n), r = i < 8 ? n - i / 3 : rng(l, n); o.emplace_back(l, r, wide(q(l, r))); }
    ev("invdesc", n, wide(S::inversion_number(a)), o); finish();
}
void ptree_one(const VI& p) { pend("PermutationTree", p); S::PermutationTree t(p); std::string o; std::vector<std::tuple<int, int, int, int, bool, VI>> ns; auto dfs = [&](auto dfs, const S::PermutationTree& u) -> void { VI c; for (auto& x : u) c.push_back(x.begin_index()); int w = rng(0, 3); auto ir = w == 0 ? std::pair<int, int>(u.begin_index(), u.end_index()) : w == 1 ? std::pair<int, int>(u.min_index(), u.max_index() + 1) : w == 2 ? u.get_index_range() : std::pair<int, int>(u.get_index_range_closed().first, u.get_index_range_closed().second + 1); auto vr = w == 0 ? std::pair<int, int>(u.begin_value(), u.end_value()) : w == 1 ? std::pair<int, int>(u.min_value(), u.max_value() + 1) : w == 2 ? u.get_value_range() : std::pair<int, int>(u.get_value_range_closed().first, u.get_value_range_closed().second + 1); ns.emplace_back(ir.first, ir.second, vr.first, vr.second, u.is_join_node(), c); for (auto& x : u) dfs(dfs, x); }; if (p.size()) dfs(dfs, t); else if (t.length()) ev("bad length"); ev("ptree", p, ns); }
void ptree_all(int n) { VI p(n); std::iota(p.begin(), p.end(), 0); int c = 0; begin("off"); do { ptree_one(p); if (++c % 60 == 0) { finish(); begin("off"); } } while (std::next_permutation(p.begin(), p.end())); finish(); }
void ptree() {
    begin("off"); for (int i = 0; i < 6; ++i) { int n = LG ? rng(14, 24) : rng(6, 12); VI p(n); std::iota(p.begin(), p.end(), 0);
        if (rng.coin(1, 3)) rng.shuffle(p); else for (int k = rng(1, 5); k--;) { int l = rng(0, n - 1), r = rng(l, n - 1) + 1; if (rng.coin(1, 2)) std::reverse(p.begin() + l, p.begin() + r); else std::rotate(p.begin() + l, p.begin() + rng(l, r - 1), p.begin() + r); } ptree_one(p); }
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    invdesc(66000); invdesc(300);
    for (int n = 0; n <= (args.thorough ? 6 : 5); ++n) ptree_all(n);
    for (int i = 0; i < reps(40); ++i) { LG = i % 5 == 4; horn(); two(); mo(i & 1); odc(i & 1); gc(); grids(); }
    for (int i = 0; i < reps(25); ++i) { LG = i % 5 == 4; statics(); rmq(); ptree(); mex<int, 4>(); mex<unsigned, 5>(); mex<int, 1>(); mex<ll, 30>(); mex<int, 32>(); mex<unsigned, 32>(); mex<ull, 64>(); mex<int, 31>(); }
}
