// C01: array structures folding an arbitrary monoid under point/range updates.
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
using namespace vt; using namespace alg;
using suisen::SegmentTree; using suisen::LazySegmentTree;

int lim_i; bool below(int q) { return q <= lim_i; }
const Word* wfun = nullptr; bool wpre(H h) { return wfun->is_prefix(h); } bool wsuf(H h) { return wfun->is_suffix(h); }
// ---------------------------------------------------------------- SegmentTree
void seg_session(int n, int len) {
    std::vector<int> cur = rvec(n);
    bool by_n = rng.coin(1, 4);
    if (by_n) cur.assign(n, -1);
    begin("seq", cur);
    SegmentTree<H, op, e> t(by_n ? SegmentTree<H, op, e>(n) : SegmentTree<H, op, e>(lift(cur)));
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 9); auto [l, r] = range(n);
        if (o <= 2) { int p = rng(0, n - 1), v = rv(); pend("set", p, v); if (rng.coin(1, 2)) t.set(p, one(v)); else t[p] = one(v); cur[p] = v; ev("set", p, v); }
        else if (o == 3) { int p = rng(0, n - 1); H g = t.get(p); ev("get", p, g.n ? g.h : -1); }
        else if (o == 4) { pend("prefix", r); ev("prod", 0, r, out(t.prefix_prod(r))); }
        else if (o == 5) { pend("suffix", l); ev("prod", l, n, out(t.suffix_prod(l))); }
        else if (o == 6) ev("prod", 0, n, out(t.all_prod()));
        else if (o == 7 && !by_n) { int x = rng(0, n); Word w(word_from(cur, x)); pend("max_right", x, w.w); ev("mr", x, w.w, t.max_right(x, [&](H h) { return w.is_prefix(h); })); }
        else if (o == 8 && !by_n) { int x = rng(0, n); Word w(word_to(cur, x)); pend("min_left", x, w.w); ev("ml", x, w.w, t.min_left(x, [&](H h) { return w.is_suffix(h); })); }
        else { pend("prod", l, r); ev("prod", l, r, out(rng.coin(1, 2) ? t.prod(l, r) : t(l, r))); }
    }
    finish();
}
ll add_l(ll a, ll b) { return a + b; } ll zero_l() { return 0; }
int add_i(int a, int b) { return a + b; } int zero_i() { return 0; }
void segnum_session(int n, int len) {
    std::vector<int> cur(n); for (auto& x : cur) x = rng(0, 50);
    begin("num", cur);
    SegmentTree<int, add_i, zero_i> t(cur);
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 12); auto [l, r] = range(n); int p = rng(0, n - 1), v = rng(0, 60);
        if (o == 0) { t[p] = v; ev("set", p, v); }
        else if (o == 1) { t[p] += v; ev("add", p, v); }
        else if (o == 2) { int c = t.get(p); if (c < v) v = c; t[p] -= v; ev("add", p, -v); }
        else if (o == 3) { if ((int)t[p] < 1000000) { t[p] *= 2; ev("mul", p, 2); } }
        else if (o == 4) { ++t[p]; ev("add", p, 1); }
        else if (o == 5) { if ((int)t[p] > 0) { --t[p]; ev("add", p, -1); } }
        else if (o == 6) { t[p] /= 3; ev("div", p, 3); }
        else if (o == 7) { t[p] %= 7; ev("mod", p, 7); }
        else if (o == 8) { if ((int)t[p] < 1000000) { t[p] <<= 1; ev("mul", p, 2); } else { t[p] >>= 1; ev("div", p, 2); } }
        else if (o == 9) { t[p].apply([v](int x) { return x + v; }); ev("add", p, v); }
        else if (o == 10) { int x = rng(0, n), s = rng(0, 100); lim_i = s; ev("mr", x, s, rng.coin(1, 2) ? t.max_right<below>(x) : t.max_right(x, [&](int q) { return q <= s; })); }
        else if (o == 11) { int x = rng(0, n), s = rng(0, 100); lim_i = s; ev("ml", x, s, rng.coin(1, 2) ? t.min_left<below>(x) : t.min_left(x, [&](int q) { return q <= s; })); }
        else ev("sum", l, r, t(l, r));
        if (rng.coin(1, 2)) ev("sum", l, r, t.prod(l, r));
        if (rng.coin(1, 4)) ev("get", p, (int)t[p]);
    }
    finish();
}
// ---------------------------------------------------------------- LazySegmentTree
void lazy_session(int n, int len) {
    std::vector<int> cur = rvec(n);
    begin("seq", cur);
    LazySegmentTree<H, op, e, F, mapping, comp, id> t(lift(cur));
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 12); auto [l, r] = range(n); int p = rng(0, n - 1);
        if (o <= 3) { F f = rf(); pend("apply", l, r); t.apply(l, r, f); for (int k = l; k < r; ++k) cur[k] = imap(f, cur[k]); ev("act", l, r, out(f)); }
        else if (o == 4) { F f = rf(); t.apply(p, f); cur[p] = imap(f, cur[p]); ev("act1", p, out(f)); }
        else if (o == 5) { int v = rv(); if (rng.coin(1, 2)) t.set(p, one(v)); else t[p] = one(v); cur[p] = v; ev("set", p, v); }
        else if (o == 6) ev("get", p, t.get(p).h);
        else if (o == 7) ev("prod", 0, r, out(t.prefix_prod(r)));
        else if (o == 8) ev("prod", 0, n, out(t.all_prod()));
        else if (o == 9) { int x = rng(0, n); Word w(word_from(cur, x)); pend("max_right", x, w.w); ev("mr", x, w.w, (wfun = &w, rng.coin(1, 2)) ? t.template max_right<wpre>(x) : t.max_right(x, [&](H h) { return w.is_prefix(h); })); }
        else if (o == 10) { int x = rng(0, n); Word w(word_to(cur, x)); pend("min_left", x, w.w); ev("ml", x, w.w, (wfun = &w, rng.coin(1, 2)) ? t.template min_left<wsuf>(x) : t.min_left(x, [&](H h) { return w.is_suffix(h); })); }
        else if (o == 11) { pend("suffix_prod", l); ev("prod", l, n, out(t.suffix_prod(l))); }
        else { pend("prod", l, r); ev("prod", l, r, out(rng.coin(1, 2) ? t.prod(l, r) : t(l, r))); }
    }
    finish();
}
// ---------------------------------------------------------------- dual trees
F addcomp(F f, F g) { return F{1, (f.b + g.b) % PR}; }
template <class T> void dual_session(int n, int len, bool comm) {
    std::vector<int> cur = rvec(n);
    bool fill = rng.coin(1, 5); int fv = rv(); if (fill) cur.assign(n, fv);
    begin("seq", cur);
    T t = fill ? T(n, fv) : T(cur);
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(n); int p = rng(0, n - 1);
        if (rng.coin(1, 2)) { F f = rf(); if (comm) f.a = 1; pend("apply", l, r); t.apply(l, r, f); ev("act", l, r, out(f)); }
        else ev("get", p, rng.coin(1, 2) ? t.get(p) : t[p]);
    }
    std::vector<int> d; for (int i = 0; i < n; ++i) d.push_back(t.get(i));
    ev("dump", d);
    finish();
}
using DST = suisen::DualSegmentTree<int, F, imap, comp, id>;
using CDST = suisen::CommutativeDualSegmentTree<int, F, imap, addcomp, id>;
// ---------------------------------------------------------------- compressed trees
std::vector<int> coords(int k) { std::set<int> s; ll w = rng.coin(1, 2) ? 2 * k + 3 : rng.coin(1, 2) ? 2000000000 : 4294967280LL; if (w > 4000000000LL && rng.coin(1, 2)) s.insert(w / 2), s.insert(-w / 2); while ((int)s.size() < k) s.insert((int)(rng(0, w) - w / 2)); while ((int)s.size() > k) s.erase(s.begin()); return std::vector<int>(s.begin(), s.end()); }
void comp1_session(int k, int len) {
    auto xs = coords(k);
    suisen::CompressedSegmentTree<H, op, e> t;
    auto order = xs; rng.shuffle(order); for (int x : order) { t.add_point(x); if (rng.coin(1, 3)) t.add_point(x); }
    t.build();
    begin("seq", std::vector<int>(k, -1));
    auto at = [&](int i) { return i < k ? xs[i] : xs[k - 1] + 1; };
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(k); int p = rng(0, k - 1);
        if (rng.coin(2, 5)) { int v = rv(); t.set(xs[p], one(v)); ev("set", p, v); }
        else if (rng.coin(1, 5)) { H g = t.get(xs[p]); ev("get", p, g.n ? g.h : -1); }
        else ev("prod", l, r, out(rng.coin(1, 2) ? t.query(at(l), at(r)) : t.query({at(l), at(r)})));
    }
    finish();
}
template <int KD> void cubeK_session(int m, int len) {
    std::vector<std::vector<int>> xs; for (int d = 0; d < KD; ++d) xs.push_back(coords(rng(1, m)));
    suisen::CompressedSegmentTree<ll, add_l, zero_l, KD> t;
    std::set<std::vector<int>> pts; int np = rng(1, 3 * m);
    std::vector<std::vector<int>> cells;
    for (int i = 0; i < np; ++i) { std::vector<int> c; for (int d = 0; d < KD; ++d) c.push_back(rng(0, xs[d].size() - 1)); pts.insert(c); }
    for (auto& c : pts) { auto q = c; q.push_back(0); cells.push_back(q); }
    rng.shuffle(cells);
    for (auto& c : cells) { std::array<int, KD> a; for (int d = 0; d < KD; ++d) a[d] = xs[d][c[d]]; t.add_point(a); if (rng.coin(1, 4)) t.add_point(a); }
    t.build();
    begin("cube", cells);
    auto at = [&](int d, int i) { return i < (int)xs[d].size() ? xs[d][i] : xs[d].back() + 1; };
    for (int i = 0; i < len; ++i) {
        auto c = rng.pick(cells); c.pop_back(); std::array<int, KD> a; for (int d = 0; d < KD; ++d) a[d] = xs[d][c[d]];
        int o = rng(0, 9);
        if (o <= 3) { int v = rng(-99, 99); t.apply(a, v * K); ev("add", c, v); }
        else if (o == 4) ev("get", c, dn(t.get(a)));
        else if (o == 5) { int v = rng(-99, 99); t.set(a, v * K); ev("set", c, v); }
        else {
            std::array<std::pair<int, int>, KD> q; std::vector<std::pair<int, int>> b;
            for (int d = 0; d < KD; ++d) { auto lr = range(xs[d].size()); b.push_back(lr); q[d] = {at(d, lr.first), at(d, lr.second)}; }
            ev("sum", b, dn(t.query(q)));
        }
    }
    finish();
}
// ---------------------------------------------------------------- sparse trees
H initL(ll l, ll r) { H res = e(); for (ll i = l; i < r; ++i) res = op(res, one((int)(i * 7 % 31))); return res; }
template <class Idx> std::vector<Idx> bigcoords(int k, Idx n) { std::set<Idx> s; while ((int)s.size() < k) { s.insert(rng.coin(1, 3) ? (Idx)rng(0, std::min<ll>(n - 1, 3 * k)) : rng.coin(1, 3) ? (Idx)(n - 1 - rng(0, std::min<ll>(n - 1, 3 * k))) : (Idx)rng(0, n - 1)); } return std::vector<Idx>(s.begin(), s.end()); }
template <class Idx> void sparse_session(Idx n, int k, int len) {
    k = std::min<ll>(k, n); auto xs = bigcoords<Idx>(k, n);
    using T = suisen::SparseSegmentTree<Idx, H, op, e>;
    T t(n);
    begin("seq", std::vector<int>(k, -1));
    auto at = [&](int i) -> Idx { return i < k ? xs[i] : n; };
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(k); int p = rng(0, k - 1);
        if (rng.coin(2, 5)) { int v = rv(); t.set(xs[p], one(v)); ev("set", p, v); }
        else if (rng.coin(1, 5)) { H g = t.get(xs[p]); ev("get", p, g.n ? g.h : -1); }
        else if (rng.coin(1, 5)) ev("prod", 0, k, out(t.prod_all()));
        else ev("prod", l, r, out(rng.coin(1, 2) ? t(at(l), at(r)) : t.prod(at(l), at(r))));
    }
    finish();
}
void sparse_init_session(int n, int len) {
    using T = suisen::SparseSegmentTree<ll, H, op, e, initL>;
    T t(n); std::vector<int> cur; for (int i = 0; i < n; ++i) cur.push_back(i * 7 % 31);
    begin("seq", cur);
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(n); int p = rng(0, n - 1);
        if (rng.coin(1, 4)) { int v = rv(); t.set(p, one(v)); ev("set", p, v); }
        else if (rng.coin(1, 5)) { F f = rf(); t.apply_fun(p, [&](H x) { return mapping(f, x); }); ev("act1", p, out(f)); }
        else if (rng.coin(1, 5)) ev("get", p, t.get(p).h);
        else if (rng.coin(1, 5)) ev("prod", 0, n, out(t.prod_all()));
        else ev("prod", l, r, out(t.prod(l, r)));
    }
    finish();
}
H mapL(F f, H x, ll, ll) { return mapping(f, x); }
void sparse_lazy_session(int n, int len) {
    using T = suisen::SparseLazySegmentTree<ll, H, op, e, F, mapL, comp, id, initL>;
    T t(n); std::vector<int> cur; for (int i = 0; i < n; ++i) cur.push_back(i * 7 % 31);
    begin("seq", cur);
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(n); int p = rng(0, n - 1); int o = rng(0, 9); F f = rf();
        if (o == 0) { int v = rv(); t.set(p, one(v)); ev("set", p, v); }
        else if (o == 1) { t.apply(p, f); ev("act1", p, out(f)); }
        else if (o <= 4) { t.apply(l, r, f); ev("act", l, r, out(f)); }
        else if (o == 5) { t.apply_all(f); ev("act", 0, n, out(f)); }
        else if (o == 6) ev("get", p, t.get(p).h);
        else if (o == 7) ev("prod", 0, n, out(t.prod_all()));
        else ev("prod", l, r, out(rng.coin(1, 2) ? t.prod(l, r) : t(l, r)));
    }
    finish();
}
// sum over huge index ranges: T = sum mod PR, init value of element i is (i mod PR)
typedef std::pair<int, int> SL;  // sum, len
SL sl_op(SL a, SL b) { return {(a.first + b.first) % PR, (a.second + b.second) % PR}; }
SL sl_e() { return {0, 0}; }
int modp(i128 x) { return (int)(((x % PR) + PR) % PR); }
SL sl_init(ll l, ll r) { i128 n = (i128)r - l; i128 s = (i128)l + r - 1; i128 prod = (n % 2 == 0) ? (n / 2 % PR) * (s % PR) : (n % PR) * (s / 2 % PR); return {modp(prod), modp(n)}; }
SL sl_map(F f, SL x, ll l, ll r) { return {(int)(((ll)f.a * x.first + (ll)f.b * modp((i128)r - l)) % PR), x.second}; }
void sparse_lazy_big_session(ll n, int k, int len) {
    k = std::min<ll>(k, n - 1); std::vector<ll> xs = bigcoords<ll>(k, n); if (xs[0] != 0) xs.insert(xs.begin(), 0); k = xs.size();
    using T = suisen::SparseLazySegmentTree<ll, SL, sl_op, sl_e, F, sl_map, comp, id, sl_init>;
    T t(n); auto at = [&](int i) -> ll { return i < k ? xs[i] : n; };
    std::vector<SL> segs; for (int i = 0; i < k; ++i) segs.push_back(sl_init(at(i), at(i + 1)));
    begin("wseg", segs);
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(k); int p = rng(0, k - 1); int o = rng(0, 9); F f = rf();
        if (o <= 3) { t.apply(at(l), at(r), f); ev("act", l, r, out(f)); }
        else if (o == 4) { t.apply_all(f); ev("act", 0, k, out(f)); }
        else if (o == 5 && at(p + 1) - at(p) == 1) { if (rng.coin(1, 2)) ev("get", p, t.get(at(p)).first); else { int v = rv(); t.set(at(p), SL{v, 1}); ev("set", p, v); } }
        else if (o == 6) ev("sum", 0, k, t.prod_all());
        else ev("sum", l, r, t(at(l), at(r)));
    }
    finish();
}
// ---------------------------------------------------------------- 2D
int max_i(int a, int b) { return std::max(a, b); } int ninf() { return -1; } ll max_l(ll a, ll b) { return std::max(a, b); } ll ninf_l() { return -1 * K; }
template <ll (*OP)(ll, ll), ll (*E)()> void seg2d_session(int n, int m, int len, const char* q) {
    std::vector<std::vector<int>> a(n, std::vector<int>(m)); for (auto& r : a) for (auto& x : r) x = rng(0, 99);
    bool zero = rng.coin(1, 4); if (zero) for (auto& r : a) for (auto& x : r) x = dn(E());
    std::vector<std::vector<ll>> b; for (auto& r : a) b.push_back(up(r));
    suisen::SegmentTree2D<ll, OP, E> t = zero ? suisen::SegmentTree2D<ll, OP, E>(n, m) : suisen::SegmentTree2D<ll, OP, E>(b);
    begin("grid", a);
    for (int i = 0; i < len; ++i) {
        int x = rng(0, n - 1), y = rng(0, m - 1); auto [u, d] = range(n); auto [l, r] = range(m);
        if (rng.coin(1, 3)) { int v = rng(0, 99); t.set(x, y, v * K); ev("set", x, y, v); }
        else if (rng.coin(1, 5)) ev("get", x, y, dn(t.get(x, y)));
        else ev(q, u, d, l, r, dn(t(u, d, l, r)));
    }
    finish();
}
void seg2ds_session(int m, int len) {
    auto X = coords(rng(1, m)), Y = coords(rng(1, m)); int n = X.size(), w = Y.size();
    std::vector<std::pair<int, int>> pts; std::set<std::pair<int, int>> ps; int np = rng(1, 2 * m);
    for (int i = 0; i < np; ++i) ps.insert({(int)rng(0, n - 1), (int)rng(0, w - 1)});
    pts.assign(ps.begin(), ps.end()); rng.shuffle(pts);
    suisen::SegmentTree2DSparse<ll, add_l, zero_l> t(n + rng(0, 2));
    for (auto [x, y] : pts) { t.add_point(X[x], Y[y]); if (rng.coin(1, 5)) t.add_point(X[x], Y[y]); }
    t.build();
    begin("grid", std::vector<std::vector<int>>(n, std::vector<int>(w, 0)));
    auto ax = [&](int i) { return i < n ? X[i] : X.back() + 1; }; auto ay = [&](int i) { return i < w ? Y[i] : Y.back() + 1; };
    for (int i = 0; i < len; ++i) {
        auto [x, y] = rng.pick(pts); auto [u, d] = range(n); auto [l, r] = range(w); int v = rng(0, 99);
        if (rng.coin(1, 4)) { t.set(X[x], Y[y], v * K); ev("set", x, y, v); }
        else if (rng.coin(1, 5)) { t[{X[x], Y[y]}] += v * K; ev("add", x, y, v); }
        else if (rng.coin(1, 6)) ev("get", x, y, dn(t.get(X[x], Y[y])));
        else if (rng.coin(1, 6)) ev("sum", 0, n, 0, w, dn(t.all_prod()));
        else ev("sum", u, d, l, r, dn(rng.coin(1, 2) ? t(ax(u), ax(d), ay(l), ay(r)) : t.prod(ax(u), ax(d), ay(l), ay(r))));
    }
    finish();
}

void seg2dm_session(int m, int len) {
    auto X = coords(rng(1, m)), Y = coords(rng(1, m)); int n = X.size(), w = Y.size();
    std::set<std::pair<int, int>> ps; int np = rng(1, 2 * m);
    for (int i = 0; i < np; ++i) ps.insert({(int)rng(0, n - 1), (int)rng(0, w - 1)});
    std::vector<std::pair<int, int>> pts(ps.begin(), ps.end()); rng.shuffle(pts);
    suisen::SegmentTree2DSparse<int, max_i, ninf> t(n);
    for (auto [x, y] : pts) t.add_point(X[x], Y[y]);
    t.build();
    begin("grid", std::vector<std::vector<int>>(n, std::vector<int>(w, -1)));
    auto ax = [&](int i) { return i < n ? X[i] : X.back() + 1; }; auto ay = [&](int i) { return i < w ? Y[i] : Y.back() + 1; };
    auto rank = [&](int y) { return int(std::lower_bound(Y.begin(), Y.end(), y) - Y.begin()); };
    for (int i = 0; i < len; ++i) {
        auto [x, y] = rng.pick(pts); auto [u, d] = range(n); auto [l, r] = range(w); int v = rng(0, 20);
        pend(u, d, l, r, v);
        if (rng.coin(1, 3)) { t.set(X[x], Y[y], v); ev("set", x, y, v); }
        else if (rng.coin(1, 3)) ev("max", u, d, l, r, t(ax(u), ax(d), ay(l), ay(r)));
        else if (rng.coin(1, 2)) { int q = t.max_up(ax(u), ax(d), ay(l), [&](int z) { return z <= v; }); ev("up", u, d, l, v, q == std::numeric_limits<int>::max() ? w : rank(q) < w && Y[rank(q)] == q ? rank(q) : -1); }
        else { int q = t.min_down(ax(u), ax(d), ay(r), [&](int z) { return z <= v; }); ev("down", u, d, r, v, q == std::numeric_limits<int>::min() ? 0 : rank(q - 1) < w && Y[rank(q - 1)] == q - 1 ? rank(q - 1) + 1 : -1); }
    }
    finish();
}
// ---------------------------------------------------------------- sparse table
typedef std::array<int, 3> B3;
B3 band(B3 a, B3 b) { if (a[0] < 0) return b; if (b[0] < 0) return a; return {a[0], b[1], std::max(a[2], b[2])}; }
B3 band_e() { return {-1, -1, -1}; }
void sptable_session(int n) {
    auto a = rvec(n); std::vector<B3> b; for (int x : a) b.push_back({x, x, x});
    begin("band", a);
    suisen::SparseTable<B3, band, band_e> t(b);
    for (int i = 0; i < 25; ++i) { auto [l, r] = range(n); ev("prod", l, r, rng.coin(1, 2) ? t(l, r) : t.prod(l, r)); }
    finish();
}
// ---------------------------------------------------------------- beats

template <class T> void beats_session(int n, int len, T k = 1) {
    auto q = [&](T x) { return x % k == 0 ? (ll)(x / k) : 987654321; };
    int w = rng.coin(1, 2) ? 4 : 1000;
    std::vector<T> a(n); for (auto& x : a) x = rng(-w, w);
    bool zero = rng.coin(1, 6); if (zero) a.assign(n, 0);
    begin("num", a);
    for (auto& x : a) x *= k;
    suisen::RangeChMinMaxAddRangeSum<T> t = zero ? suisen::RangeChMinMaxAddRangeSum<T>(n) : suisen::RangeChMinMaxAddRangeSum<T>(a);
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(n); T v = rng(-w, w); int o = rng(0, 9);
        pend(o, l, r, v);
        if (o == 0) { t.chmin(l, r, v * k); ev("chmin", l, r, v); }
        else if (o == 1) { t.chmax(l, r, v * k); ev("chmax", l, r, v); }
        else if (o == 2) { t.add(l, r, v * k); ev("radd", l, r, v); }
        else if (o == 3 && rng.coin(1, 2)) { t.update(l, r, v * k); ev("rset", l, r, v); }
        else if (l == r) ev("sum", l, r, q(t.sum(l, r)));
        else if (o == 6) { auto d = t.prod(l, r); T inf = std::numeric_limits<T>::max() / 4; auto opt = [&](T x) { return x > inf || x < -inf ? std::vector<ll>{} : std::vector<ll>{q(x)}; };
            ev("ext", l, r, q(d.get_min()), opt(d.get_second_min()), (int)d.get_min_num(), q(d.get_max()), opt(d.get_second_max()), (int)d.get_max_num(), q(d.get_sum())); }
        else if (o == 7) { using DT = typename suisen::RangeChMinMaxAddRangeSum<T>::DataType; if (rng.coin(1, 2)) ev("mrle", l, v, t.max_right(l, [&](DT x) { return x.get_max() <= v * k; })); else ev("mlle", r, v, t.min_left(r, [&](DT x) { return x.get_max() <= v * k; })); }
        else if (o == 4) ev("min", l, r, 2147483647, q(t.min(l, r)));
        else if (o == 5) ev("max", l, r, -2147483647, q(t.max(l, r)));
        else ev("sum", l, r, q(t.sum(l, r)));
    }
    finish();
}
// behaviours generated from the specification (Gen_C01)
template <class T> void seq_calls(T& t, const std::vector<Call>& h, int n) {
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; pend(c[0]);
        if (c[0] == "set") { t.set(num(c, 1), one(num(c, 2))); ev("set", num(c, 1), num(c, 2)); }
        else if (c[0] == "prod") ev("prod", num(c, 1), num(c, 2), out(t.prod(num(c, 1), num(c, 2))));
        else if constexpr (!std::is_same_v<T, SegmentTree<H, op, e>>) { F f{num(c, 3), num(c, 4)}; t.apply(num(c, 1), num(c, 2), f); ev("act", num(c, 1), num(c, 2), out(f)); } }
    for (int l = 0; l <= n; ++l) for (int r = l; r <= n; r += n > 4 ? 2 : 1) ev("prod", l, r, out(t.prod(l, r)));
    for (int i = 0; i < n; ++i) ev("get", i, t.get(i).h);
}
void replay() {
    int line = 0;
    for (auto& h : script()) {
        int n = num(h[0], 1); std::vector<int> cur(n); std::iota(cur.begin(), cur.end(), 1); bool acts = false; for (auto& c : h) acts = acts || c[0] == "act"; ++line;
        begin("seq", cur); if (acts) { LazySegmentTree<H, op, e, F, mapping, comp, id> t(lift(cur)); seq_calls(t, h, n); } else { SegmentTree<H, op, e> t(lift(cur)); seq_calls(t, h, n); } finish();
    }
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    replay();
    for (int i = 0; i < reps(900); ++i) {
        int n = i % 60 == 5 ? rng(120, 270) : rsize(i % 10 == 0 ? 70 : 20), len = 40;
        seg_session(n, len); lazy_session(n, len); if (i % 3 == 0) segnum_session(n, len);
        dual_session<DST>(n, len, false); if (i % 2) dual_session<CDST>(n, len, true);
        if (i % 2) comp1_session(rsize(16), len);
        if (i % 3 == 0) cubeK_session<2>(6, len); if (i % 4 == 0) cubeK_session<3>(4, len);
        if (i % 3 == 0) sparse_session<int>(rng.coin(1, 2) ? rng(1, 40) : 1000000000, rsize(16), len);
        if (i % 3 == 1) sparse_session<ll>(rng.coin(1, 2) ? rng(1, 40) : 1000000000000000000LL, rsize(16), len);
        if (i % 3 == 2) sparse_init_session(n, len);
        sparse_lazy_session(n, len);
        if (i % 2) sparse_lazy_big_session(rng.coin(1, 3) ? rng(2, 40) : rng.coin(1, 2) ? 1000000000LL : 1000000000000000000LL, 12, len);
        if (i % 3 == 0) seg2d_session<add_l, zero_l>(rsize(9), rsize(9), len, "sum");
        if (i % 3 == 1) seg2d_session<max_l, ninf_l>(rsize(9), rsize(9), len, "max");
        if (i % 3 == 2) seg2ds_session(7, len); seg2dm_session(7, len);
        if (i % 3 == 0) sptable_session(rsize(70));
        beats_session<int>(n, len); if (i % 2) beats_session<ll>(n, len), beats_session<ll>(n, len, K);
    }
}
