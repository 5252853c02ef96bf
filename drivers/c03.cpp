// C03: persistent structures: every version keeps its contents for ever.
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
using namespace vt; using namespace alg; using namespace suisen;
std::vector<int> vals(const std::vector<H>& v) { std::vector<int> r; for (auto& h : v) r.push_back(h.n ? h.h : -1); return r; }
template <class V> int pickv(const V& vs) { int k = vs.size(); return rng.coin(1, 3) ? k - 1 : rng.coin(1, 3) ? 0 : rng(0, k - 1); }
template <class T> void fresh(int cap) { static bool first = true; if (first || rng.coin(1, 2)) T::init_pool(cap), first = false; else T::clear_pool(); }
bool big_pred(H h) { return h.n <= 3; }
// ---------------------------------------------------------------- segment trees (plain, lazy)
void pseg(int n, int len) {
    using T = PersistentSegmentTree<H, op, e>; fresh<T>(20000);
    auto cur = rvec(n); bool by_n = n && rng.coin(1, 5); if (by_n) cur.assign(n, -1);
    std::vector<std::vector<int>> m{cur};
    begin("vseq", std::vector<std::vector<int>>{cur}); pend("build");
    std::vector<T> vs{by_n ? T(n) : n == 0 && rng.coin(1, 2) ? T() : T(lift(cur))};
    for (int i = 0; i < len; ++i) {
        int v = pickv(vs), o = rng(0, 9); auto [l, r] = range(n); auto& t = vs[v];
        if (o <= 2 && n) { int p = rng(0, n - 1), x = rv(); pend("set", v, p, x); T nt = rng.coin(1, 2) ? t.set(p, one(x)) : t.apply(p, [&](H) { return one(x); }); vs.push_back(nt); m.push_back(m[v]); m.back()[p] = x; ev("set", v, p, x); }
        else if (o == 3 && n) { int p = rng(0, n - 1); H g = rng.coin(1, 2) ? t.get(p) : t[p]; ev("get", v, p, g.n ? g.h : -1); }
        else if (o == 4) ev("prod", v, 0, n, out(t.prod_all()));
        else if (o == 5 && !by_n && n) { int x = rng(0, n); Word w(word_from(m[v], x)); pend("mr", v, x, w.w); ev("mr", v, x, w.w, t.max_right(x, [&](H h) { return w.is_prefix(h); })); }
        else if (o == 6 && !by_n && n) { int x = rng(0, n); Word w(word_to(m[v], x)); pend("ml", v, x, w.w); ev("ml", v, x, w.w, t.min_left(x, [&](H h) { return w.is_suffix(h); })); }
        else if (o == 7) { if (rng.coin(1, 2)) ev("dump", v, vals(t.dump())); else { std::vector<H> q; t.dump(std::back_inserter(q)); ev("dump", v, vals(q)); } }
        else if (o == 8 && !by_n && n) { int x = rng(0, n); if (rng.coin(1, 2)) ev("cr", v, x, 3, t.template max_right<big_pred>(x)); else ev("cl", v, x, 3, t.template min_left<big_pred>(x)); }
        else { pend("prod", v, l, r); ev("prod", v, l, r, out(rng.coin(1, 2) ? t.prod(l, r) : t(l, r))); }
    }
    for (int v = 0; v < (int)vs.size(); ++v) ev("dump", v, vals(vs[v].dump()));
    finish();
}
void plazy(int n, int len) {
    using T = PersistentLazySegmentTree<H, op, e, F, mapping, comp, id>; fresh<T>(40000);
    auto cur = rvec(n); std::vector<std::vector<int>> m{cur};
    begin("vseq", std::vector<std::vector<int>>{cur}); pend("build");
    std::vector<T> vs{n == 0 && rng.coin(1, 2) ? T() : T(lift(cur))};
    for (int i = 0; i < len; ++i) {
        int v = pickv(vs), o = rng(0, 11); auto [l, r] = range(n); auto& t = vs[v]; F f = rf();
        if (o <= 1 && n) { int p = rng(0, n - 1), x = rv(); pend("set", v, p, x); T nt = rng.coin(1, 2) ? t.set(p, one(x)) : t.apply(p, [&](H) { return one(x); }); vs.push_back(nt); m.push_back(m[v]); m.back()[p] = x; ev("set", v, p, x); }
        else if (o <= 4 && n) { pend("apply", v, l, r); T nt = t.apply(l, r, f); vs.push_back(nt); m.push_back(m[v]); for (int k = l; k < r; ++k) m.back()[k] = imap(f, m.back()[k]); ev("act", v, l, r, out(f)); }
        else if (o == 5 && n) { T nt = t.apply_all(f); vs.push_back(nt); m.push_back(m[v]); for (int& x : m.back()) x = imap(f, x); ev("act", v, 0, n, out(f)); }
        else if (o == 6 && n) { int p = rng(0, n - 1); H g = rng.coin(1, 2) ? t.get(p) : t[p]; ev("get", v, p, g.h); }
        else if (o == 7) ev("prod", v, 0, n, out(t.prod_all()));
        else if (o == 8 && n) { int x = rng(0, n); if (rng.coin(1, 3)) { if (rng.coin(1, 2)) ev("cr", v, x, 3, t.template max_right<big_pred>(x)); else ev("cl", v, x, 3, t.template min_left<big_pred>(x)); } Word w(word_from(m[v], x)); pend("mr", v, x, w.w); ev("mr", v, x, w.w, t.max_right(x, [&](H h) { return w.is_prefix(h); })); }
        else if (o == 9 && n) { int x = rng(0, n); Word w(word_to(m[v], x)); pend("ml", v, x, w.w); ev("ml", v, x, w.w, t.min_left(x, [&](H h) { return w.is_suffix(h); })); }
        else if (o == 10) { pend("dump", v); if (rng.coin(1, 2)) ev("dump", v, vals(t.dump())); else { std::vector<H> q; t.dump(std::back_inserter(q)); ev("dump", v, vals(q)); } }
        else { pend("prod", v, l, r); ev("prod", v, l, r, out(rng.coin(1, 2) ? t.prod(l, r) : t(l, r))); }
    }
    for (int v = 0; v < (int)vs.size(); ++v) ev("dump", v, vals(vs[v].dump()));
    finish();
}
F addcomp(F f, F g) { return F{1, (f.b + g.b) % PR}; }
template <class T> void pdual(int n, int len, bool comm) {
    fresh<T>(40000);
    begin("vdual", std::vector<std::vector<std::pair<int, int>>>{std::vector<std::pair<int, int>>(n, {1, 0})});
    std::vector<T> vs{T(n)};
    auto dump = [&](int v) { std::vector<std::pair<int, int>> d; for (int i = 0; i < n; ++i) d.push_back(out(vs[v].get(i))); ev("dump", v, d); };
    for (int i = 0; i < len; ++i) {
        int v = pickv(vs), o = rng(0, 6); auto [l, r] = range(n); F f = rf(); if (comm) f.a = 1;
        if (o <= 2) { pend("apply", v, l, r); T nt = vs[v].apply(l, r, f); vs.push_back(nt); ev("comp", v, l, r, out(f)); }
        else if (o == 3) { T nt = vs[v].apply_all(f); vs.push_back(nt); ev("comp", v, 0, n, out(f)); }
        else if (o == 4) dump(v);
        else { int p = rng(0, n - 1); ev("get", v, p, out(rng.coin(1, 2) ? vs[v].get(p) : vs[v][p])); }
    }
    for (int v = 0; v < (int)vs.size(); ++v) dump(v);
    finish();
}
using PD = PersistentDualSegmentTree<F, comp, id>; using PCD = PersistentCommutativeDualSegmentTree<F, addcomp, id>;
// ---------------------------------------------------------------- array, fenwick, union find
template <int LG, class V = int> void parr(int n, int len) {
    const V k = std::is_same_v<V, ll> ? (V)K : (V)1; auto out = [&](V x) { return std::is_same_v<V, ll> ? dn(x) : (int)x; }; auto outs = [&](const std::vector<V>& a) { std::vector<int> r; for (V x : a) r.push_back(out(x)); return r; };
    using T = PersistentArray<V, LG>; T::init_pool(20000);
    auto cur = rvec(n); bool fill = n && rng.coin(1, 4); if (fill) cur.assign(n, cur[0]);
    begin("vseq", std::vector<std::vector<int>>{cur}); pend("build");
    std::vector<V> ck; for (int x : cur) ck.push_back(x * k); std::vector<T> vs{fill ? T(n, ck[0]) : T(ck)};
    if (n && rng.coin(1, 3)) for (int i = 0; i < 6; ++i) { int p = rng(0, n - 1), x = rv(); pend("mset", 0, p, x); V y = vs[0].mut_set(p, x * k); ev("mset", 0, p, x, out(y)); }   // in place: no other version exists yet
    for (int i = 0; i < len; ++i) {
        int v = pickv(vs), o = rng(0, 5);
        if (o == 5) { pend("clone", v); T nt = vs[v].clone(); vs.push_back(nt); ev("clone", v); }
        else if (o <= 1 && n) { int p = rng(0, n - 1), x = rv(); pend("set", v, p, x); T nt = vs[v].set(p, x * k); vs.push_back(nt); ev("set", v, p, x); }
        else if (o == 2 && n) { int p = rng(0, n - 1); pend("get", v, p); ev("get", v, p, out(vs[v].get(p))); }
        else if (o == 3) { pend("dump", v); ev("dump", v, outs(vs[v].dump())); }
        else ev("len", v, vs[v].size());
    }
    for (int v = 0; v < (int)vs.size(); ++v) { std::vector<int> d; for (int i = 0; i < n; ++i) d.push_back(out(vs[v].get(i))); ev("dump", v, d); ev("dump", v, outs(vs[v].dump())); }
    finish();
}
template <class V> void pft(int n, int len) {
    const V k = std::is_same_v<V, ll> ? (V)K : (V)1; auto out = [&](V x) { return std::is_same_v<V, ll> ? dn(x) : (int)x; };
    using T = PersistentFenwickTree<V>; fresh<T>(20000);
    std::vector<int> cur(n); bool by_n = rng.coin(1, 3); for (auto& x : cur) x = by_n ? 0 : rng(-99, 99);
    begin("vseq", std::vector<std::vector<int>>{cur}); pend("build");
    std::vector<V> cv(n); for (int i = 0; i < n; ++i) cv[i] = cur[i] * k;
    std::vector<T> vs{by_n ? T(n) : T(cv)};
    for (int i = 0; i < len; ++i) {
        int v = pickv(vs); auto [l, r] = range(n);
        if (rng.coin(1, 2) && n) { int p = rng(0, n - 1), x = rng(-99, 99); pend("add", v, p, x); T nt = vs[v].add(p, x * k); vs.push_back(nt); ev("add", v, p, x); }
        pend("sum", v, l, r); ev("sum", v, l, r, out(vs[v].sum(l, r)));
    }
    for (int v = 0; v < (int)vs.size(); ++v) { std::vector<int> d; for (int i = 0; i < n; ++i) d.push_back(out(vs[v].sum(i, i + 1))); ev("dump", v, d); }
    finish();
}
void puf(int n, int len) {
    PersistentUnionFind::init_pool(40000);
    std::vector<int> l0(n); std::iota(l0.begin(), l0.end(), 0);
    begin("vuf", std::vector<std::vector<int>>{l0});
    std::vector<PersistentUnionFind> vs{PersistentUnionFind(n)};
    for (int i = 0; i < len; ++i) {
        int v = pickv(vs), x = rng(0, n - 1), y = rng(0, n - 1), o = rng(0, 6);
        if (o <= 2) { pend("merge", v, x, y); auto [t, b] = vs[v].merge(x, y); vs.push_back(t); ev("merge", v, x, y, b); }
        else if (o == 3) ev("same", v, x, y, vs[v].same(x, y));
        else if (o == 4) ev("size", v, x, vs[v].size(x));
        else if (o == 5) ev("groups", v, vs[v].groups());
        else { int r1 = vs[v].root(x), r2 = vs[v][y]; ev("roots", v, x, y, r1, r2); }
    }
    for (int v = 0; v < (int)vs.size(); ++v) ev("groups", v, vs[v].groups());
    finish();
}
// ---------------------------------------------------------------- persistent red-black trees
struct FO { int a = 1, b = 0; bool operator!=(const FO& o) const { return a != o.a || b != o.b; } };   // id must be recognisable
FO fid() { return FO{}; } FO fcomp(FO f, FO g) { F r = comp(F{f.a, f.b}, F{g.a, g.b}); return FO{r.a, r.b}; } H fmap(FO f, H x, int n) { return mapn(F{f.a, f.b}, x, n); }
// commutative fold for the reversible tree: sums mod PR with a count
struct S { int s = 0, n = 0; }; S sop(S a, S b) { return S{(a.s + b.s) % PR, a.n + b.n}; } S se() { return S{}; } S smap(FO f, S x, int n) { return S{(int)(((ll)f.a * x.s + (ll)f.b * n) % PR), x.n}; }
int mk(int v, int*) { return v; } H mk(int v, H*) { return one(v); } S mk(int v, S*) { return S{v, 1}; }
int unmk(int v) { return v; } int unmk(const H& h) { return h.h; } int unmk(const S& s) { return s.s; }
template <class N, class V, bool FOLD, bool ACT, bool REV, bool COMM> void prb(int n, int len) {
    using T = N*; N::init_pool(60000);
    auto cur = rvec(n); std::vector<V> init; for (int x : cur) init.push_back(mk(x, (V*)0));
    begin("vseq", std::vector<std::vector<int>>{cur}); pend("build");
    std::vector<T> vs{N::build(init)};
    auto sz = [&](int v) { return (int)N::size(vs[v]); };
    auto dump = [&](int v) { std::vector<V> d; N::dump(vs[v], std::back_inserter(d)); std::vector<int> r; for (auto& x : d) r.push_back(unmk(x)); ev("dump", v, r); };
    for (int i = 0; i < len && N::node_num() < 50000; ++i) {
        int v = pickv(vs), o = rng(0, 15), m = sz(v); auto [l, r] = range(m); int x = rv(); V xv = mk(x, (V*)0);
        if (m > 300 && o != 4) continue;
        if (o == 0) { int k = rng(0, m); pend("insert", v, k); vs.push_back(N::insert(vs[v], k, xv)); ev("insert", v, k, x); }
        else if (o == 1 && m) { int k = rng(0, m - 1); pend("erase", v, k); auto [t, y] = N::erase(vs[v], k); vs.push_back(t); ev("erase", v, k, unmk(y)); }
        else if (o == 2 && m) { int k = rng(0, m - 1); pend("set", v, k); vs.push_back(rng.coin(1, 2) ? N::set(vs[v], k, xv) : N::update_value(vs[v], k, [&](const V&) { return xv; })); ev("set", v, k, x); }
        else if (o == 3 && m) { int k = rng(0, m - 1); pend("get", v, k); auto [t, y] = N::get(vs[v], k); vs.push_back(t); ev("getp", v, k, unmk(y)); }
        else if (o == 4) { int k = rng(0, m); pend("split", v, k); auto [a, b] = N::split(vs[v], k); vs.push_back(a); vs.push_back(b); ev("split", v, k); }
        else if (o == 5) { int w = pickv(vs); if (m + sz(w) <= 300) { pend("merge", v, w); vs.push_back(N::merge(vs[v], vs[w])); ev("merge", v, w); } }
        else if (o == 6) { pend("cut", v, l, r); vs.push_back(N::cut(vs[v], l, r)); ev("cut", v, l, r); }
        else if (o == 7) { int w = pickv(vs); auto [l2, r2] = range(sz(w)); if (m + sz(w) <= 300) { pend("swap", v, l, r, w, l2, r2); auto [a, b] = N::swap(vs[v], l, r, vs[w], l2, r2); vs.push_back(a); vs.push_back(b); ev("swap", v, l, r, w, l2, r2); } }
        else if (o == 8) { int w = pickv(vs); if (m + sz(w) <= 300) { pend("replace", w, v, l, r); if (sz(w) <= m && rng.coin(1, 2)) { int p = rng(0, m - sz(w)); vs.push_back(N::replace(vs[w], vs[v], p)); ev("replace", w, v, p, p + sz(w)); } else { vs.push_back(N::replace(vs[w], vs[v], l, r)); ev("replace", w, v, l, r); } } }
        else if (o == 9) { int k = rng(0, 3); if (k == 0) { vs.push_back(N::push_front(vs[v], xv)); ev("insert", v, 0, x); } else if (k == 1) { vs.push_back(N::push_back(vs[v], xv)); ev("insert", v, m, x); } else if (m && k == 2) { auto [t, y] = N::pop_front(vs[v]); vs.push_back(t); ev("erase", v, 0, unmk(y)); } else if (m) { auto [t, y] = N::pop_back(vs[v]); vs.push_back(t); ev("erase", v, m - 1, unmk(y)); } }
        else if (o <= 11) {
            if constexpr (FOLD) {
                pend("prod", v, l, r);
                if (rng.coin(1, 4)) { auto y = N::prod_all(vs[v]); if constexpr (COMM) ev("sumq", v, 0, m, y.s, y.n); else ev("prod", v, 0, m, out(y)); }
                else { auto [t, y] = N::prod(vs[v], l, r); vs.push_back(t); if constexpr (COMM) ev("sumqp", v, l, r, y.s, y.n); else ev("prodp", v, l, r, out(y)); }
            }
        }
        else if (o <= 13) {
            if constexpr (ACT) { F f = rf(); FO g{f.a, f.b}; pend("act", v, l, r); if (rng.coin(1, 4)) { vs.push_back(N::apply_all(vs[v], g)); ev("act", v, 0, m, out(f)); } else { vs.push_back(N::apply(vs[v], l, r, g)); ev("act", v, l, r, out(f)); } }
        }
        else if (o == 14) { if constexpr (REV) { pend("reverse", v, l, r); if (rng.coin(1, 4)) { vs.push_back(N::reverse_all(vs[v])); ev("reverse", v, 0, m); } else { vs.push_back(N::reverse(vs[v], l, r)); ev("reverse", v, l, r); } } }
        else { dump(v); ev("len", v, sz(v)); }
        if (rng.coin(1, 6)) dump(pickv(vs));
        if (rng.coin(1, 6)) { pend("rb invariants"); N::check_rbtree_properties(vs[pickv(vs)]); }
    }
    for (int v = 0; v < (int)vs.size(); ++v) { dump(v); N::check_rbtree_properties(vs[v]); }
    if (rng.coin(1, 3)) { int v = pickv(vs); pend("rebuild"); auto t = N::rebuild(vs[v]); vs[v] = t; dump(v); }
    finish();
}
using RB0 = bbst::PersistentRedBlackTreeNode<int>;
using RB1 = bbst::segtree::PersistentRedBlackTreeNode<H, op, e>;
using RB2 = bbst::lazy_segtree::PersistentRedBlackTreeNode<H, op, e, FO, fmap, fcomp, fid>;
using RB3 = bbst::reversible_lazy_segtree::PersistentRedBlackTreeNode<S, sop, se, FO, smap, fcomp, fid>;
// behaviours generated from the specification (Gen_C03)
void replay() {
    int line = 0; using L = PersistentLazySegmentTree<H, op, e, F, mapping, comp, id>;
    for (auto& h : script()) { ++line; int n = num(h[0], 1);
        if (h[0][0] == "vseq") {
            std::vector<int> a(n); std::iota(a.begin(), a.end(), 1); bool acts = false; for (auto& c : h) acts = acts || c[0] == "act";
            if (line % 2 || acts) { fresh<L>(20000); begin("vseq", std::vector<std::vector<int>>{a}); std::vector<L> vs{L(lift(a))};
                for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int v = num(c, 1); pend(c[0], v); if (c[0] == "set") { L t = vs[v].set(num(c, 2), one(num(c, 3))); vs.push_back(t); ev("set", v, num(c, 2), num(c, 3)); } else { F f{num(c, 4), num(c, 5)}; L t = vs[v].apply(num(c, 2), num(c, 3), f); vs.push_back(t); ev("act", v, num(c, 2), num(c, 3), out(f)); } }
                for (int v = 0; v < (int)vs.size(); ++v) { ev("prod", v, 0, n, out(vs[v].prod_all())); ev("dump", v, vals(vs[v].dump())); } finish(); }
            else { using A = PersistentArray<int, 1>; A::init_pool(2000); begin("vseq", std::vector<std::vector<int>>{a}); std::vector<A> vs{A(a)}; for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int v = num(c, 1); A t = vs[v].set(num(c, 2), num(c, 3)); vs.push_back(t); ev("set", v, num(c, 2), num(c, 3)); } for (int v = 0; v < (int)vs.size(); ++v) ev("dump", v, vs[v].dump()); finish(); }
        } else {
            PersistentUnionFind::init_pool(2000); std::vector<int> l0(n); std::iota(l0.begin(), l0.end(), 0); begin("vuf", std::vector<std::vector<int>>{l0}); std::vector<PersistentUnionFind> vs{PersistentUnionFind(n)};
            for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int v = num(c, 1), x = num(c, 2), y = num(c, 3); pend("merge", v, x, y); auto [t, b] = vs[v].merge(x, y); vs.push_back(t); ev("merge", v, x, y, b); }
            for (int v = 0; v < (int)vs.size(); ++v) { ev("groups", v, vs[v].groups()); for (int x = 0; x < n; ++x) ev("size", v, x, vs[v].size(x)); } finish();
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    replay();
    for (int n = 0; n <= 20; ++n) for (int i = 0; i < reps(5); ++i) { pseg(n, 20); plazy(n, 25); (rng.coin(2, 3) ? pft<int>(n, 20) : pft<ll>(n, 20)); parr<1>(n, 20); parr<1, ll>(n, 20); parr<2>(n, 20); parr<4>(n, 20); if (n) { pdual<PD>(n, 20, false); pdual<PCD>(n, 20, true); puf(n, 25); } }
    for (int i = 0; i < reps(50); ++i) { int n = rsize(70); pseg(n, 50); plazy(n, 50); (rng.coin(2, 3) ? pft<int>(n, 40) : pft<ll>(n, 40)); parr<1>(n, 40); parr<2>(n, 40); parr<4>(n, 40); pdual<PD>(n, 40, false); pdual<PCD>(n, 40, true); puf(n, 50); }
    for (int i = 0; i < reps(4); ++i) { parr<4>(400, 60); parr<3>(400, 60); puf(300, 100); }
    for (int i = 0; i < reps(120); ++i) {
        int n = rng.coin(1, 2) ? rng(0, 6) : rng(0, 30);
        prb<RB0, int, false, false, false, false>(n, 40); prb<RB1, H, true, false, false, false>(n, 40); prb<RB2, H, true, true, false, false>(n, 50); prb<RB3, S, true, true, true, true>(n, 50);
    }
}
