// C06: the union-find family.
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/union_find/union_find.hpp"
#include "library/datastructure/union_find/linked_union_find.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/undo_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
using namespace vt; using namespace alg; using namespace suisen;
int pick_v(int n) { return rng.coin(1, 3) ? rng(0, std::min(n - 1, 3)) : rng(0, n - 1); }
template <class U> void common(U& u, int n) {
    int x = pick_v(n), y = pick_v(n);
    switch (rng(0, 5)) {
        case 0: case 1: pend("same", x, y); ev("same", x, y, u.same(x, y)); break;
        case 2: ev("size", x, u.size(x)); break;
        case 3: { std::vector<int> r; bool b = rng.coin(1, 2); for (int i = 0; i < n; ++i) r.push_back(b ? u[i] : u.root(i)); ev("roots", r); break; }
        case 4: { auto g = u.groups(); ev("groups", g); break; }
        default: break;
    }
}
void plain(int n, int len) {
    begin("uf", n); UnionFind u(n);
    for (int i = 0; i < len; ++i) { int x = pick_v(n), y = pick_v(n); if (rng.coin(1, 2)) { pend("merge", x, y); ev("merge", x, y, u.merge(x, y)); } common(u, n); }
    finish();
}
void linked(int n, int len) {
    begin("uf", n); LinkedUnionFind u(n);
    for (int i = 0; i < len; ++i) { int x = pick_v(n), y = pick_v(n); if (rng.coin(1, 2)) ev("merge", x, y, u.merge(x, y)); pend("component", x); ev("comp", x, u.connected_component(x)); common(u, n); }
    finish();
}
void catv(std::vector<int>& a, std::vector<int> b) { a.insert(a.end(), b.begin(), b.end()); }
void compsum(int n, int len) {
    begin("uf", n); std::vector<std::vector<int>> init; for (int i = 0; i < n; ++i) init.push_back({i});
    UnionFindComponentSum<std::vector<int>, catv> u(init);
    for (int i = 0; i < len; ++i) { int x = pick_v(n), y = pick_v(n); if (rng.coin(1, 2)) ev("merge", x, y, u.merge(x, y)); ev("comp", x, u.sum(x)); common(u, n); }
    finish();
}
void undo(int n, int len) {
    begin("uf", n); UndoUnionFind u(n); int depth = 0;
    for (int i = 0; i < len; ++i) {
        int x = pick_v(n), y = pick_v(n), o = rng(0, 9);
        if (o <= 4) { bool b = u.merge(x, y); depth += b; ev("merge", x, y, b); }
        else if (o <= 6 && depth) { pend("undo"); u.undo(); --depth; ev("undo"); }
        else if (o == 7 && rng.coin(1, 3)) { u.snapshot(); depth = 0; ev("snapshot"); }
        else if (o == 8 && rng.coin(1, 3)) { pend("rollback"); u.rollback(); depth = 0; ev("rollback"); }
        common(u, n);
    }
    finish();
}
using Stk = std::vector<std::vector<int>>;
void stk_merge(Stk& a, const Stk& b) { auto v = a.back(); catv(v, b.back()); a.push_back(v); }
void stk_undo(Stk& a) { a.pop_back(); }
void undosum(int n, int len) {
    begin("uf", n); std::vector<Stk> init; for (int i = 0; i < n; ++i) init.push_back(Stk{{i}});
    UndoUnionFindComponentSum<Stk, stk_merge, stk_undo> u(init); int depth = 0;
    for (int i = 0; i < len; ++i) {
        int x = pick_v(n), y = pick_v(n), o = rng(0, 9);
        if (o <= 4) { bool b = u.merge(x, y); depth += b; ev("merge", x, y, b); }
        else if (o <= 6 && depth) { pend("undo"); u.undo(); --depth; ev("undo"); }
        else if (o == 7 && rng.coin(1, 3)) { u.snapshot(); depth = 0; ev("snapshot"); }
        else if (o == 8 && rng.coin(1, 3)) { pend("rollback"); u.rollback(); depth = 0; ev("rollback"); }
        ev("comp", y, rng.coin(1, 2) ? u.sum(y).back() : std::as_const(u).sum(y).back());
        common(u, n);
    }
    finish();
}
// affine group over Z_7: a non-commutative group
struct G { int a = 1, b = 0; };
G gop(G f, G g) { return G{f.a * g.a % 7, (f.a * g.b + f.b) % 7}; }
G gid() { return G{}; }
G ginv(G f) { int i = 1; while (i * f.a % 7 != 1) ++i; return G{i, (7 - i * f.b % 7) % 7}; }
std::pair<int, int> out(G g) { return {g.a, g.b}; }
G rg() { return G{(int)rng(1, 6), (int)rng(0, 6)}; }
void weighted(int n, int len) {
    begin("uf", n); WeightedUnionFind<G, gop, gid, ginv> u(n);
    for (int i = 0; i < len; ++i) {
        int x = pick_v(n), y = pick_v(n);
        if (rng.coin(1, 2)) { G d = rg(); pend("wmerge", x, y); ev("wmerge", x, y, out(d), u.merge(x, y, d)); }
        x = pick_v(n), y = pick_v(n); if (u.same(x, y)) { pend("diff", x, y); ev("diff", x, y, out(u.diff(x, y))); }
        common(u, n);
    }
    finish();
}
void weighted_int(int n, int len) {
    begin("uf", n); WeightedUnionFind<int> u(n);
    for (int i = 0; i < len; ++i) {
        int x = pick_v(n), y = pick_v(n);
        if (rng.coin(1, 2)) { int d = rng(-3, 3); ev("imerge", x, y, d, u.merge(x, y, d)); }
        x = pick_v(n), y = pick_v(n); if (u.same(x, y)) ev("idiff", x, y, u.diff(x, y));
        common(u, n);
    }
    finish();
}
void msum(int& a, int b) { a = (a + b) % PR; }
int mneg(int a) { return (PR - a) % PR; }
void mmap_(F f, int& s, int num) { s = (int)(((ll)f.a * s + (ll)f.b * num) % PR); }
ll pw(ll a, ll k) { ll r = 1; for (a %= PR; k; k >>= 1, a = a * a % PR) if (k & 1) r = r * a % PR; return r; }
F finv(F f) { ll i = pw(f.a, PR - 2); return F{(int)i, (int)((PR - i * f.b % PR) % PR)}; }
F rgf() { F f = rf(); if (f.a == 0) f.a = 1; return f; }
void msumL(ll& a, ll b) { int x = dn(a); msum(x, dn(b)); a = x * K; } ll mnegL(ll a) { return mneg(dn(a)) * K; } void mmapL(F f, ll& s, int num) { int t = dn(s); mmap_(f, t, num); s = t * K; }
template <class U, class T> void lazy(int n, int len) {
    auto z = [](T x) { if constexpr (std::is_same_v<T, ll>) return dn(x); else return x; }; const T k = std::is_same_v<T, ll> ? (T)K : (T)1;
    auto init = rvec(n);
    begin("ufv", n, init); std::vector<T> i0; for (int x : init) i0.push_back(x * k); U u(i0);
    for (int i = 0; i < len; ++i) {
        int x = pick_v(n), y = pick_v(n), o = rng(0, 9);
        if (o <= 2) ev("merge", x, y, u.merge(x, y));
        else if (o <= 4) { F f = rgf(); u.apply_component(x, f); ev("actc", x, out(f)); }
        else if (o == 5) { F f = rgf(); u.apply_point(x, f); ev("actp", x, out(f)); }
        else if (o == 6) { int v = rv(); u.set_point(x, v * k); ev("setp", x, v); }
        else if (o == 7) { u.propagate(x); const auto& cu = u; ev("getp", x, z(u.raw_value(x))); for (int v = 0; v < n; ++v) if (u.same(x, v)) ev("getp", v, z(cu.raw_value(v))); }
        else if (o == 8) { ev("comp", x, u.connected_component(x)); }
        ev("getp", y, z(u.get_point(y))); ev("getc", x, z(u.get_component(x)));
        common(u, n);
    }
    finish();
}
using LU = UnionFindLazy<int, msum, mneg, F, mmap_, comp, id, finv>; using LL_ = UnionFindLazy<ll, msumL, mnegL, F, mmapL, comp, id, finv>;
void history(int n, int len) {
    begin("ufh", n); MergeHistoryForest u(n);
    for (int i = 0; i < len; ++i) {
        int x = pick_v(n), y = pick_v(n), o = rng(0, 9);
        if (o <= 3) { if (rng.coin(1, 2)) u.merge(x, y); else u.merge(std::make_pair(x, y)); ev("hmerge", std::vector<std::pair<int, int>>{{x, y}}); }
        else if (o <= 5) { std::vector<std::pair<int, int>> es; int k = rng(0, 4); for (int j = 0; j < k; ++j) es.push_back({pick_v(n), pick_v(n)}); pend("simultaneous", es); u.merge_simultaneously(es); ev("hmerge", es); }
        else if (o == 6) {   // the leaves below each forest root
            auto rs = u.forest_roots(); std::vector<std::vector<int>> g; bool ok = u.leaf_num() == n;
            for (int r : rs) { ok = ok && u.is_forest_root(r) && u.forest_parent(r) < 0; std::vector<int> leaves, q{r}; while (q.size()) { int v = q.back(); q.pop_back(); if (v < n) { ok = ok && u.is_forest_leaf(v); leaves.push_back(v); } for (int c : u.forest_children(v)) { ok = ok && u.forest_parent(c) == v && u.created_time(c) <= u.created_time(v); q.push_back(c); } } g.push_back(leaves); for (int v : leaves) ok = ok && u.forest_root(v) == r; }
            ev("groups", g); ev("true", ok); ev("true", (int)u.get_forest().size() == u.node_num());
        }
        int t = rng(0, u.current_time());
        ev("time", u.current_time());
        pend("group", x, t); ev("hgroup", x, t, u.group(x, t));
        auto lca = [&](int a, int b) { std::set<int> s; for (int v = a; v >= 0; v = u.forest_parent(v)) s.insert(v); int v = b; while (!s.count(v)) v = u.forest_parent(v); return v; };
        ev("hsame", x, y, t, u.same(x, y, t, lca)); ev("same", x, y, u.same(x, y));
        if (rng.coin(1, 4)) ev("hgroups", t, u.groups(t));
        if (rng.coin(1, 4)) ev("groups", u.groups());
        if (rng.coin(1, 4)) { auto g = u.group(x); ev("comp", x, g); }
    }
    finish();
}
// behaviours generated from the specification (Gen_C06)
template <class U> void obs(U& u, int n) { std::vector<int> r; for (int i = 0; i < n; ++i) r.push_back(u.root(i)); ev("roots", r); auto g = u.groups(); ev("groups", g); for (int i = 0; i < n; ++i) ev("size", i, u.size(i)); }
template <class U> void undo_calls(U& u, const std::vector<Call>& h, int n) {
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; pend(c[0]);
        if (c[0] == "merge") { int x = num(c, 1), y = num(c, 2); ev("merge", x, y, u.merge(x, y)); }
        else if (c[0] == "undo") { u.undo(); ev("undo"); } else if (c[0] == "snapshot") { u.snapshot(); ev("snapshot"); } else { u.rollback(); ev("rollback"); } }
    obs(u, n);
}
void replay() {
    int line = 0;
    for (auto& h : script()) { ++line; int n = num(h[0], 1); begin("uf", n); 
        if (h[0][0] == "undo") {
            bool pure = true; for (auto& c : h) if (c[0] == "undo" || c[0] == "snapshot" || c[0] == "rollback") pure = pure && &c == &h[0];
            if (pure && line % 2) { auto merges = [&](auto& u) { for (size_t i = 1; i < h.size(); ++i) { int x = num(h[i], 1), y = num(h[i], 2); ev("merge", x, y, u.merge(x, y)); } obs(u, n); };
                if (line % 4 == 1) { UnionFind u(n); merges(u); } else { LinkedUnionFind u(n); merges(u); for (int i = 0; i < n; ++i) ev("comp", i, u.connected_component(i)); } }
            else if (line % 2) { UndoUnionFind u(n); undo_calls(u, h, n); }
            else { std::vector<Stk> init; for (int i = 0; i < n; ++i) init.push_back(Stk{{i}}); UndoUnionFindComponentSum<Stk, stk_merge, stk_undo> u(init); undo_calls(u, h, n); for (int i = 0; i < n; ++i) ev("comp", i, u.sum(i).back()); }
        } else {
            WeightedUnionFind<G, gop, gid, ginv> u(n);
            for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int x = num(c, 1), y = num(c, 2); G d{num(c, 3), num(c, 4)}; ev("wmerge", x, y, out(d), u.merge(x, y, d)); }
            for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) if (u.same(x, y)) ev("diff", x, y, out(u.diff(x, y)));
            obs(u, n);
        }
        finish(); }
}
int main(int argc, char** argv) {
    init(argc, argv);
    replay();
    for (int i = 0; i < reps(600); ++i) {
        int n = rng.coin(2, 3) ? rng(1, 8) : rng(1, 40), len = rng(5, 30);
        plain(n, len); linked(n, len); compsum(n, len); undo(n, 2 * len); undosum(n, 2 * len); weighted(n, len); weighted_int(n, len); lazy<LU, int>(n, len); if (i % 2) lazy<LL_, ll>(n, len); history(n, len);
    }
    for (int i = 0; i < reps(4); ++i) { int n = 120; weighted(n, 150); lazy<LU, int>(n, 150); lazy<LL_, ll>(n, 150); undosum(n, 150); plain(n, 150); history(n, 100); }
    for (int i = 0; i < 3; ++i) { begin("uf", 0); UndoUnionFind u; ev("groups", u.groups()); UndoUnionFindComponentSum<Stk, stk_merge, stk_undo> v; ev("groups", v.groups()); UnionFindComponentSum<std::vector<int>, catv> w; ev("groups", w.groups()); MergeHistoryForest m; ev("groups", m.groups()); finish(); }
}
