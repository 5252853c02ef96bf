// C04: dynamic sequences (treaps, red-black trees, splay sequences, sortable segment tree)
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
#include "library/datastructure/bbst/red_black_tree.hpp"
#include "library/datastructure/bbst/red_black_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/red_black_reversible_lazy_segment_tree.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
using namespace vt; using namespace alg; using namespace suisen;
struct FO { int a = 1, b = 0; bool operator!=(const FO& o) const { return a != o.a || b != o.b; } bool operator==(const FO& o) const { return a == o.a && b == o.b; } };
FO fid() { return FO{}; } FO fcomp(FO f, FO g) { F r = comp(F{f.a, f.b}, F{g.a, g.b}); return FO{r.a, r.b}; }
H fmap3(FO f, H x, int n) { return mapn(F{f.a, f.b}, x, n); } H fmap2(FO f, H x) { return mapping(F{f.a, f.b}, x); } int imap2(FO f, int x) { return imap(F{f.a, f.b}, x); }
struct S { int s = 0, n = 0; }; S sop(S a, S b) { return S{(a.s + b.s) % PR, a.n + b.n}; } S se() { return S{}; }
S smap3(FO f, S x, int n) { return S{(int)(((ll)f.a * x.s + (ll)f.b * n) % PR), x.n}; } S smap2(FO f, S x) { return smap3(f, x, x.n); }
template <class V> V mk(int x) { if constexpr (std::is_same_v<V, int>) return x; else if constexpr (std::is_same_v<V, ll>) return x * K; else if constexpr (std::is_same_v<V, H>) return one(x); else return S{x, 1}; }
inline int un(int x) { return x; } inline int un(ll x) { return dn(x); } inline int un(const H& h) { return h.h; } inline int un(const S& s) { return s.s; }
template <class V> std::vector<int> unv(const V& v) { std::vector<int> r; for (auto& x : v) r.push_back(un(x)); return r; }
template <class V> std::vector<V> mkv(const std::vector<int>& v) { std::vector<V> r; for (int x : v) r.push_back(mk<V>(x)); return r; }
struct Less { bool operator()(int a, int b) const { return a < b; } bool operator()(ll a, ll b) const { return a < b; } bool operator()(const H& a, const H& b) const { return a.h < b.h; } };
typedef std::vector<int> VI;
template <class T> std::vector<int> optv(const T& o) { std::vector<int> r; if (o) r.push_back(un(*o)); return r; }
template <class T> std::vector<int> optpv(const T& o) { std::vector<int> r; if (o) r.push_back(o->first), r.push_back(un(o->second)); return r; }
// mirror kept by the driver only to choose arguments (never to judge)
template <class C, class V, bool REV, bool FOLD, bool ACT> struct Treap {
    static void run(int n0, int len) {
        VI init = rvec(n0); std::vector<VI> m{init};
        begin("dseq", std::vector<VI>{init}); pend("build");
        std::vector<C> t;
        if (n0 == 0 && rng.coin(1, 2)) t.push_back(C()); else t.push_back(C(mkv<V>(init)));
        for (int i = 0; i < len; ++i) {
            int h = rng(0, t.size() - 1); if (rng.coin(1, 2)) h = 0; int n = m[h].size(); int o = rng(0, 21); auto [l, r] = range(n);
            if (o <= 2) { int p = rng.coin(1, 3) ? (rng.coin(1, 2) ? 0 : n) : rng(0, n), x = rv(); pend("ins", h, p, x);
                if (p == 0 && rng.coin(1, 2)) t[h].push_front(mk<V>(x)); else if (p == n && rng.coin(1, 2)) t[h].push_back(mk<V>(x));
                else { if constexpr (!REV) { int w = rng(0, 2); if (w == 0) t[h].insert(t[h].begin() + p, mk<V>(x)); else if (w == 1) t[h].insert(t[h].rbegin() + (n - p), mk<V>(x)); else t[h].insert((size_t)p, mk<V>(x)); } else t[h].insert(p, mk<V>(x)); }
                m[h].insert(m[h].begin() + p, x); ev("ins", h, p, x); }
            else if (o <= 4 && n) { int p = rng.coin(1, 3) ? (rng.coin(1, 2) ? 0 : n - 1) : rng(0, n - 1); pend("del", h, p); int x;
                if (p == 0 && rng.coin(1, 2)) x = un(t[h].pop_front()); else if (p == n - 1 && rng.coin(1, 2)) x = un(t[h].pop_back());
                else { if constexpr (!REV) { int w = rng(0, 2); if (w == 0) x = un(t[h].erase(t[h].begin() + p)); else if (w == 1) x = un(t[h].erase(t[h].rbegin() + (n - 1 - p))); else x = un(t[h].erase((size_t)p)); } else x = un(t[h].erase(p)); }
                m[h].erase(m[h].begin() + p); ev("del", h, p, x); }
            else if (o == 5 && n) { int p = rng(0, n - 1); pend("get", h, p); const C& c = t[h]; ev("get", h, p, rng.coin(1, 2) ? un(t[h][p]) : un(c[p])); }
            else if (o == 6 && n) { int p = rng(0, n - 1), x = rv(); pend("set", h, p, x);
                if constexpr (FOLD) { if (rng.coin(1, 2)) t[h].set(p, mk<V>(x)); else t[h].apply(p, [&](const V&) { return mk<V>(x); }); } else t[h][p] = mk<V>(x);
                m[h][p] = x; ev("set", h, p, x); }
            else if (o == 7 && t.size() < 6) { int p = rng(0, n); pend("split", h, p); 
                if constexpr (!REV) { int w = rng(0, 2); if (w == 0) t.push_back(t[h].split(t[h].begin() + p)); else if (w == 1) t.push_back(t[h].split(t[h].rbegin() + (n - p))); else t.push_back(t[h].split((size_t)p)); } else t.push_back(t[h].split(p));
                m.push_back(VI(m[h].begin() + p, m[h].end())); m[h].resize(p); ev("split", h, p); }
            else if ((o == 8 || t.size() >= 6) && t.size() > 1) { int g = rng(0, t.size() - 1); if (g == h) g = (h + 1) % t.size(); pend("merge", h, g); t[h].merge(t[g]); t[g] = C(); m[h].insert(m[h].end(), m[g].begin(), m[g].end()); m[g].clear(); ev("merge", h, g);
                if (g == (int)t.size() - 1 && false) { } }
            else if (o == 9) { int mid = rng(l, r); pend("rot", h, l, mid, r); if (rng.coin(1, 2)) { l = 0, r = n; mid = rng(0, n); t[h].rotate(mid); } else t[h].rotate(l, mid, r); std::rotate(m[h].begin() + l, m[h].begin() + mid, m[h].begin() + r); ev("rot", h, l, mid, r); }
            else if (o == 10) { pend("dump", h); ev("dump", h, unv(t[h].dump())); }
            else if (o == 11) { pend("iter", h); bool c = rng.coin(1, 2); VI q; if (c) { const C& cc = t[h]; for (auto it = cc.begin(); it != cc.end(); ++it) q.push_back(un(*it)); ev("dump", h, q); } else { for (auto it = t[h].rbegin(); it != t[h].rend(); ++it) q.push_back(un(*it)); ev("rdump", h, q); const C& cc = t[h]; q.clear(); for (auto it = cc.rbegin(); it != cc.rend(); it++) q.push_back(un(*it)); ev("rdump", h, q); q.clear(); for (auto it = cc.end(); it != cc.begin(); ) { auto j = it--; if (j != cc.end()) q.push_back(un(*j)); } if (n) q.push_back(un(*cc.cbegin())); ev("rdump", h, q); } }
            else if (o == 12) { bool rv_ = rng.coin(1, 2); std::vector<std::pair<int, int>> w; int p = rng(0, n);
                auto walk = [&](auto it) { it += p; for (int s = 0; s < 8; ++s) { if (p < n && rng.coin(2, 3)) w.push_back({p, un(*it)}); int d = rng.coin(1, 2) ? rng(-2, 2) : rng(-n, n); d = std::max(-p, std::min(d, n - p)); if (d == 1 && rng.coin(1, 2)) ++it; else if (d == -1 && rng.coin(1, 2)) --it; else if (d >= 0) it += d; else it -= -d; p += d; if (p < n && n) w.push_back({p, un(*it)}); } };
                pend("walk", h, p); if (rv_) walk(t[h].rbegin()); else walk(t[h].begin()); ev("walk", h, rv_, w);
                int a = rng(0, n), b = rng(0, n); auto x = t[h].begin() + a, y = t[h].begin() + b; ev("itdiff", h, a, b, (int)(x - y), x < y, x == y); ev("itcmp", h, a, b, std::make_tuple(x <= y, x > y, x >= y, x != y)); }
            else if (o == 13 && n) { const C& c = t[h]; ev("ends", h, un(t[h].front()), un(t[h].back())); ev("ends", h, un(c.front()), un(c.back())); }
            else if (o == 14) ev("len", h, t[h].size(), t[h].empty());
            else if (o == 15 && rng.coin(1, 4)) { pend("clear"); t[h].clear(); m[h].clear(); ev("clear", h); }
            else if (o <= 17) { if constexpr (REV) { pend("rev", h, l, r); if (rng.coin(1, 4)) l = 0, r = n, t[h].reverse_all(); else t[h].reverse(l, r); std::reverse(m[h].begin() + l, m[h].begin() + r); ev("rev", h, l, r); } }
            else if (o == 18) { if constexpr (ACT) { F f = rf(); typename C::operator_type g{f.a, f.b}; pend("act", h, l, r); if (rng.coin(1, 4)) l = 0, r = n, t[h].apply_all(g); else t[h].apply(l, r, g); for (int k = l; k < r; ++k) m[h][k] = imap(f, m[h][k]); ev("act", h, l, r, out(f)); } }
            else { if constexpr (FOLD) {
                if (o == 19) { Word w(word_from(m[h], l)); pend("mr", h, l, w.w); auto p = t[h].max_right(l, [&](const H& x) { return w.is_prefix(x); }); if constexpr (std::is_integral_v<decltype(p)>) ev("mr", h, l, w.w, p); else ev("mr", h, l, w.w, p.index()); }
                else if (o == 20) { Word w(word_to(m[h], r)); pend("ml", h, r, w.w); auto p = t[h].min_left(r, [&](const H& x) { return w.is_suffix(x); }); if constexpr (std::is_integral_v<decltype(p)>) ev("ml", h, r, w.w, p); else ev("ml", h, r, w.w, p.index()); }
                else if (rng.coin(1, 4)) ev("prod", h, 0, n, out(t[h].prod_all())); else { pend("prod", h, l, r); ev("prod", h, l, r, out(t[h].prod(l, r))); } } }
        }
        for (int h = 0; h < (int)t.size(); ++h) { pend("dump", h); ev("dump", h, unv(t[h].dump())); }
        finish();
        for (auto& c : t) c.free();
    }
    // sorted sequences: searching, ordered insertion and deletion
    static void sorted(int n0, int len) {
        VI init = rvec(n0); std::sort(init.begin(), init.end()); if (rng.coin(1, 2)) for (int& x : init) x %= 8, x += 0; std::sort(init.begin(), init.end());
        bool small = rng.coin(2, 3); std::vector<VI> m{init};
        begin("dseq", std::vector<VI>{init}); pend("build"); std::vector<C> t{C(mkv<V>(init))};
        for (int i = 0; i < len; ++i) {
            int h = rng(0, t.size() - 1), n = m[h].size(), o = rng(0, 11); int x = n && rng.coin(1, 2) ? m[h][rng(0, n - 1)] + (int)rng(-1, 1) : small ? (int)rng(0, 9) : rv(); x = std::max(0, x); const C& c = t[h]; Less ls;
            if (o == 0) { pend("lb", h, x); if constexpr (REV) { auto [p, v] = c.lower_bound(mk<V>(x), ls); ev("lb", h, x, std::make_tuple((int)p, optv(v))); } else { auto it = rng.coin(1, 2) ? decltype(c.end())(t[h].lower_bound(mk<V>(x), ls)) : c.lower_bound(mk<V>(x), ls); int p = it - c.begin(); VI q; if (it != c.end()) q.push_back(un(*it)); ev("lb", h, x, std::make_tuple(p, q)); } }
            else if (o == 1) { pend("ub", h, x); if constexpr (REV) { auto [p, v] = c.upper_bound(mk<V>(x), ls); ev("ub", h, x, std::make_tuple((int)p, optv(v))); } else { auto it = rng.coin(1, 2) ? decltype(c.end())(t[h].upper_bound(mk<V>(x), ls)) : c.upper_bound(mk<V>(x), ls); int p = it - c.begin(); VI q; if (it != c.end()) q.push_back(un(*it)); ev("ub", h, x, std::make_tuple(p, q)); } }
            else if (o == 2) { pend("bs", h, x); if constexpr (REV) { auto [p, v] = c.binary_search([&](const V& y, auto...) { return un(y) >= x; }); ev("lb", h, x, std::make_tuple((int)p, optv(v))); } else { auto pr = [&](auto it) { return un(*it) >= x; }; auto it = rng.coin(1, 2) ? c.binary_search(pr) : decltype(c.end())(t[h].binary_search(pr)); int p = it - c.begin(); VI q; if (it != c.end()) q.push_back(un(*it)); ev("lb", h, x, std::make_tuple(p, q)); } }
            else if constexpr (REV) {
                auto ub = [&] { return std::upper_bound(m[h].begin(), m[h].end(), x); }; auto lb = [&] { return std::lower_bound(m[h].begin(), m[h].end(), x); };
                if (o <= 4) { pend("inslb", h, x); int p = rng.coin(1, 2) ? t[h].insert_lower_bound(mk<V>(x), ls) : t[h].insert_binary_search(mk<V>(x), [&](const V& y, auto...) { return un(y) >= x; }); m[h].insert(lb(), x); ev("inslb", h, x, p); }
                else if (o == 5) { pend("insub", h, x); int p = t[h].insert_upper_bound(mk<V>(x), ls); m[h].insert(ub(), x); ev("insub", h, x, p); }
                else if (o == 6) { pend("dellb", h, x); auto r = t[h].erase_lower_bound(mk<V>(x), ls); auto it = lb(); if (it != m[h].end()) m[h].erase(it); ev("dellb", h, x, optpv(r)); }
                else if (o == 7) { pend("delub", h, x); auto r = t[h].erase_upper_bound(mk<V>(x), ls); auto it = ub(); if (it != m[h].end()) m[h].erase(it); ev("delub", h, x, optpv(r)); }
                else if (o == 8) { pend("delif", h, x); auto r = t[h].erase_if_exists(mk<V>(x), ls); auto it = lb(); if (it != m[h].end() && *it == x) m[h].erase(it); ev("delif", h, x, optpv(r)); }
                else if (o == 9) { pend("delbs", h, x); auto r = t[h].erase_binary_search([&](const V& y, auto...) { return un(y) >= x; }, [&](const V& y, auto...) { return un(y) % 2 == 0; }); auto it = lb(); if (it != m[h].end() && *it % 2 == 0) m[h].erase(it); ev("delbs", h, x, optpv(r)); }
                else if (t.size() < 5) { bool u = rng.coin(1, 2); pend("split", h, x); int p = u ? ub() - m[h].begin() : lb() - m[h].begin();
                    t.push_back(u ? t[h].split_upper_bound(mk<V>(x), ls) : rng.coin(1, 2) ? t[h].split_lower_bound(mk<V>(x), ls) : t[h].split_binary_search([&](const V& y, auto...) { return un(y) >= x; })); m.push_back(VI(m[h].begin() + p, m[h].end())); m[h].resize(p); ev(u ? "splitub" : "splitlb", h, x); }
                else ev("dump", h, unv(t[h].dump()));
            } else { int p = std::upper_bound(m[h].begin(), m[h].end(), x) - m[h].begin(); if (o <= 7) { auto it = t[h].upper_bound(mk<V>(x), ls); pend("insit", h, x); t[h].insert(it, mk<V>(x)); m[h].insert(m[h].begin() + p, x); ev("ins", h, p, x); } else if (o <= 9) { p = std::lower_bound(m[h].begin(), m[h].end(), x) - m[h].begin(); if (p < n) { auto it = t[h].lower_bound(mk<V>(x), ls); pend("delit", h, x); int y = un(t[h].erase(it)); m[h].erase(m[h].begin() + p); ev("del", h, p, y); } } else ev("dump", h, unv(t[h].dump())); }
        }
        for (int h = 0; h < (int)t.size(); ++h) ev("dump", h, unv(t[h].dump()));
        finish(); for (auto& c : t) c.free();
    }
};
// ---------------------------------------------------------------- red-black trees
template <class N, class V, bool FOLD, bool ACT, bool REV, bool COMM> void rb(int n0, int len) {
    using T = typename N::tree_type; static bool first = true; if (first) N::init_pool(1 << 13), first = false;
    VI init = rvec(n0); std::vector<VI> m{init}; begin("dseq", std::vector<VI>{init}); pend("build"); std::vector<T> t{N::build(mkv<V>(init))};
    auto dump = [&](T x) { std::vector<V> q; N::dump(x, std::back_inserter(q)); return unv(q); };
    for (int i = 0; i < len; ++i) {
        int h = rng(0, t.size() - 1), n = m[h].size(), o = rng(0, 13); auto [l, r] = range(n);
        if (o <= 2 || n == 0) { int p = rng(0, n), x = rv(); pend("ins", h, p, x); t[h] = p == 0 && rng.coin(1, 2) ? N::push_front(t[h], mk<V>(x)) : p == n && rng.coin(1, 2) ? N::push_back(t[h], mk<V>(x)) : N::insert(t[h], p, mk<V>(x)); m[h].insert(m[h].begin() + p, x); ev("ins", h, p, x); }
        else if (o <= 4) { int p = rng(0, n - 1); pend("del", h, p); auto [nt, v] = p == 0 && rng.coin(1, 2) ? N::pop_front(t[h]) : p == n - 1 && rng.coin(1, 2) ? N::pop_back(t[h]) : N::erase(t[h], p); t[h] = nt; m[h].erase(m[h].begin() + p); ev("del", h, p, un(v)); }
        else if (o == 5) { int p = rng(0, n - 1), x = rv(); pend("set", h, p, x); t[h] = rng.coin(1, 2) ? N::set(t[h], p, mk<V>(x)) : N::update_value(t[h], p, [&](const V&) { return mk<V>(x); }); m[h][p] = x; ev("set", h, p, x); }
        else if (o == 6) { int p = rng(0, n - 1); pend("get", h, p); auto [nt, v] = N::get(t[h], p); t[h] = nt; ev("get", h, p, un(v)); }
        else if (o == 7 && t.size() < 5) { int p = rng(0, n); pend("split", h, p); auto [a, b] = N::split(t[h], p); t[h] = a; t.push_back(b); m.push_back(VI(m[h].begin() + p, m[h].end())); m[h].resize(p); ev("split", h, p); }
        else if (o == 8 && t.size() > 1) { int g = (h + 1) % t.size(); pend("merge", h, g); t[h] = N::merge(t[h], t[g]); t[g] = N::empty_tree(); m[h].insert(m[h].end(), m[g].begin(), m[g].end()); m[g].clear(); ev("merge", h, g); }
        else if (o == 9) { pend("dump", h); ev("dump", h, dump(t[h])); N::check_rbtree_properties(t[h]); }
        else if (o == 10) ev("len", h, N::size(t[h]), N::empty(t[h]));
        else if (o == 11) { if constexpr (ACT) { F f = rf(); FO g{f.a, f.b}; pend("act", h, l, r); if (rng.coin(1, 4)) l = 0, r = n, t[h] = N::apply_all(t[h], g); else t[h] = N::apply(t[h], l, r, g); for (int k = l; k < r; ++k) m[h][k] = imap(f, m[h][k]); ev("act", h, l, r, out(f)); } }
        else if (o == 12) { if constexpr (REV) { pend("rev", h, l, r); if (rng.coin(1, 4)) l = 0, r = n, t[h] = N::reverse_all(t[h]); else t[h] = N::reverse(t[h], l, r); std::reverse(m[h].begin() + l, m[h].begin() + r); ev("rev", h, l, r); } }
        else { if constexpr (FOLD) { pend("prod", h, l, r); V v; if (rng.coin(1, 4)) l = 0, r = n, v = N::prod_all(t[h]); else { auto [nt, x] = N::prod(t[h], l, r); t[h] = nt; v = x; } if constexpr (COMM) ev("sumq", h, l, r, v.s, v.n); else ev("prod", h, l, r, out(v)); } }
    }
    for (int h = 0; h < (int)t.size(); ++h) { ev("dump", h, dump(t[h])); }
    finish(); for (auto x : t) N::free(x);
}
// ---------------------------------------------------------------- splay sequences
template <class C, class V, bool FOLD, bool ACT, bool COMM> void splay(int n0, int len) {
    std::vector<VI> m(1); begin("dseq", m); std::vector<std::unique_ptr<C>> t; t.emplace_back(new C());
    for (int k = 0; k < n0; ++k) { int x = rv(); t[0]->push_back(mk<V>(x)); m[0].push_back(x); ev("ins", 0, k, x); }
    for (int i = 0; i < len; ++i) {
        int h = rng.coin(1, 2) ? 0 : rng(0, t.size() - 1), n = m[h].size(), o = rng(0, 14); auto [l, r] = range(n); C& c = *t[h];
        if (o <= 2 || n == 0) { int p = rng(0, n), x = rv(); pend("ins", h, p, x); if (p == 0 && rng.coin(1, 2)) c.push_front(mk<V>(x)); else if (p == n && rng.coin(1, 2)) c.push_back(mk<V>(x)); else c.insert(p, mk<V>(x)); m[h].insert(m[h].begin() + p, x); ev("ins", h, p, x); }
        else if (o <= 4) { int p = rng(0, n - 1); pend("del", h, p); if (p == 0 && rng.coin(1, 2)) c.pop_front(); else if (p == n - 1 && rng.coin(1, 2)) c.pop_back(); else c.erase(p); m[h].erase(m[h].begin() + p); ev("del0", h, p); }
        else if (o == 5) { int p = rng(0, n - 1); pend("get", h, p); V v = c[p]; ev("get", h, p, un(v)); }
        else if (o == 6) { int p = rng(0, n - 1), x = rv(); pend("set", h, p, x); c[p] = mk<V>(x); m[h][p] = x; ev("set", h, p, x); }
        else if (o == 7 && t.size() < 5) { int p = rng(0, n); pend("split", h, p); t.emplace_back(new C(c.split(p))); m.push_back(VI(m[h].begin() + p, m[h].end())); m[h].resize(p); ev("split", h, p); }
        else if (o == 8 && t.size() > 1) { int g = (h + 1) % t.size(); pend("merge", h, g);
            if (rng.coin(1, 2)) { if (rng.coin(1, 2)) c += std::move(*t[g]); else c.concat(std::move(*t[g])); m[h].insert(m[h].end(), m[g].begin(), m[g].end()); m[g].clear(); ev("merge", h, g); }
            else { c.concat_left(std::move(*t[g])); m[h].insert(m[h].begin(), m[g].begin(), m[g].end()); m[g].clear(); ev("mergel", h, g); } }
        else if (o == 9 && t.size() > 1) { int g = (h + 1) % t.size(); if (m[h].empty() || m[g].empty() || rng.coin(1, 2)) { pend("move", h, g); c = std::move(*t[g]); m[h] = m[g]; m[g].clear(); ev("move", h, g); } else { if constexpr (FOLD) { c.swap(*t[g]); std::swap(m[h], m[g]); ev("swap", h, g); } } }
        else if (o == 10) ev("len", h, c.size(), c.size() == 0);
        else if (o == 11) { if constexpr (!FOLD) { const C& cc = c; ev("ends", h, un(rng.coin(1, 2) ? c.front() : cc.front()), un(rng.coin(1, 2) ? c.back() : cc.back())); } }
        else if (o == 12) { if constexpr (!FOLD || COMM) { pend("rev", h, l, r); if (rng.coin(1, 4)) l = 0, r = n, c.reverse_all(); else c.reverse(l, r); std::reverse(m[h].begin() + l, m[h].begin() + r); ev("rev", h, l, r); } }
        else if (o == 13) { if constexpr (ACT) { F f = rf(); FO g{f.a, f.b}; pend("act", h, l, r); if (rng.coin(1, 4)) l = 0, r = n, c.apply_all(g); else c.apply(l, r, g); for (int k = l; k < r; ++k) m[h][k] = imap(f, m[h][k]); ev("act", h, l, r, out(f)); } }
        else { if constexpr (FOLD) { pend("prod", h, l, r); V v; if (rng.coin(1, 4)) l = 0, r = n, v = c.prod_all(); else v = rng.coin(1, 2) ? c.prod(l, r) : c(l, r); if constexpr (COMM) ev("sumq", h, l, r, v.s, v.n); else ev("prod", h, l, r, out(v)); } }
    }
    for (int h = 0; h < (int)t.size(); ++h) for (int k = 0; k < (int)m[h].size(); ++k) { pend("get", h, k); V v = (*t[h])[k]; ev("get", h, k, un(v)); }
    finish();
}
// ---------------------------------------------------------------- sortable segment tree
typedef std::pair<int, int> KV;
void sortable(int n0, int len) {
    using C = SortableSegmentTree<H, op, e, toggle, int>;
    std::vector<int> keys; for (int k = 0; k < 4 * (n0 + len) + 8; ++k) keys.push_back(k * 3 - 50); rng.shuffle(keys); auto nk = [&] { int k = keys.back(); keys.pop_back(); return k; };
    std::vector<KV> init; for (int i = 0; i < n0; ++i) init.push_back({nk(), rv()});
    std::vector<std::vector<KV>> m{init}; begin("kseq", m); pend("build");
    std::vector<std::pair<int, H>> d; for (auto& [k, v] : init) d.push_back({k, one(v)});
    std::vector<std::unique_ptr<C>> t; t.emplace_back(n0 ? new C(d) : new C());
    auto vals = [&](int h) { VI r; for (auto& x : m[h]) r.push_back(x.second); return r; };
    for (int i = 0; i < len; ++i) {
        int h = rng(0, t.size() - 1), n = m[h].size(), o = rng(0, 17); auto [l, r] = range(n); C& c = *t[h];
        if (o == 0 || n == 0) { int p = rng(0, n), k = nk(), v = rv(); pend("ins", h, p, k, v); if (p == 0 && rng.coin(1, 2)) c.push_front(k, one(v)); else if (p == n && rng.coin(1, 2)) c.push_back(k, one(v)); else c.insert(p, k, one(v)); m[h].insert(m[h].begin() + p, {k, v}); ev("ins", h, p, KV{k, v}); }
        else if (o == 1) { int p = rng(0, n - 1); pend("del", h, p); auto x = p == 0 && rng.coin(1, 2) ? c.pop_front() : p == n - 1 && rng.coin(1, 2) ? c.pop_back() : c.erase(p); m[h].erase(m[h].begin() + p); ev("del", h, p, KV{x.first, x.second.h}); }
        else if (o == 2) { int p = rng(0, n - 1), k = nk(), v = rv(); pend("setkv", h, p); auto x = c.set_key_value(p, k, one(v)); m[h][p] = {k, v}; ev("setkv", h, p, KV{k, v}, KV{x.first, x.second.h}); }
        else if (o == 3) { int p = rng(0, n - 1), v = rv(); pend("setv", h, p); H old; if (rng.coin(1, 2)) old = c.set_value(p, one(v)); else { old = c[p]; c[p] = one(v); } m[h][p].second = v; ev("setv", h, p, v, old.h); }
        else if (o == 4) { int p = rng(0, n - 1); H g = rng.coin(1, 2) ? c.get(p) : (H)c[p]; ev("get", h, p, g.h); }
        else if (o == 5 && t.size() < 4) { int p = rng(0, n); pend("split", h, p); t.emplace_back(new C(c.split(p))); m.emplace_back(m[h].begin() + p, m[h].end()); m[h].resize(p); ev("split", h, p); }
        else if (o == 6 && t.size() > 1) { int g = (h + 1) % t.size(); pend("merge", h, g); c.concat(std::move(*t[g])); m[h].insert(m[h].end(), m[g].begin(), m[g].end()); m[g].clear(); ev("merge", h, g); }
        else if (o <= 9) { bool asc = rng.coin(1, 2); pend("sort", h, l, r, asc); if (asc) rng.coin(1, 2) ? c.sort_asc(l, r) : c.sort(l, r); else rng.coin(1, 2) ? c.sort_dsc(l, r) : c.sort(l, r, C::SortingPolicy::descending); std::sort(m[h].begin() + l, m[h].begin() + r); if (!asc) std::reverse(m[h].begin() + l, m[h].begin() + r); ev("sort", h, l, r, asc); }
        else if (o <= 11) { Word w(word_from(vals(h), l)); pend("mr", h, l, w.w); auto [p, s] = c.max_right(l, [&](const H& x) { return w.is_prefix(x); }); ev("mr", h, l, w.w, p, out(s)); }
        else if (o <= 13) { Word w(word_to(vals(h), r)); pend("ml", h, r, w.w); auto [p, s] = c.min_left(r, [&](const H& x) { return w.is_suffix(x); }); ev("ml", h, r, w.w, p, out(s)); }
        else if (o == 14) { pend("dump"); std::vector<KV> q; if (rng.coin(1, 2)) { for (auto& [k, v] : c.dump_entries()) q.push_back({k, v.h}); ev("dump", h, q); } else { c.foreach([&](int k, const H& v) { q.push_back({k, v.h}); }, true); ev("rdump", h, q); } }
        else if (o == 15) { ev("keys", h, c.dump_keys()); ev("len", h, c.size()); std::vector<KV> q; auto ks = c.dump_keys(); auto vs = c.dump_values(); for (size_t z = 0; z < vs.size(); ++z) q.push_back({z < ks.size() ? ks[z] : -7, vs[z].h}); ev("dump", h, q); }
        else { pend("prod", h, l, r); ev("prod", h, l, r, out(c.prod(l, r))); }
    }
    for (int h = 0; h < (int)t.size(); ++h) { std::vector<KV> q; for (auto& [k, v] : t[h]->dump_entries()) q.push_back({k, v.h}); ev("dump", h, q); }
    finish();
}
using A0 = Treap<DynamicArray<int>, int, false, false, false>;
using A1 = Treap<DynamicSegmentTree<H, op, e>, H, false, true, false>;
using A8 = Treap<DynamicArray<ll>, ll, false, false, false>; using A9 = Treap<ReversibleDynamicArray<ll>, ll, true, false, false>;
using A2 = Treap<ReversibleDynamicArray<int>, int, true, false, false>;
using A3 = Treap<ReversibleDynamicDualSegmentTree<int, FO, imap2, fcomp, fid>, int, true, false, true>;
using A4 = Treap<ReversibleDynamicSegmentTree<H, op, e, toggle>, H, true, true, false>;
using A5 = Treap<ReversibleDynamicLazySegmentTree<H, op, e, toggle, FO, fmap3, fcomp, fid>, H, true, true, true>;
H gmap3(F f, H x, int) { return mapping(f, x); }      // operators without ==
ll imapL(F f, ll x) { return imap(f, dn(x)) * K; }
using A10 = Treap<ReversibleDynamicDualSegmentTree<ll, F, imapL, comp, id>, ll, true, false, true>;
using A6 = Treap<ReversibleDynamicDualSegmentTree<int, F, imap, comp, id>, int, true, false, true>;
using A7 = Treap<ReversibleDynamicLazySegmentTree<H, op, e, toggle, F, gmap3, comp, id>, H, true, true, true>;
using RB0 = bbst::RedBlackTreeNode<int>;
using RB1 = bbst::segtree::RedBlackTreeNode<H, op, e>;
using RB2 = bbst::lazy_segtree::RedBlackTreeNode<H, op, e, FO, fmap3, fcomp, fid>;
using RB3 = bbst::reversible_lazy_segtree::RedBlackTreeNode<S, sop, se, FO, smap3, fcomp, fid>;
// behaviours generated from the specification (Gen_C04)
bool uses(const std::vector<Call>& h, const char* op_) { for (auto& c : h) if (c[0] == op_) return true; return false; }
template <class C, class V, bool REV, bool FOLD, bool ACT> void treap_calls(const std::vector<Call>& h) {
    int n = num(h[0], 1); VI a(n); std::iota(a.begin(), a.end(), 1); begin("dseq", std::vector<VI>{a}); std::vector<C> t; t.push_back(C(mkv<V>(a))); t.reserve(4);
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int q = num(c, 1); pend(c[0], q);
        if (c[0] == "ins") { t[q].insert(num(c, 2), mk<V>(num(c, 3))); ev("ins", q, num(c, 2), num(c, 3)); } else if (c[0] == "del") { int x = un(t[q].erase(num(c, 2))); ev("del", q, num(c, 2), x); }
        else if (c[0] == "rot") { t[q].rotate(num(c, 2), num(c, 3), num(c, 4)); ev("rot", q, num(c, 2), num(c, 3), num(c, 4)); } else if (c[0] == "split") { t.push_back(t[q].split(num(c, 2))); ev("split", q, num(c, 2)); }
        else if (c[0] == "merge") { int g = num(c, 2); t[q].merge(t[g]); t[g] = C(); ev("merge", q, g); }
        else if (c[0] == "rev") { if constexpr (REV) { t[q].reverse(num(c, 2), num(c, 3)); ev("rev", q, num(c, 2), num(c, 3)); } }
        else if constexpr (ACT) { F f{num(c, 4), num(c, 5)}; t[q].apply(num(c, 2), num(c, 3), FO{f.a, f.b}); ev("act", q, num(c, 2), num(c, 3), out(f)); } }
    for (int q = 0; q < (int)t.size(); ++q) { int m = t[q].size(); if constexpr (FOLD) ev("prod", q, 0, m, out(t[q].prod_all())); ev("dump", q, unv(t[q].dump())); if constexpr (FOLD) for (int l = 0; l < m; ++l) ev("prod", q, l, m, out(t[q].prod(l, m))); }
    finish(); for (auto& c : t) c.free();
}
template <class N, class V, bool FOLD, bool ACT, bool REV> void rb_calls(const std::vector<Call>& h) {
    static bool first = true; if (first) N::init_pool(1 << 13), first = false; using T = typename N::tree_type;
    int n = num(h[0], 1); VI a(n); std::iota(a.begin(), a.end(), 1); begin("dseq", std::vector<VI>{a}); std::vector<T> t{N::build(mkv<V>(a))};
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int q = num(c, 1); pend(c[0], q);
        if (c[0] == "ins") { t[q] = N::insert(t[q], num(c, 2), mk<V>(num(c, 3))); ev("ins", q, num(c, 2), num(c, 3)); } else if (c[0] == "del") { auto [x, v] = N::erase(t[q], num(c, 2)); t[q] = x; ev("del", q, num(c, 2), un(v)); }
        else if (c[0] == "split") { auto [x, y] = N::split(t[q], num(c, 2)); t[q] = x; t.push_back(y); ev("split", q, num(c, 2)); }
        else if (c[0] == "merge") { int g = num(c, 2); t[q] = N::merge(t[q], t[g]); t[g] = N::empty_tree(); ev("merge", q, g); }
        else if (c[0] == "rev") { if constexpr (REV) { t[q] = N::reverse(t[q], num(c, 2), num(c, 3)); ev("rev", q, num(c, 2), num(c, 3)); } }
        else if constexpr (ACT) { F f{num(c, 4), num(c, 5)}; t[q] = N::apply(t[q], num(c, 2), num(c, 3), FO{f.a, f.b}); ev("act", q, num(c, 2), num(c, 3), out(f)); } }
    for (int q = 0; q < (int)t.size(); ++q) { std::vector<V> d; N::dump(t[q], std::back_inserter(d)); ev("dump", q, unv(d)); N::check_rbtree_properties(t[q]); if constexpr (FOLD) if (d.size()) { V v = N::prod_all(t[q]); if constexpr (std::is_same_v<V, S>) ev("sumq", q, 0, (int)d.size(), v.s, v.n); else ev("prod", q, 0, (int)d.size(), out(v)); } }
    finish(); for (auto x : t) N::free(x);
}
template <class C, class V, bool REV, bool ACT> void splay_calls(const std::vector<Call>& h) {
    int n = num(h[0], 1); begin("dseq", std::vector<VI>(1)); std::vector<std::unique_ptr<C>> t; t.emplace_back(new C()); for (int k = 0; k < n; ++k) { t[0]->push_back(mk<V>(k + 1)); ev("ins", 0, k, k + 1); }
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; int q = num(c, 1); pend(c[0], q);
        if (c[0] == "ins") { t[q]->insert(num(c, 2), mk<V>(num(c, 3))); ev("ins", q, num(c, 2), num(c, 3)); } else if (c[0] == "del") { t[q]->erase(num(c, 2)); ev("del0", q, num(c, 2)); }
        else if (c[0] == "split") { t.emplace_back(new C(t[q]->split(num(c, 2)))); ev("split", q, num(c, 2)); } else if (c[0] == "merge") { int g = num(c, 2); t[q]->concat(std::move(*t[g])); ev("merge", q, g); }
        else if (c[0] == "rev") { if constexpr (REV) { t[q]->reverse(num(c, 2), num(c, 3)); ev("rev", q, num(c, 2), num(c, 3)); } }
        else if constexpr (ACT) { F f{num(c, 4), num(c, 5)}; t[q]->apply(num(c, 2), num(c, 3), FO{f.a, f.b}); ev("act", q, num(c, 2), num(c, 3), out(f)); } }
    for (int q = 0; q < (int)t.size(); ++q) { int m = t[q]->size(); ev("len", q, m, m == 0); for (int k = 0; k < m; ++k) { V v = (*t[q])[k]; ev("get", q, k, un(v)); } }
    finish();
}
void replay() {
    for (auto& h : script()) {
        bool rev = uses(h, "rev"), act = uses(h, "act"), rot = uses(h, "rot");
        treap_calls<ReversibleDynamicLazySegmentTree<H, op, e, toggle, FO, fmap3, fcomp, fid>, H, true, true, true>(h);
        if (!act) treap_calls<ReversibleDynamicSegmentTree<H, op, e, toggle>, H, true, true, false>(h);
        if (!act && !rev) treap_calls<DynamicSegmentTree<H, op, e>, H, false, true, false>(h);
        if (!rot) rb_calls<RB3, S, true, true, true>(h);
        if (!rot && !rev) rb_calls<RB2, H, true, true, false>(h);
        if (!rot) splay_calls<LazyEvalDynamicSequence<S, sop, se, FO, smap2, fcomp, fid>, S, true, true>(h);
        if (!rot && !act) splay_calls<DynamicSequence<int>, int, true, false>(h);
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    replay();
    for (int it = 0; it < reps(80); ++it) {
        auto sz = [&]() -> int { if (it % 10 == 9) return rng(80, 200); return rng.coin(1, 6) ? 0 : rsize(rng.coin(1, 3) ? 40 : 8); };
        A0::run(sz(), 60); A1::run(sz(), 60); A2::run(sz(), 60); A3::run(sz(), 60); A4::run(sz(), 60); A5::run(sz(), 60); if (it % 2) A6::run(sz(), 60), A8::run(sz(), 60), A10::run(sz(), 60), A9::sorted(sz(), 40); else A7::run(sz(), 60), A9::run(sz(), 60), A8::sorted(sz(), 25);
        A0::sorted(sz(), 25); A1::sorted(sz(), 25); A2::sorted(sz(), 40); A3::sorted(sz(), 40); A4::sorted(sz(), 40); A5::sorted(sz(), 40);
        rb<RB0, int, false, false, false, false>(sz(), 60); rb<RB1, H, true, false, false, false>(sz(), 60); rb<RB2, H, true, true, false, false>(sz(), 60); rb<RB3, S, true, true, true, true>(sz(), 60);
        splay<DynamicSequence<int>, int, false, false, false>(sz(), 60);
        splay<RangeFoldableDynamicSequence<H, op, e>, H, true, false, false>(sz(), 60); splay<RangeFoldableDynamicSequence<S, sop, se>, S, true, false, true>(sz(), 60);
        splay<LazyEvalDynamicSequence<H, op, e, FO, fmap2, fcomp, fid>, H, true, true, false>(sz(), 60); splay<LazyEvalDynamicSequence<S, sop, se, FO, smap2, fcomp, fid>, S, true, true, true>(sz(), 60);
        sortable(sz(), 60); sortable(sz(), 60);
    }
}
