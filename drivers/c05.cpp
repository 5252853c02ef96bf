// C05: ordered maps and sets (splay maps and sets, foldable and lazily acted maps, integer sets, range sets)
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace vt; using namespace alg; using namespace suisen;
typedef std::vector<std::pair<int, int>> VP; typedef std::vector<int> VI;
template <class V> V mk(int x) { if constexpr (std::is_same_v<V, int>) return x; else return x < 0 ? e() : one(x); }
std::pair<int, int> vo(int x) { return {x, 1}; } std::pair<int, int> vo(const H& x) { return out(x); }
// KIND 0: plain map, 1: foldable, 2: lazily acted
template <class C, class V, int KIND, class KT = int> void maps(int span, int len) {
    auto kz = [](int x) { if constexpr (std::is_same_v<KT, ll>) return x * K; else return x; }; auto zk = [](KT x) { if constexpr (std::is_same_v<KT, ll>) return dn(x); else return x; };
    begin("map", VP{}, VP{}); C c[2]; std::set<int> keys[2];   // keys: only to choose arguments
    int off = rng.coin(1, 2) ? 0 : -span / 2;
    for (int i = 0; i < len; ++i) {
        int h = rng.coin(2, 3) ? 0 : 1, k = off + rng(0, span), v = rv(), n = c[h].size(); C& m = c[h]; auto [l, r] = range(n);
        if (rng.coin(1, 3) && !keys[h].empty()) { auto it = keys[h].begin(); std::advance(it, rng(0, keys[h].size() - 1)); k = *it; }
        int k2 = off + rng(-2, span + 2); int kl = std::min(k, k2), kr = std::max(k, k2);
        switch (rng(0, 21)) {
            case 0: case 1: case 2: pend("ins", h, k, v); m.insert(kz(k), mk<V>(v)); keys[h].insert(k); ev("ins", h, k, v); break;
            case 3: pend("insabs", h, k, v); m.insert_if_absent(kz(k), mk<V>(v)); keys[h].insert(k); ev("insabs", h, k, v); break;
            case 4: pend("has", h, k2); ev("has", h, k2, m.contains(kz(k2))); break;
            case 5: case 6: { pend("erk", h, k); bool b = m.erase_key(kz(k)); keys[h].erase(k); ev("erk", h, k, b); break; }
            case 7: if (n) { int j = rng(0, n - 1); pend("eri", h, j); m.erase_index(j); auto it = keys[h].begin(); std::advance(it, j); keys[h].erase(it); ev("eri", h, j); } break;
            case 8: { pend("goc", h, k, v); auto x = vo(m.get_or_create(kz(k), mk<V>(v))); keys[h].insert(k); ev("goc", h, k, v, x); break; }
            case 9: { pend("operator[]", h, k);
                if constexpr (KIND == 0) { if (rng.coin(1, 2)) { m[kz(k)] = v; ev("ins", h, k, v); } else { int x = m[kz(k)]; ev("goc", h, k, 0, vo(x)); } }
                else { if (rng.coin(1, 2)) { m[kz(k)] = mk<V>(v); ev("ins", h, k, v); } else { V x = m[kz(k)]; ev("goc", h, k, -1, vo(x)); } }
                keys[h].insert(k); break; }
            case 10: { pend("god", h, k2); auto x = vo(m.get_or_default(kz(k2), mk<V>(v))); ev("god", h, k2, v, x); break; }
            case 11: case 12: if (n) { int j = rng(0, n - 1); pend("kth", h, j); auto [a, b] = m.kth_entry(j); ev("kth", h, j, zk(a), vo(b)); } break;
            case 13: if (rng.coin(1, 2)) { int j = rng(0, n); pend("spi", h, j); c[1 - h] = m.split_by_index(j); auto it = keys[h].begin(); std::advance(it, j); keys[1 - h] = std::set<int>(it, keys[h].end()); keys[h].erase(it, keys[h].end()); ev("spi", h, j); }
                else { pend("spk", h, k2); c[1 - h] = m.split_by_key(kz(k2)); auto it = keys[h].lower_bound(k2); keys[1 - h] = std::set<int>(it, keys[h].end()); keys[h].erase(it, keys[h].end()); ev("spk", h, k2); } break;
            case 14: case 15: if (keys[0].empty() || keys[1].empty() || *keys[h].rbegin() < *keys[1 - h].begin()) { pend("mrg", h); m.merge(std::move(c[1 - h])); keys[h].insert(keys[1 - h].begin(), keys[1 - h].end()); keys[1 - h].clear(); ev("mrg", h); } break;
            case 16: if (rng.coin(1, 4)) { if (rng.coin(1, 2)) { m.swap(c[1 - h]); keys[0].swap(keys[1]); ev("swap"); } else { m = std::move(c[1 - h]); keys[h] = keys[1 - h]; keys[1 - h].clear(); ev("move", h); } } break;
            case 17: ev("size", h, n); break;
            case 18: if constexpr (KIND >= 1) { pend("pri", h, l, r); ev("pri", h, l, r, out(m.prod_by_index(l, r))); } break;
            case 19: if constexpr (KIND >= 1) { if (rng.coin(1, 4)) ev("pri", h, 0, n, out(m.prod_all())); else { pend("prk", h, kl, kr); ev("prk", h, kl, kr, out(rng.coin(1, 2) ? m.prod_by_key(kz(kl), kz(kr)) : m(kz(kl), kz(kr)))); } } break;
            case 20: if constexpr (KIND == 2) { F f = rf(); pend("api", h, l, r); if (rng.coin(1, 4)) { l = 0, r = n; m.apply_all(f); } else m.apply_by_index(l, r, f); ev("api", h, l, r, out(f)); } break;
            default: if constexpr (KIND == 2) { F f = rf(); pend("apk", h, kl, kr); m.apply_by_key(kz(kl), kz(kr), f); ev("apk", h, kl, kr, out(f)); } break;
        }
    }
    for (int h : {0, 1}) { int n = c[h].size(); for (int j = 0; j < n; ++j) { auto [a, b] = c[h].kth_entry(j); ev("kth", h, j, zk(a), vo(b)); } }
    finish();
}
void sets(int span, int len) {
    begin("map", VP{}, VP{}); SplayTreeSet<int> c[2]; std::set<int> keys[2];
    for (int i = 0; i < len; ++i) {
        int h = rng.coin(2, 3) ? 0 : 1, k = rng(0, span), n = c[h].size(); auto& m = c[h];
        switch (rng(0, 9)) {
            case 0: case 1: case 2: pend("ins", h, k); m.insert(k); keys[h].insert(k); ev("insabs", h, k, 0); break;
            case 3: case 4: { pend("erase", h, k); bool b = m.erase(k); keys[h].erase(k); ev("erk", h, k, b); break; }
            case 5: ev("has", h, k, m.contains(k)); break;
            case 6: if (n) { int j = rng(0, n - 1); pend("kth", h, j); ev("kkey", h, j, rng.coin(1, 2) ? m[j] : m.kth_element(j)); } else ev("size", h, m.size()); break;
            case 7: if (rng.coin(1, 2)) { int j = rng(0, n); pend("spi", h, j); c[1 - h] = m.split_by_index(j); auto it = keys[h].begin(); std::advance(it, j); keys[1 - h] = std::set<int>(it, keys[h].end()); keys[h].erase(it, keys[h].end()); ev("spi", h, j); }
                else { pend("spk", h, k); c[1 - h] = m.split_by_key(k); auto it = keys[h].lower_bound(k); keys[1 - h] = std::set<int>(it, keys[h].end()); keys[h].erase(it, keys[h].end()); ev("spk", h, k); } break;
            case 8: if (keys[0].empty() || keys[1].empty() || *keys[h].rbegin() < *keys[1 - h].begin()) { pend("mrg", h); m.merge(std::move(c[1 - h])); keys[h].insert(keys[1 - h].begin(), keys[1 - h].end()); keys[1 - h].clear(); ev("mrg", h); } break;
            default: if (rng.coin(1, 3)) { m.swap(c[1 - h]); keys[0].swap(keys[1]); ev("swap"); } else ev("size", h, m.size()); break;
        }
    }
    finish();
}
void iset(int n, int len) {
    VI init; int dens = rng(0, 3); if (dens) for (int i = 0; i < n; ++i) if (rng.coin(1, dens == 1 ? 60 : dens)) init.push_back(i);
    int how = rng(0, 2); bool full = dens == 1 && rng.coin(1, 3); if (full) { init.resize(n); std::iota(init.begin(), init.end(), 0); }
    begin("iset", n, init); pend("construct", n);
    fenwick_tree_set s = full ? fenwick_tree_set(n, true) : how == 0 && init.empty() ? (n == 0 && rng.coin(1, 2) ? fenwick_tree_set() : fenwick_tree_set(n)) : [&] {
        VI w = init; if (how == 1) { if (!w.empty()) w.push_back(rng.pick(init)); rng.shuffle(w); return fenwick_tree_set(n, w); }
        VI b(n); bool inv = rng.coin(1, 2); for (int i = 0; i < n; ++i) b[i] = inv ? 3 : 0; for (int x : w) b[x] = inv ? 7 : 1; return inv ? fenwick_tree_set(b, 7) : fenwick_tree_set(b); }();
    for (int i = 0; i < len; ++i) {
        int v = n ? rng(0, n - 1) : 0, q = rng(-2, n + 2); if (rng.coin(1, 10)) q = rng.coin(1, 2) ? (rng.coin(1, 2) ? -1000 : INT_MIN + (int)rng(0, 1)) : (rng.coin(1, 2) ? n + 100000 : INT_MAX - (int)rng(0, 1));
        switch (rng(0, 9)) {
            case 0: case 1: if (n) { pend("ins", v); ev("ins", v, s.insert(v)); } break;
            case 2: case 3: if (n) { if (s.size() && rng.coin(1, 2)) { int k = rng(0, s.size() - 1); v = s[k]; if (rng.coin(1, 2)) { pend("eraat", k); auto it = s.erase(s.begin() + k); ev("eraat", k, *it); break; } } pend("era", v); ev("era", v, s.erase(v)); } break;
            case 4: { int k = rng(-1, s.size() + 1); pend("kth", k); ev("kth", k, s.kth_element(k), s[k]); break; }
            case 5: { int a = rng(0, s.size()), d = rng(-4, 4); if (rng.coin(1, 5)) d = 0; pend("it", a, d); auto it = s.begin() + a; auto j = it; switch (rng(0, 3)) { case 0: j = it + d; break; case 1: j = d + it; break; case 2: j = it - (-d); break; default: for (int t = 0; t < std::abs(d); ++t) if (d > 0) { if (t & 1) ++j; else j++; } else { if (t & 1) --j; else j--; } }
                ev("it", a, d, rng.coin(1, 2) ? *j : it[d], j.has_value(), j.index(), it - j, std::make_tuple(j < it, j <= it, j > it, j >= it, j == it, j != it)); break; }
            case 6: if (rng.coin(1, 5)) { VI d; for (int x : s) d.push_back(x); ev("dump", d); } break;
            default: pend("q", q); ev("q", q, std::make_tuple(s.contains(q), s.size()), VI{s.count_lt(q), s.count_leq(q), s.count_gt(q), s.count_geq(q)}, VI{s.max_leq(q), s.max_lt(q), s.min_geq(q), s.min_gt(q)}, VI{s.lower_bound(q).index(), s.upper_bound(q).index(), s.find(q).index()});
        }
    }
    finish();
}
// the unit x of the model is the block [x * k, x * k + k - 1] of k integers
template <class T, bool M> void rset(int span, int len) {
    begin("rset", (int)M, VP{}); RangeSet<T, M> s; int off = rng.coin(1, 2) ? 0 : -span / 2; int mul = rng.coin(1, 3) ? 1000 : 1; const T k = sizeof(T) == 8 && rng.coin(1, 2) ? (T)K : (T)1;
    auto un = [&](T x) { return x % k == 0 ? (ll)(x / k) : 987654321LL; }; auto hi = [&](T x) { return x * k + (k - 1); };
    for (int i = 0; i < len; ++i) {
        int a = off + rng(0, span), b = rng.coin(1, 3) ? a : std::min<int>(off + span, a + rng(0, std::max(1, span / 3))); a *= mul; b *= mul; if (mul > 1) a += rng(-1, 1), b += rng(-1, 1); if (rng.coin(1, 30)) std::swap(a, b);
        int x = (off + rng(-2, span + 2)) * mul + rng(-1, 1); T xx = x * k + (k > 1 ? (T)rng(0, k - 1) : 0);
        switch (rng(0, 9)) {
            case 0: case 1: case 2: pend("ins", a, b); ev("ins", a, b, un(k == 1 && a == b && rng.coin(1, 2) ? s.insert(a) : s.insert(a * k, hi(b)))); break;
            case 3: case 4: pend("era", a, b); ev("era", a, b, un(k == 1 && a == b && rng.coin(1, 2) ? s.erase(a) : s.erase(a * k, hi(b)))); break;
            case 5: ev("size", un(s.size()), un(s.number_of_elements()), s.number_of_ranges()); break;
            case 6: { VP f; auto it = s.find_range(xx); if (it != s.end()) f.emplace_back(un(it->first), un(it->second - (k - 1))); ev("has", x, s.contains(xx), f); break; }
            case 7: { if constexpr (M) ev("mex", x, un(s.minimum_excluded(x * k)), un(s.maximum_excluded(hi(x)) - (k - 1))); break; }
            case 8: ev("same", x, b, s.in_the_same_range(xx, b * k)); break;
            default: { VP d; for (auto [l, r] : s) d.emplace_back(un(l), un(r - (k - 1))); ev("dump", d); }
        }
    }
    finish();
}
void rcom(int n, int len) {
    VI init = rvec(n); bool unif = rng.coin(1, 2); if (unif) for (auto& x : init) x = init[0];
    cur.clear(); begin("rcom"); 
    // parameters are the initial array itself
    cur = "{\"k\":\"rcom\",\"p\":"; put(cur, init); cur += ",\"ev\":["; pend("construct", n);
    using C = RangeSetRangeComposite<H, op, e>;
    C c = n == 0 ? C() : unif ? C(n, one(init[0])) : C(lift(init));
    for (int i = 0; i < len; ++i) {
        auto [l, r] = range(n); int v = rv();
        if (rng.coin(1, 2)) { pend("set", l, r); c.set(l, r, one(v)); ev("set", l, r, v); }
        else { pend("prod", l, r); ev("prod", l, r, out(c.prod(l, r))); }
    }
    finish();
}
// behaviours generated from the specification (Gen_C05)
template <class C, class V, int KIND> void map_calls(const std::vector<Call>& h) {
    begin("map", VP{}, VP{}); C c[2];
    for (size_t i = 1; i < h.size(); ++i) { auto& q = h[i]; pend(q[0]);
        if (q[0] == "ins") { c[0].insert(num(q, 1), mk<V>(num(q, 2))); ev("ins", 0, num(q, 1), num(q, 2)); }
        else if (q[0] == "erk") { bool b = c[0].erase_key(num(q, 1)); ev("erk", 0, num(q, 1), b); }
        else if (q[0] == "spk") { c[1] = c[0].split_by_key(num(q, 1)); ev("spk", 0, num(q, 1)); }
        else if (q[0] == "swap") { c[0].swap(c[1]); ev("swap"); }
        else { c[0].merge(std::move(c[1])); ev("mrg", 0); } }
    for (int b : {0, 1}) { int n = c[b].size(); ev("size", b, n); if constexpr (KIND >= 1) ev("pri", b, 0, n, out(c[b].prod_by_index(0, n))); for (int j = 0; j < n; ++j) { auto [x, y] = c[b].kth_entry(j); ev("kth", b, j, x, vo(y)); } }
    finish();
}
template <class S> void rset_calls(S& s, const std::vector<Call>& h) {
    for (size_t i = 1; i < h.size(); ++i) { int l = num(h[i], 1), r = num(h[i], 2); bool in = h[i][0] == "ins"; pend(h[i][0], l, r); ev(in ? "ins" : "era", l, r, in ? s.insert(l, r) : s.erase(l, r)); }
    VP d; for (auto [l, r] : s) d.emplace_back(l, r); ev("dump", d); ev("size", s.size(), s.number_of_elements(), s.number_of_ranges());
}
void replay() {
    int line = 0;
    for (auto& h : script()) { ++line;
        if (h[0][0] == "map") { switch (line % 3) { case 0: map_calls<SplayTreeMap<int, int>, int, 0>(h); break; case 1: map_calls<RangeFoldableMap<int, H, op, e>, H, 1>(h); break; default: map_calls<LazyEvalMap<int, H, op, e, F, mapping, comp, id>, H, 2>(h); } }
        else if (h[0][0] == "rset") { if (num(h[0], 1)) { begin("rset", 1, VP{}); RangeSet<int, true> s; rset_calls(s, h); } else { begin("rset", 0, VP{}); RangeSet<int, false> s; rset_calls(s, h); } finish(); }
        else { int n = num(h[0], 1); begin("iset", n, VI{}); fenwick_tree_set s(n);
            for (size_t i = 1; i < h.size(); ++i) { int v = num(h[i], 1); pend(h[i][0], v); if (h[i][0] == "ins") ev("ins", v, s.insert(v)); else ev("era", v, s.erase(v)); }
            for (int k = 2; k < 5; ++k) { int q = num(h[0], k); ev("q", q, std::make_tuple(s.contains(q), s.size()), VI{s.count_lt(q), s.count_leq(q), s.count_gt(q), s.count_geq(q)}, VI{s.max_leq(q), s.max_lt(q), s.min_geq(q), s.min_gt(q)}, VI{s.lower_bound(q).index(), s.upper_bound(q).index(), s.find(q).index()}); }
            VI d; for (int x : s) d.push_back(x); ev("dump", d); finish(); }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    replay();
    for (int t = 0; t < reps(120); ++t) {
        int span = rng.pick(*new std::vector<int>{3, 8, 20, 60, 300}), len = span < 10 ? 60 : 200;
        if (rng.coin(1, 2)) { maps<SplayTreeMap<ll, int>, int, 0, ll>(span, len); maps<RangeFoldableMap<ll, H, op, e>, H, 1, ll>(span, len); maps<LazyEvalMap<ll, H, op, e, F, mapping, comp, id>, H, 2, ll>(span, len); }
        maps<SplayTreeMap<int, int>, int, 0>(span, len);
        maps<RangeFoldableMap<int, H, op, e>, H, 1>(span, len);
        maps<LazyEvalMap<int, H, op, e, F, mapping, comp, id>, H, 2>(span, len);
        sets(span, len);
        int n = rng.pick(*new std::vector<int>{0, 1, 2, 63, 64, 65, 128, 130, 200, 450, 1000});
        iset(n, 150);
        rset<int, true>(span, 100); rset<long long, false>(span, 100); rset<long long, true>(span, 60);
        rcom(rng.coin(1, 20) ? 0 : rsize(80), 80);
    }
}
