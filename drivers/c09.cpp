// C09: bitsets, rank/select bit vectors, wavelet matrices, binary tries, bit utilities
#include "vt.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/static_bitset.hpp"
#include "library/util/bit_utils.hpp"
using namespace vt; using namespace suisen;
typedef std::vector<int> VI; typedef std::vector<W> VW;
int bsize() { static VI s{0, 1, 2, 63, 64, 65, 127, 128, 129, 191, 192, 200}; return rng.coin(1, 2) ? rng.pick(s) : rng(0, 140); }
std::pair<int, int> rg(int n) { int l = rng(0, n), r = rng(0, n); if (rng.coin(1, 4)) l = l / 64 * 64; if (rng.coin(1, 4)) r = r / 64 * 64; if (l > r) std::swap(l, r); if (rng.coin(1, 10)) l = 0; if (rng.coin(1, 10)) r = n; return {l, r}; }
void dynbits(int len) {
    int n0 = bsize(); bool f0 = rng.coin(1, 2); std::vector<VI> init{VI(n0, f0), VI(n0, f0)};
    begin("bits", init[0], init[1]); DynamicBitSet b[2] = {DynamicBitSet(n0, f0), DynamicBitSet(n0, f0)};
    for (int i = 0; i < len; ++i) {
        int h = rng(0, 1), n = b[h].size(); bool v = rng.coin(1, 2), same = b[0].size() == b[1].size(); auto [l, r] = rg(n); auto& x = b[h]; auto& y = b[1 - h]; int k = n ? rng(0, n - 1) : 0;
        switch (rng(0, 25)) {
            case 0: if (rng.coin(1, 6)) { int m = rng.coin(1, 2) ? y.size() : bsize(); x = DynamicBitSet(m, v); ev("new", h, m, v); } break;
            case 1: { int m = rng.coin(1, 2) ? y.size() : rng.coin(1, 2) ? std::max(0, n + (int)rng(-9, 9)) : bsize(); pend("resize", n, m); x.resize(m, v); ev("rs", h, m, v); break; }
            case 2: pend("push"); x.push_back(v); ev("pb", h, v); break;
            case 3: if (n) { pend("pop"); x.pop_back(); ev("pop", h); } break;
            case 4: case 5: if (n) { switch (rng(0, 3)) { case 0: x[k] = v; break; case 1: { DynamicBitSet t(1, v); x[k] = t[0]; break; } case 2: if (v) x[k].set(); else x[k].reset(); break; default: x[k] = v; } ev("put", h, k, v); } break;
            case 6: if (n) { x[k].flip(); ev("flip", h, k); } break;
            case 7: if (n) { switch (rng(0, 2)) { case 0: x[k] &= v; ev("and1", h, k, v); break; case 1: x[k] |= v; ev("or1", h, k, v); break; default: x[k] ^= v; ev("xor1", h, k, v); } } break;
            case 8: case 9: pend("range", l, r); if (rng.coin(1, 2)) x.range_update(l, r, v); else if (v) x.range_set(l, r); else x.range_reset(l, r); ev("rput", h, l, r, v); break;
            case 10: pend("rflip", l, r); x.range_flip(l, r); ev("rflip", h, l, r); break;
            case 11: case 12: pend("rcnt", l, r); ev("rcnt", h, l, r, x.range_count(l, r)); break;
            case 13: if (rng.coin(1, 3)) { if (v) x.set(); else x.reset(); ev("all", h, v); } break;
            case 14: if (same) { switch (rng(0, 2)) { case 0: if (v) x &= y; else x = x & y; ev("and", h); break; case 1: if (v) x |= y; else x = x | y; ev("or", h); break; default: if (v) x ^= y; else x = x ^ y; ev("xor", h); } } break;
            case 15: case 16: { int s = rng.coin(1, 3) ? 64 * rng(0, 3) : rng(0, n + 3); pend("shift", n, s); if (rng.coin(1, 2)) { if (v) x <<= s; else x = x << s; ev("shl", h, s); } else { if (v) x >>= s; else x = x >> s; ev("shr", h, s); } break; }
            case 17: x = ~x; ev("not", h); break;
            case 18: if (rng.coin(1, 3)) { x = y; ev("copy", h); } break;
            case 19: if (same) { ev("cmp", h, std::make_tuple(x == y, x != y, x < y, x <= y, x > y, x >= y)); } else ev("eq", h, x == y); break;
            case 20: ev("bool", h, bool(x)); break;
            case 21: case 22: pend("stat"); ev("stat", h, std::make_tuple(x.all(), x.none(), x.any(), x.empty()), VI{x.count(), x.find_first(), x.size()}); break;
            case 23: if (n) { pend("next", k); ev("next", h, k, x.find_next(k)); } break;
            case 24: pend("inter"); ev("inter", h, x.has_intersection(y), x.is_disjoint(y)); break;
            default: { VI d(n); const auto& c = x; for (int j = 0; j < n; ++j) { bool t = rng.coin(1, 2) ? bool(x[j]) : rng.coin(1, 2) ? x[j].test() : c[j]; d[j] = t; } ev("dump", h, d); }
        }
    }
    finish();
}
template <size_t N> void statbits(int len) {
    begin("bits", VI(N, 0), VI(N, 0)); static_bitset<N> b[2];
    for (int i = 0; i < len; ++i) {
        int h = rng(0, 1), n = N; bool v = rng.coin(1, 2); auto [l, r] = rg(n); auto& x = b[h]; auto& y = b[1 - h]; int k = rng(0, n - 1);
        switch (rng(0, 13)) {
            case 0: x.set(k, v); ev("put", h, k, v); break;
            case 1: x.flip(k); ev("flip", h, k); break;
            case 2: case 3: pend("rset", l, r); x.range_set(l, r, v); ev("rput", h, l, r, v); break;
            case 4: if (rng.coin(1, 3)) { x.clear(); ev("all", h, false); } break;
            case 5: switch (rng(0, 2)) { case 0: if (v) x &= y; else x = x & y; ev("and", h); break; case 1: if (v) x |= y; else x = x | y; ev("or", h); break; default: if (v) x ^= y; else x = x ^ y; ev("xor", h); } break;
            case 6: case 7: { int s = rng.coin(1, 3) ? 64 * rng(0, 3) : rng(0, n + 3); pend("shift", s); if (rng.coin(1, 2)) { if (v) x <<= s; else x = x << s; ev("shl", h, s); } else { if (v) x >>= s; else x = x >> s; ev("shr", h, s); } break; }
            case 8: x = ~x; ev("not", h); break;
            case 9: if (rng.coin(1, 3)) { if (v) x = y; else x = static_bitset<N>(y.data()); ev("copy", h); } break;
            case 10: ev("cmp", h, std::make_tuple(x == y, x != y, x < y, x <= y, x > y, x >= y)); break;
            case 11: ev("bool", h, bool(x)); break;
            case 12: { std::ostringstream o; o << x; ev("str", h, o.str()); break; }
            default: { VI d(n); for (int j = 0; j < n; ++j) d[j] = x[j]; ev("dump", h, d); }
        }
    }
    finish();
}
void bitvec(int n) {
    VI a(n); int den = rng.pick(*new VI{1, 2, 2, 3, 9, 50}); for (auto& x : a) x = rng.coin(1, den); if (rng.coin(1, 6)) for (auto& x : a) x = 0;
    begin("bv", a); BitVector b; if (rng.coin(1, 2)) b = BitVector(n, [&](int i) -> bool { return a[i]; }); else { BitVector c(n); c.build([&](int i) { return bool(a[i]); }); if (rng.coin(1, 2)) b = c; else b = std::move(c); }
    for (int t = 0; t < 60; ++t) { bool v = rng.coin(1, 2); int l = rng(0, n), r = rng(0, n); if (l > r) std::swap(l, r); if (rng.coin(1, 3)) r = std::min(n, r / 8 * 8); if (rng.coin(1, 4)) r = std::min(n, (r + 128) / 256 * 256); if (l > r) l = r;
        switch (rng(0, 3)) {
            case 0: if (n) { int i = rng(0, n - 1); pend("acc", i); ev("acc", i, rng.coin(1, 2) ? b[i] : b.access(i)); } break;
            case 1: pend("rank", v, r); ev("rank", v, r, b.rank(v, r)); break;
            case 2: pend("rank", v, l, r); ev("rank2", v, l, r, b.rank(v, l, r)); break;
            default: { int tot = b.rank(v, n), k = rng.coin(1, 6) ? tot + rng(0, 2) : rng(1, std::max(1, tot)); int d = rng(-3, -1); pend("sel", v, k); ev("sel", v, k, d, b.select(v, k, d)); } } }
    finish();
}
template <class T> W ww(T x) { return std::is_signed_v<T> ? wide((ll)x) : uwide((ull)x); }
template <class M, class T, bool XOR> void wavq(const M& m, const std::vector<T>& a, std::function<T()> val, std::function<T()> any, int q) {
    int n = a.size();
    for (int t = 0; t < q; ++t) {
        auto [l, r] = rg(n); T x = XOR && rng.coin(2, 3) ? val() : T(0), u = n && rng.coin(1, 2) ? a[rng(0, n - 1)] : any(), lo = n && rng.coin(1, 2) ? a[rng(0, n - 1)] : any(); if (XOR && rng.coin(1, 2)) { u ^= x; lo ^= x; }
        int k = rng.coin(1, 5) ? rng(-1, r - l + 1) : r > l ? rng(0, r - l - 1) : 0; T d = T(rng(0, 1) ? T(-1) : rng.coin(1, 2) ? T(7) : T(~(~(ull)0 << (sizeof(T) * 8 - 2)))); bool xr = XOR && (x != 0 || rng.coin(1, 2)); bool dd = d == T(-1) && rng.coin(1, 2);
        switch (rng(0, 9)) {
            case 0: if (n) { int i = rng(0, n - 1); pend("acc", i); ev("acc", i, ww(rng.coin(1, 2) ? m[i] : m.access(i))); } break;
            case 1: { T v = n && rng.coin(2, 3) ? a[rng(0, n - 1)] : val(); pend("rank", ww(v), r); ev("rank", ww(v), r, m.rank(v, r)); break; }
#define Q(OP, NAME, ...) { T got; pend(OP, l, r, ww(x), ww(u)); if constexpr (XOR) { got = xr ? m.range_xor_##NAME : m.range_##NAME; } else got = m.range_##NAME; }
            case 2: { T g; pend("ks", l, r, k, ww(x)); if constexpr (XOR) g = xr ? (dd ? m.range_xor_kth_smallest(l, r, k, x) : m.range_xor_kth_smallest(l, r, k, x, d)) : dd ? m.range_kth_smallest(l, r, k) : m.range_kth_smallest(l, r, k, d); else g = dd ? m.range_kth_smallest(l, r, k) : m.range_kth_smallest(l, r, k, d); ev("ks", l, r, k, ww(x), ww(d), ww(g)); break; }
            case 3: { T g; pend("kl", l, r, k, ww(x)); if constexpr (XOR) g = xr ? (dd ? m.range_xor_kth_largest(l, r, k, x) : m.range_xor_kth_largest(l, r, k, x, d)) : (dd ? m.range_kth_largest(l, r, k) : m.range_kth_largest(l, r, k, d)); else g = (dd ? m.range_kth_largest(l, r, k) : m.range_kth_largest(l, r, k, d)); ev("kl", l, r, k, ww(x), ww(d), ww(g)); break; }
            case 4: if (l < r) { T g, h; pend("minmax", l, r, ww(x)); if constexpr (XOR) g = xr ? m.range_xor_min(l, r, x) : m.range_min(l, r), h = xr ? m.range_xor_max(l, r, x) : m.range_max(l, r); else g = m.range_min(l, r), h = m.range_max(l, r); ev("ks", l, r, 0, ww(x), ww(d), ww(g)); ev("kl", l, r, 0, ww(x), ww(d), ww(h)); } break;
            case 5: { int g, h; pend("freq", l, r, ww(x), ww(u), ww(lo)); if constexpr (XOR) g = xr ? m.range_xor_freq(l, r, x, u) : m.range_freq(l, r, u), h = xr ? m.range_xor_freq(l, r, x, lo, u) : m.range_freq(l, r, lo, u); else g = m.range_freq(l, r, u), h = m.range_freq(l, r, lo, u); ev("f1", l, r, ww(x), ww(u), g); ev("f2", l, r, ww(x), ww(lo), ww(u), h); break; }
            case 6: { T g; pend("ge", l, r, ww(x), ww(u)); if constexpr (XOR) g = xr ? (dd ? m.range_xor_min_geq(l, r, x, u) : m.range_xor_min_geq(l, r, x, u, d)) : (dd ? m.range_min_geq(l, r, u) : m.range_min_geq(l, r, u, d)); else g = (dd ? m.range_min_geq(l, r, u) : m.range_min_geq(l, r, u, d)); ev("ge", l, r, ww(x), ww(u), ww(d), ww(g)); break; }
            case 7: { T g; pend("gt", l, r, ww(x), ww(u)); if constexpr (XOR) g = xr ? (dd ? m.range_xor_min_gt(l, r, x, u) : m.range_xor_min_gt(l, r, x, u, d)) : (dd ? m.range_min_gt(l, r, u) : m.range_min_gt(l, r, u, d)); else g = (dd ? m.range_min_gt(l, r, u) : m.range_min_gt(l, r, u, d)); ev("gt", l, r, ww(x), ww(u), ww(d), ww(g)); break; }
            case 8: { T g; pend("lt", l, r, ww(x), ww(u)); if constexpr (XOR) g = xr ? (dd ? m.range_xor_max_lt(l, r, x, u) : m.range_xor_max_lt(l, r, x, u, d)) : (dd ? m.range_max_lt(l, r, u) : m.range_max_lt(l, r, u, d)); else g = (dd ? m.range_max_lt(l, r, u) : m.range_max_lt(l, r, u, d)); ev("lt", l, r, ww(x), ww(u), ww(d), ww(g)); break; }
            default: { T g; pend("le", l, r, ww(x), ww(u)); if constexpr (XOR) g = xr ? (dd ? m.range_xor_max_leq(l, r, x, u) : m.range_xor_max_leq(l, r, x, u, d)) : (dd ? m.range_max_leq(l, r, u) : m.range_max_leq(l, r, u, d)); else g = (dd ? m.range_max_leq(l, r, u) : m.range_max_leq(l, r, u, d)); ev("le", l, r, ww(x), ww(u), ww(d), ww(g)); }
        }
    }
}
template <class T> VW wv(const std::vector<T>& a) { VW r; for (T x : a) r.push_back(ww(x)); return r; }
template <class T, int B> void wavelet(int n, int q) {
    const int D = std::numeric_limits<T>::digits; const T mx = B >= D ? std::numeric_limits<T>::max() : T((T(1) << (B < D ? B : 0)) - 1); int mode = rng(0, 3);
    auto val = [&]() -> T { T x = T(rng.next()) & mx; if (mode == 0) x &= 3; if (mode == 1 && rng.coin(1, 3)) x = mx - (x & 3); return x; };
    auto any = [&]() -> T { return rng.coin(1, 8) ? mx : rng.coin(1, 8) && mx < std::numeric_limits<T>::max() - 5 ? T(mx + rng(1, 5)) : val(); };
    std::vector<T> a(n); for (auto& x : a) x = val();
    begin("wav", wv(a)); pend("build"); WaveletMatrix<T, B> m = rng.coin(1, 2) ? WaveletMatrix<T, B>(a) : WaveletMatrix<T, B>(n, [&](int i) { return a[i]; });
    wavq<WaveletMatrix<T, B>, T, true>(m, a, val, any, q); finish();
}
template <class T, class M> void cwavelet(int n, int q, ll s) {
    auto val = [&]() -> T { return T(rng(-s, s)); }; auto any = [&]() -> T { return rng.coin(1, 12) ? std::numeric_limits<T>::max() : rng.coin(1, 12) ? std::numeric_limits<T>::min() : val(); };
    std::vector<T> a(n); for (auto& x : a) x = val(); if (n && rng.coin(1, 5)) a[0] = std::numeric_limits<T>::max(); if (n && rng.coin(1, 5)) a[n - 1] = std::numeric_limits<T>::min();
    begin("wav", wv(a)); pend("build"); M m = rng.coin(1, 2) ? M(a) : M(n, [&](int i) { return a[i]; }); wavq<M, T, false>(m, a, val, any, q); finish();
}
template <class T, int B> void trie(int len) {
    typedef std::make_unsigned_t<T> U; U mx = B >= std::numeric_limits<U>::digits ? U(-1) : U((U(1) << (B % std::numeric_limits<U>::digits)) - 1); int mode = rng(0, 2);
    std::vector<U> pool(rng(1, 12)); auto fresh = [&]() -> U { U x = U(rng.next()) & mx; if (mode == 0) x &= 7; if (mode == 1) x |= mx - (mx >> 2 & mx); return x & mx; }; for (auto& x : pool) x = fresh();
    begin("trie", VI{}); cur = "{\"k\":\"trie\",\"p\":[],\"ev\":["; BinaryTrie<T, B> t;
    for (int i = 0; i < len; ++i) {
        U v = rng.coin(1, 2) ? rng.pick(pool) : fresh(), x = rng.coin(1, 3) ? 0 : fresh(), w = rng.coin(1, 2) ? U(rng.pick(pool) ^ x) : fresh(); int n = t.size();
        switch (rng(0, 11)) {
            case 0: case 1: case 2: { int c = rng.coin(1, 3) ? rng(0, 3) : 1; int g = c == 1 && rng.coin(1, 2) ? t.insert(v) : t.insert(v, c); ev("ins", uwide(v), c, g); break; }
            case 3: { int c = rng.coin(1, 3) ? rng(0, 3) : 1; pend("era"); ev("era", uwide(v), c, t.erase(v, c)); break; }
            case 4: if (rng.coin(1, 2)) { pend("eraall"); ev("era", uwide(v), 1000000, t.erase_all(v)); } break;
            case 5: ev("size", n, t.empty()); ev("cnt", uwide(v), t.count(v), t.contains(v)); break;
            case 6: { int l = rng(0, B); pend("pre", l); ev("pre", uwide(v), l, t.prefix_count(v, l)); break; }
            case 7: if (n) { int k = rng(0, n - 1); pend("kmin"); if (rng.coin(1, 3)) ev("kmin", 0, k, uwide(t.kth_min(k))); else ev("kmin", uwide(x), k, uwide(t.xor_kth_min(x, k))); } break;
            case 8: if (n) { int k = rng(0, n - 1); pend("kmax"); ev("kmax", uwide(x), k, uwide(t.xor_kth_max(x, k))); } break;
            case 9: if (n) { pend("minmax"); ev("kmin", 0, 0, uwide(t.min())); ev("kmax", 0, 0, uwide(t.max())); ev("kmin", uwide(x), 0, uwide(t.xor_min(x))); ev("kmax", uwide(x), 0, uwide(t.xor_max(x))); } break;
            case 10: { pend("cnts"); if (x == 0 && rng.coin(1, 2)) ev("cnts", 0, uwide(w), VI{t.count_lt(w), t.count_leq(w), t.count_gt(w), t.count_geq(w)}); else ev("cnts", uwide(x), uwide(w), VI{t.xor_count_lt(x, w), t.xor_count_leq(x, w), t.xor_count_gt(x, w), t.xor_count_geq(x, w)}); break; }
            default: { pend("near"); U d1 = U(0) & mx, d2 = mx; // two different defaults tell a real answer from a default
                auto two = [&](U a, U b) { return a == d1 && b == d2 && d1 != d2 ? W{"none"} : a != b ? W{"-7"} : uwide(a); };
                bool z = x == 0 && rng.coin(1, 2);
                VW r{z ? two(t.lower(w, d1), t.lower(w, d2)) : two(t.xor_lower(x, w, d1), t.xor_lower(x, w, d2)), z ? two(t.floor(w, d1), t.floor(w, d2)) : two(t.xor_floor(x, w, d1), t.xor_floor(x, w, d2)),
                     z ? two(t.ceil(w, d1), t.ceil(w, d2)) : two(t.xor_ceil(x, w, d1), t.xor_ceil(x, w, d2)), z ? two(t.higher(w, d1), t.higher(w, d2)) : two(t.xor_higher(x, w, d1), t.xor_higher(x, w, d2))};
                ev("near", uwide(x), uwide(w), r); }
        }
    }
    finish();
}
template <class T, uint32_t B> void patricia(int len) {
    typedef std::make_unsigned_t<T> U; U mx = B >= std::numeric_limits<U>::digits ? U(-1) : U((U(1) << (B % std::numeric_limits<U>::digits)) - 1); int mode = rng(0, 3);
    std::vector<U> pool(rng(1, 12)); auto fresh = [&]() -> U { U x = U(rng.next()) & mx; if (mode == 0) x &= 7; if (mode == 1) x |= mx - (mx >> 2 & mx); return x & mx; }; for (auto& x : pool) x = fresh();
    begin("trie", VI{}); cur = "{\"k\":\"trie\",\"p\":[],\"ev\":["; BinaryTriePatricia<T, B> t;
    for (int i = 0; i < len; ++i) {
        U v = rng.coin(1, 2) ? rng.pick(pool) : fresh(), x = rng.coin(1, 3) ? 0 : fresh(), w = rng.coin(1, 2) ? U(rng.pick(pool) ^ x) : fresh(); if (rng.coin(1, 20)) w = U(-1); int n = t.size();
        auto uw = [&](T y) { return uwide((U)y); }; auto ow = [&](std::optional<T> o) { return o ? uwide((U)*o) : W{"none"}; };
        switch (rng(0, 12)) {
            case 0: case 1: { int c = rng.coin(1, 3) ? rng(1, 3) : 1; pend("ins"); if (c == 1) t.insert(v); else t.insert(v, c); ev("insv", uwide(v), c); break; }
            case 2: pend("insabs"); ev("insabs", uwide(v), t.insert_if_absent(v)); break;
            case 3: case 4: { int c = rng.coin(1, 3) ? rng(0, 3) : 1; pend("era", uwide(v), c); int g = c == 1 && rng.coin(1, 2) ? t.erase(v) : t.erase(v, c); ev("era", uwide(v), c, g); break; }
            case 5: if (rng.coin(1, 8)) { t.clear(); ev("clear"); } else if (rng.coin(1, 3)) { pend("eraall"); ev("era", uwide(v), 1000000, t.erase(v, 1000000)); } break;
            case 6: pend("cnt", uwide(v)); ev("size", n, t.empty()); ev("cnt", uwide(v), t.count(v), t.contains(v)); break;
            case 7: if (n) { int k = rng(0, n - 1); pend("kmin"); if (rng.coin(1, 3)) ev("kmin", 0, k, uw(t.kth_min(k))); else ev("kmin", uwide(x), k, uw(t.xor_kth_min(x, k))); } break;
            case 8: if (n) { int k = rng(0, n - 1); pend("kmax"); if (rng.coin(1, 3)) ev("kmax", 0, k, uw(t.kth_max(k))); else ev("kmax", uwide(x), k, uw(t.xor_kth_max(x, k))); } break;
            case 9: if (n) { pend("minmax"); ev("kmin", uwide(x), 0, uw(t.xor_min(x))); ev("kmax", uwide(x), 0, uw(t.xor_max(x))); } break;
            case 10: { pend("cnts", uwide(x), uwide(w)); if (x == 0 && rng.coin(1, 2)) ev("cnts", 0, uwide(w), VI{t.count_lt(w), t.count_leq(w), t.count_gt(w), t.count_geq(w)}); else ev("cnts", uwide(x), uwide(w), VI{t.xor_count_lt(x, w), t.xor_count_leq(x, w), t.xor_count_gt(x, w), t.xor_count_geq(x, w)}); break; }
            default: { pend("near", uwide(x), uwide(w)); VW r; bool z = x == 0 && rng.coin(1, 2);
                if (z) r = {ow(t.safe_max_lt(w)), ow(t.safe_max_leq(w)), ow(t.safe_min_geq(w)), ow(t.safe_min_gt(w))}; else r = {ow(t.safe_xor_max_lt(x, w)), ow(t.safe_xor_max_leq(x, w)), ow(t.safe_xor_min_geq(x, w)), ow(t.safe_xor_min_gt(x, w))};
                if (rng.coin(1, 2)) { if (r[0].s != "none") r[0] = uw(z ? t.max_lt(w) : t.xor_max_lt(x, w)); if (r[1].s != "none") r[1] = uw(z ? t.max_leq(w) : t.xor_max_leq(x, w)); if (r[2].s != "none") r[2] = uw(z ? t.min_geq(w) : t.xor_min_geq(x, w)); if (r[3].s != "none") r[3] = uw(z ? t.min_gt(w) : t.xor_min_gt(x, w)); }
                ev("near", uwide(x), uwide(w), r); }
        }
    }
    finish();
}
template <class T> void words(int q) {
    typedef std::make_unsigned_t<T> U; const int w = std::numeric_limits<U>::digits; begin("word", 0);
    for (int i = 0; i < q; ++i) {
        U u = U(rng.next()); if (rng.coin(1, 2)) u >>= rng(0, w - 1); if (rng.coin(1, 8)) u = U(U(1) << rng(0, w - 1)); if (rng.coin(1, 20)) u = 0; T x = T(u);
        ev("bits", w, uwide(u), VI{popcount(x), count_lz(x), count_tz(x), parity(x)});
        if (x > 0) ev("log", w, uwide(u), VI{floor_log2(x), ceil_log2(x)});
        int k = rng(0, w - 1); ev("kbit", uwide(u), k, kth_bit(x, k));
    }
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int t = 0; t < reps(200); ++t) { dynbits(rng(5, 60)); }
    for (int t = 0; t < reps(20); ++t) { statbits<1>(20); statbits<63>(40); statbits<64>(40); statbits<65>(40); statbits<128>(40); statbits<100>(40); statbits<200>(40); }
    for (int t = 0; t < reps(60); ++t) bitvec(rng.coin(1, 3) ? 8 * rng(0, 8) : rng.coin(1, 3) ? 256 * rng(0, 3) + rng(0, 1) : rng(0, 700));
    for (int t = 0; t < reps(25); ++t) {
        int n = t % 12 == 11 ? rng(200, 560) : rng(0, rng.coin(1, 2) ? 5 : 40), q = 40;
        wavelet<int, 3>(n, q); wavelet<int, 20>(n, q); wavelet<int, 31>(n, q); wavelet<int, 32>(n, q); wavelet<unsigned, 32>(n, q); wavelet<ll, 63>(n, q); wavelet<ull, 64>(n, q); wavelet<unsigned char, 8>(n, q);
        cwavelet<int, CompressedWaveletMatrix<int>>(n, q, 5); cwavelet<int, CompressedWaveletMatrix<int, 6>>(std::min(n, 64), q, 1000000000); cwavelet<ll, CompressedWaveletMatrix<ll, 8>>(std::min(n, 256), q, 1000000000000000000LL);
    }
    for (int t = 0; t < reps(40); ++t) {
        int q = rng(5, 70); trie<int, 32>(q); trie<unsigned, 20>(q); trie<ll, 64>(q); trie<int, 3>(q); trie<ull, 40>(q);
        patricia<int, 30>(q); patricia<unsigned, 32>(q); patricia<ll, 60>(q); patricia<ull, 64>(q); patricia<int, 3>(q); patricia<int, 7>(q); patricia<ll, 33>(q); patricia<int, 32>(q); patricia<ll, 64>(q); patricia<int, 1>(q);
    }
    for (int t = 0; t < reps(1); ++t) { words<int>(200); words<unsigned>(200); words<ll>(200); words<ull>(200); words<short>(200); words<unsigned char>(200); words<signed char>(200); words<unsigned short>(200); }
}
