// Polynomials and power series: what the two fast classes have in common.
#include "vt.hpp"
using namespace vt; namespace S = suisen;
typedef std::vector<int> VI; typedef std::vector<ll> VL; typedef std::vector<VL> VVL;
template <class V> VL o(const V& f) { VL r; for (auto& x : f) r.push_back(x.val()); return r; }
template <class M> M rv() { return rng.coin(1, 6) ? M(0) : rng.coin(1, 8) ? M(-1) : rng.coin(1, 4) ? M(rng(1, 3)) : M((ll)(rng.next() % M::mod())); }
template <class M> M nz() { for (;;) { M x = rv<M>(); if (x.val()) return x; } }
// style 0 dense, 1 sparse (at most nzc nonzero), 2 all zero
template <class F> F rp(int n, int style = 0, int nzc = 6) { typedef typename F::value_type M; F f(n); if (style == 0) for (auto& x : f) x = rv<M>(); if (style == 1) for (int t = 0; t < nzc && n; ++t) f[rng(0, n - 1)] = rv<M>(); return f; }
inline int len(int lo) { switch (rng(0, 5)) { case 0: return std::max<int>(lo, rng(0, 4)); case 1: return rng(58, 63); case 2: return rng(64, 90); default: return std::max<int>(lo, rng(1, 20)); } }
template <class M> std::vector<VL> opt(const M& r) { std::vector<VL> q; if (r) q.push_back(o(*r)); return q; }
template <class F> void lead(F& f, int z) { for (int i = 0; i < z && i < (int)f.size(); ++i) f[i] = 0; }

template <class F> void ring(std::string nm) {
    typedef typename F::value_type M; begin("poly", (ll)M::mod()); pend(nm);
    for (int t = 0; t < 3; ++t) {
        F f = rp<F>(len(0)), g = rp<F>(len(0)); const F &cf = f;
        ev("add", o(f), o(g), o(f + g)); ev("sub", o(f), o(g), o(f - g)); pend("mul"); ev("mul", o(f), o(g), o(f * g)); { F h = f; h += g; ev("add", o(f), o(g), o(h)); h = f; h -= g; ev("sub", o(f), o(g), o(h)); h = f; h *= g; ev("mul", o(f), o(g), o(h)); }
        ev("sub", VL(), o(f), o(-f)); ev("same", o(f), o(+f)); M c = nz<M>(); ev("scale", o(f), c.val(), o(f * c)); ev("scale", o(f), c.val(), o(c * f)); ev("scale", o(f), c.inv().val(), o(f / c)); { F h = f; h /= c; h *= c; ev("same", o(f), o(h)); }
        VL C{ c.val() }, one{ 1 }; ev("add", o(f), C, o(f + c)); ev("add", o(f), C, o(c + f)); ev("sub", o(f), C, o(f - c)); ev("sub", C, o(f), o(c - f)); { F h = f; ++h; ev("add", o(f), one, o(h)); --h; ev("same", o(f), o(h)); F k = h++; ev("same", o(f), o(k)); ev("add", o(f), one, o(h)); k = h--; ev("add", o(f), one, o(k)); ev("same", o(f), o(h)); }
        int s = rng(0, f.size() + 3); ev("shl", o(f), s, o(f << s)); ev("shr", o(f), s, o(f >> s)); ev("fit", o(f), s, o(cf.cut_copy(s))); { int a = rng(0, f.size() + 2), b = a + rng(0, 6); F h = cf.cut_copy(a, b); h >>= 0; ev("fit", o(f >> a), b - a, o(h)); } { F h = f; h.cut(s); ev("fit", o(f), std::min<int>(s, f.size()), o(h)); } ev("co", o(f), s, cf.safe_get(s).val()); { F h = f; M& x = h.safe_get(s); ev("co", o(f), s, x.val()); ev("fit", o(f), std::max<int>(s + 1, f.size()), o(h)); }
        { F h = f; int k = rng(0, 3); for (int i = 0; i < k && i < h.size(); ++i) h[h.size() - 1 - i] = 0; VL b = o(h); ev("eq", o(h), o(h.cut_copy(h.size() + 2)), h == h.cut_copy(h.size() + 2), h != h.cut_copy(h.size() + 2)); ev("eq", o(f), o(h), f == h, f != h); ev("eq", o(h), o(f >> 1), h == (f >> 1), h != (f >> 1)); h.cut_trailing_zeros(); ev("trim", b, o(h)); }
        ev("diff", o(f), o(f.diff())); pend("intg"); ev("intg", o(f), o(f.intg())); { F h = f; h.diff_inplace(); ev("diff", o(f), o(h)); h = f; h.intg_inplace(); ev("intg", o(f), o(h)); } M x = rv<M>(); ev("eval", o(f), x.val(), f.eval(x).val());
        F d = rp<F>(1 + rng(0, rng.coin(1, 2) ? 5 : 70)); if (rng.coin(1, 3)) d[d.size() - 1] = 0; if (d == F{}) d[rng(0, d.size() - 1)] = 1; F a = rng.coin(1, 6) ? F(f * d) : f; if (rng.coin(1, 5)) for (int k = 0; k < 3; ++k) a.push_back(0);
        pend("divmod", o(a), o(d)); auto [q, r] = a.div_mod(d); ev("divmod", o(a), o(d), o(q), o(r)); ev("divmod", o(a), o(d), o(a / d), o(a % d)); { F h = a, k = a; h /= d; k %= d; ev("divmod", o(a), o(d), o(h), o(k)); }
        std::vector<F> fs; int k = rng(0, 5); VVL w; for (int i = 0; i < k; ++i) { fs.push_back(rp<F>(rng(1, 6))); w.push_back(o(fs.back())); } pend("prod", k); ev("prod", w, o(F::prod(fs)));
    }
    finish();
}
// n: number of terms; the length of f is independent of it
template <class F> void series(std::string nm, int which) {
    typedef typename F::value_type M; begin("poly", (ll)M::mod()); pend(nm); static const int ns[] = { 1, 2, 3, 7, 31, 58, 59, 60, 61, 64, 65, 90, 127, 129 };
    for (int t = 0; t < 4; ++t) {
        int n = ns[rng(0, 13)], style = rng.coin(1, 3); F f = rp<F>(rng.coin(1, 3) ? n : 1 + rng(0, 2) * n / 2 + rng(0, 3), style, rng(1, 17)); bool dflt = (int)f.size() == n && rng.coin(1, 2);
        if (which == 0) { f[0] = nz<M>(); pend("inv", n, o(f)); F g = f; if (dflt) g.inv_inplace(); else g.inv_inplace(n); ev("inv", o(f), n, o(g)); ev("inv", o(f), n, o(f.inv(n))); if (dflt) ev("inv", o(f), n, o(::inv(f))); }
        if (which == 1) { f[0] = 1; pend("log", n, o(f)); F g = f; if (dflt) g.log_inplace(); else g.log_inplace(n); ev("log", o(f), n, o(g)); if (dflt) ev("log", o(f), n, o(::log(f))); else ev("log", o(f), n, o(f.log(n))); }
        if (which == 2) { f[0] = 0; pend("exp", n, o(f)); F g = f; if (dflt) g.exp_inplace(); else g.exp_inplace(n); ev("exp", o(f), n, o(g)); if (dflt) ev("exp", o(f), n, o(::exp(f))); else { F h = f; ev("exp", o(f), n, o(h.exp(n))); } }
        if (which == 3) { if (rng.coin(1, 3)) lead(f, rng(0, 5)); if (rng.coin(1, 4)) lead(f, rng(0, f.size())); ll k = rng.coin(1, 4) ? rng(0, 2) : rng.coin(1, 2) ? rng(2, 30) : rng.coin(1, 2) ? (ll)1e18 - rng(0, 5) : (ll)M::mod() * rng(1, 3) + rng(-1, 1); pend("pow", n, o(f), k); F g = f; if (dflt) g.pow_inplace(k); else g.pow_inplace(k, n); ev("pow", o(f), wide(k), n, o(g)); if (dflt) ev("pow", o(f), wide(k), n, o(::pow(f, k))); else ev("pow", o(f), wide(k), n, o(f.pow(k, n))); }
        if (which == 4) { if (rng.coin(1, 3)) lead(f, rng(0, 5)); if (rng.coin(1, 4)) lead(f, rng(0, f.size())); if (rng.coin(2, 3)) { int z = 0; while (z < f.size() && f[z] == 0) ++z; if (z < f.size()) { M x = nz<M>(); f[z] = x * x; } } pend("sqrt", n, o(f)); auto r = dflt ? f.safe_sqrt() : f.safe_sqrt(n); ev("sqrt", o(f), n, opt(r)); if (r) { F g = f; g.sqrt_inplace(n); ev("sqrt", o(f), n, VVL{ o(g) }); ev("sqrt", o(f), n, VVL{ o(f.sqrt(n)) }); if (dflt) ev("sqrt", o(f), n, VVL{ o(::sqrt(f)) }); } }
    }
    finish();
}
// a dense series with many leading zeros, so that the fast sqrt / pow paths see them
template <class F> void leading(std::string nm) {
    typedef typename F::value_type M; begin("poly", (ll)M::mod()); pend(nm); int n = rng(60, 80); F f = rp<F>(n * 2 + rng(0, 9)); for (auto& x : f) x = nz<M>(); int z = rng.coin(1, 2) ? 2 * rng(0, 6) : rng.coin(1, 2) ? 2 * n + rng(-2, 2) : rng(1, n); lead(f, z); if (z < f.size()) f[z] = M(9); pend("sqrt", n, o(f)); ev("sqrt", o(f), n, opt(f.safe_sqrt(n))); ll k = rng(1, 4); lead(f, z = rng(0, 30)); if (z < f.size()) f[z] = M(5); pend("pow", k, n, o(f)); ev("pow", o(f), wide(k), n, o(f.pow(k, n))); finish();
}
