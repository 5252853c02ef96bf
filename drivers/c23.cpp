// Polynomials without the AtCoder library: FPS with a user-supplied product, the naive classes, interpolation and friends.
#include "library/number/modint.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/berlekamp_massey.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/convert_to_newton_basis.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/lagrange_interpolation.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/polynomial/rook_polynomial.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "c23.hpp"
using mint = S::modint998244353; using fps = S::FPS<mint>; using fpn = S::FPSNaive<mint>; using p1 = S::modint1000000007; using fps7 = S::FPS<p1>;
template <class M> std::vector<M> conv(const std::vector<M>& a, const std::vector<M>& b) { if (a.empty() || b.empty()) return {}; std::vector<M> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }

void naive() {
    begin("poly", (ll)mint::mod());
    for (int t = 0; t < 3; ++t) {
        fpn f = rp<fpn>(rng(0, 12)), g = rp<fpn>(rng(0, 12)); const fpn& cf = f; ev("add", o(f), o(g), o(f + g)); ev("sub", o(f), o(g), o(f - g)); ev("mul", o(f), o(g), o(f * g)); int n = rng(0, 20); ev("muln", o(f), o(g), n, o(f.mul(g, n))); ev("muln", o(f), o(g), (int)f.size(), o(f.mul(g))); ev("sub", VL(), o(f), o(-f)); ev("same", o(f), o(+f)); mint c = nz<mint>(); VL C{ c.val() }; ev("scale", o(f), c.val(), o(f * c)); ev("scale", o(f), c.val(), o(c * f)); ev("add", o(f), C, o(f + c)); ev("sub", o(f), C, o(f - c)); { fpn h = f; ++h; ev("add", o(f), VL{ 1 }, o(h)); --h; ev("same", o(f), o(h)); h *= g; ev("mul", o(f), o(g), o(h)); }
        int s = rng(0, f.size() + 3); ev("shl", o(f), s, o(f << s)); ev("shr", o(f), s, o(f >> s)); ev("fit", o(f), std::min<int>(s, f.size()), o(f.cut(s))); ev("co", o(f), s, cf[s].val()); { fpn h = f; h[s] += 0; ev("fit", o(f), std::max<int>(s + 1, f.size()), o(h)); } { fpn h = f; for (int i = 0; i < 2 && i < h.size(); ++i) h[h.size() - 1 - i] = 0; VL b = o(h); ev("eq", o(f), o(h), f == h, f != h); fpn k = h; int d = h.normalize(); ev("trim", b, o(h)); ev("eq", o(h), b, h == k, h != k); ev("co", VL{ d + 1 }, 0, (ll)h.size()); }
        ev("diff", o(f), o(f.diff())); ev("intg", o(f), o(f.intg())); mint x = rv<mint>(); ev("eval", o(f), x.val(), f.eval(x).val()); fpn d = rp<fpn>(rng(1, 6)); if (d == fpn{}) d[0] = 2; pend("divmod", o(f), o(d)); auto [q, r] = f.div_mod(d); ev("divmod", o(f), o(d), o(q), o(r)); ev("divmod", o(f), o(d), o(f / d), o(f % d)); { fpn h = f, k = f; h /= d; k %= d; ev("divmod", o(f), o(d), o(h), o(k)); h = f; h += g; h -= f; ev("eq", o(h), o(g), h == g, h != g); h = f; h += c; h -= c; ev("eq", o(h), o(f), h == f, h != f); h *= c; ev("scale", o(f), c.val(), o(h)); h = f; h <<= s; ev("shl", o(f), s, o(h)); h = f; h >>= s; ev("shr", o(f), s, o(h)); }
        n = rng(1, 16); fpn a = rp<fpn>(rng(1, 14)); a[0] = nz<mint>(); ev("inv", o(a), n, o(a.inv(n))); ev("inv", o(a), (int)a.size(), o(::inv(a))); a[0] = 1; ev("log", o(a), n, o(a.log(n))); ev("log", o(a), (int)a.size(), o(::log(a))); a[0] = 0; ev("exp", o(a), n, o(a.exp(n))); ev("exp", o(a), (int)a.size(), o(::exp(a)));
        ll k = rng.coin(1, 2) ? rng(0, 4) : (ll)1e17 + rng(0, 3); lead(a, rng.coin(1, 2) ? 0 : rng(0, a.size())); a[rng(0, a.size() - 1)] = nz<mint>(); ev("pow", o(a), wide(k), n, o(a.pow(k, n))); ev("pow", o(a), wide(k), (int)a.size(), o(::pow(a, k))); { int z = 0; while (z < a.size() && a[z] == 0) ++z; if (rng.coin(2, 3) && z < a.size()) a[z] = a[z] * a[z]; } pend("sqrt", o(a), n); ev("sqrt", o(a), n, opt(a.safe_sqrt(n))); auto r2 = a.safe_sqrt(); ev("sqrt", o(a), (int)a.size(), opt(r2)); if (r2) { ev("sqrt", o(a), (int)a.size(), VVL{ o(a.sqrt()) }); ev("sqrt", o(a), (int)a.size(), VVL{ o(::sqrt(a)) }); }
    }
    finish();
}
template <size_t N> void arr() {
    using A = S::ArrayFPSNaive<mint, N>; begin("poly", (ll)mint::mod()); auto R = [] { A a; for (auto& x : a) x = rv<mint>(); return a; };
    for (int t = 0; t < 3; ++t) {
        A f = R(), g = R(); const int n = N; ev("add", o(f), o(g), o(f + g)); ev("sub", o(f), o(g), o(f - g)); ev("muln", o(f), o(g), n, o(f * g)); ev("muln", o(f), o(g), n, o(f.mul(g))); ev("sub", VL(), o(f), o(-f)); ev("same", o(f), o(+f)); mint c = nz<mint>(); VL C{ c.val() }; ev("scale", o(f), c.val(), o(f * c)); ev("scale", o(f), c.val(), o(c * f)); ev("add", o(f), C, o(f + c)); ev("sub", o(f), C, o(f - c)); { A h = f; ++h; ev("add", o(f), VL{ 1 }, o(h)); --h; ev("same", o(f), o(h)); h *= g; ev("muln", o(f), o(g), n, o(h)); }
        for (int s : { 0, 1, (int)rng(0, N + 2) }) { VL u(std::min<int>(s, N), 0), q = o(f); for (int i = 0; (int)u.size() < n; ++i) u.push_back(q[i]); ev("same", u, o(f << s)); ev("shr", o(f), s, o(f >> s)); }
        { A h = f; for (int i = rng(0, N - 1); i < n; ++i) h[i] = 0; if (h == A{}) h[0] = 3; A a = rng.coin(1, 4) ? A{} : f; auto [q, r] = div_mod(a, h); ev("divmod", o(a), o(h), o(q), o(r)); ev("divmod", o(a), o(h), o(a / h), o(a % h)); A k = a, l = a; k /= h; l %= h; ev("divmod", o(a), o(h), o(k), o(l)); k = f; k += g; ev("add", o(f), o(g), o(k)); k -= g; ev("same", o(f), o(k)); k *= c; ev("scale", o(f), c.val(), o(k)); k = f; k += c; ev("add", o(f), C, o(k)); k -= c; ev("same", o(f), o(k)); }
        ev("diff", o(f), o(f.diff())); ev("intn", o(f), o(f.intg())); mint x = rv<mint>(); ev("eval", o(f), x.val(), f.eval(x).val()); A a = R(); a[0] = nz<mint>(); ev("inv", o(a), n, o(a.inv())); ev("inv", o(a), n, o(::inv(a))); a[0] = 1; ev("log", o(a), n, o(a.log())); ev("log", o(a), n, o(::log(a))); a[0] = 0; ev("exp", o(a), n, o(a.exp())); ev("exp", o(a), n, o(::exp(a)));
        ll k = rng.coin(1, 2) ? rng(0, 4) : (ll)1e17 + rng(0, 3); lead(a, rng.coin(1, 2) ? 1 : rng(0, N)); if (rng.coin(1, 2)) a[0] = nz<mint>(); pend("pow", o(a), k); ev("pow", o(a), wide(k), n, o(a.pow(k))); ev("pow", o(a), wide(k), n, o(::pow(a, k))); int z = 0; while (z < n && a[z] == 0) ++z; if (z < n && z % 2) a[--z] = 1; if (z < n) { mint y = nz<mint>(); a[z] = y * y; } pend("sqrt", o(a)); ev("sqrt", o(a), n, VVL{ o(a.sqrt()) }); ev("sqrt", o(a), n, VVL{ o(::sqrt(a)) });
    }
    finish();
}
template <class F> void points(int big) {       // evaluation and interpolation
    typedef typename F::value_type M; begin("poly", (ll)M::mod());
    for (int t = 0; t < (big ? 1 : 3); ++t) {
        int n = big ? rng(60, 70) : rng(0, 9); std::vector<M> xs, ys; std::set<ll> u; while ((int)xs.size() < n) { M x = rng.coin(1, 2) ? M(rng(-8, 8) * (big ? 20 : 1)) : M((ll)(rng.next() % M::mod())); if (u.insert(x.val()).second) xs.push_back(x), ys.push_back(rv<M>()); }
        pend("interp", n); ev("interp", o(xs), o(ys), o(S::polynomial_interpolation<F>(xs, ys))); if (!big) for (int q = 0; q < 2; ++q) { M x = q && n ? xs[rng(0, n - 1)] : rv<M>(); pend("lagr", n); ev("lagr", o(xs), o(ys), x.val(), S::lagrange_interpolation_naive(xs, ys, x).val()); ev("lagr", o(xs), o(ys), x.val(), S::lagrange_interpolation<F>(xs, ys, x).val()); }
        { M a = nz<M>(), b = rv<M>(), x = rng.coin(1, 2) && n ? M(a * (int)rng(0, n - 1) + b) : rv<M>(); std::vector<M> p(n); for (int i = 0; i < n; ++i) p[i] = a * i + b; ev("lagr", o(p), o(ys), x.val(), S::lagrange_interpolation_arithmetic_progression(a, b, ys, x).val()); for (int i = 0; i < n; ++i) p[i] = i; x = rng.coin(1, 2) ? M(rng(0, n)) : rv<M>(); ev("lagr", o(p), o(ys), x.val(), S::lagrange_interpolation_arithmetic_progression(ys, x).val()); }
        F f = rp<F>(big ? rng(50, 130) : rng(0, 12)); std::vector<M> e(big ? rng(1, 80) : rng(0, 9)); for (auto& x : e) x = rng.coin(1, 3) ? M(rng(0, 2)) : rv<M>(); pend("meval"); ev("meval", o(f), o(e), o(S::multi_point_eval(f, e)));
        F h = rp<F>(big ? rng(60, 70) : rng(0, 9)); std::vector<M> b(h.size()); for (auto& x : b) x = rng.coin(1, 3) ? M(rng(0, 2)) : rv<M>(); pend("newton", o(h), o(b)); ev("newton", o(h), o(b), o(S::convert_to_newton_basis(h, b)));
        M c = rv<M>(); F g = rp<F>(big ? 30 : rng(0, 12)); pend("translate"); ev("translate", o(g), c.val(), o(S::translate(g, c)));
    }
    finish();
}
template <class F> void gcds(int d) {
    typedef typename F::value_type M; begin("poly", (ll)M::mod()); F c = rp<F>(rng(0, d > 100 ? 40 : 4)), a = rp<F>(d + rng(0, 3)), b = rp<F>(rng.coin(1, 2) ? d + rng(0, 3) : rng(0, d)); if (rng.coin(1, 2)) a = a * c, b = b * c; if (rng.coin(1, 5)) a = b * rp<F>(3); if (rng.coin(1, 6)) a = F{};
    if (d > 100 && rng.coin(1, 2)) { a.assign(1, 1); b.assign(1, 0); for (int i = 0; a.size() < d; ++i) { F q = rp<F>(2 + (rng.coin(1, 5) ? rng(0, 3) : 0)); q[q.size() - 1] = nz<M>(); F n = q * a + b; b = a; a = n; } }     // a long remainder sequence
    pend("pgcd", o(a), o(b)); auto [x, y, g] = S::polynomial_ext_gcd(a, b); ev("pgcd", o(a), o(b), o(x), o(y), o(g)); ev("same", o(g), o(S::polynomial_gcd(a, b))); F m = b; m.cut_trailing_zeros(); if (m.size() > 1) { auto [xi, gi] = S::polynomial_gcd_inv(a, m); ev("pgcdinv", o(a), o(m), o(xi), o(gi)); if (gi == F{ 1 }) ev("pgcdinv", o(a), o(m), o(S::polynomial_inv(a, m)), VL{ 1 }); }
    finish();
}
template <class F> void recur() {
    typedef typename F::value_type M; begin("poly", (ll)M::mod());
    for (int t = 0; t < 4; ++t) {
        F P = rp<F>(rng(0, 6)), Q = rp<F>(rng(1, 6)); Q[0] = nz<M>(); ull n = rng.coin(1, 2) ? rng(0, 12) : rng.coin(1, 2) ? rng.next() : (ull)rng(100, 100000); pend("coef", n); ev("coef", o(P), o(Q), uwide(n), S::bostan_mori(P, Q, n).val()); F c = rp<F>(rng(0, 5)), a = rp<F>(c.size() + rng(0, 3)); ev("recur", o(a), o(c), uwide(n), S::nth_term_of_linearly_recurrent_sequence(a, c, n).val());
        int k = rng(0, 5), N = rng(0, 14); std::vector<M> s(N), r(k); for (auto& x : r) x = rv<M>(); int z = rng.coin(1, 3) ? rng(0, 5) : 0; for (int i = 0; i < N; ++i) { if (i < k + z) s[i] = i < z ? M(0) : rv<M>(); else { for (int j = 0; j < k; ++j) s[i] += r[j] * s[i - 1 - j]; } } if (rng.coin(1, 4)) for (auto& x : s) x = rng.coin(3, 4) ? M(0) : M(1); pend("bm", o(s)); ev("bm", o(s), o(S::find_linear_recuurence(s)));
    }
    finish();
}
template <class F> void misc() {
    typedef typename F::value_type M; begin("poly", (ll)M::mod());
    { int m = rng(0, 6), n = rng.coin(1, 3) ? rng(60, 70) : rng(1, 14); F f = rp<F>(rng.coin(1, 3) ? n + rng(0, 5) : rng(1, 20), rng.coin(1, 3)); if (rng.coin(1, 3)) lead(f, rng(0, 3)); if (rng.coin(1, 8)) f = F(f.size(), M(0)); M r = rng.coin(1, 4) ? M(1) : rng.coin(1, 4) ? M(-1) : rng.coin(1, 6) ? M(0) : rng.coin(1, 4) ? M(3).pow((M::mod() - 1) / 2) : rv<M>(); bool d = rng.coin(1, 3); if (d) n = f.size(); pend("prodrk", o(f), r.val(), m, n); ev("prodrk", o(f), r.val(), m, n, o(d ? S::prod_f_rk_x(f, r, m) : S::prod_f_rk_x(f, r, m, n))); }
    { int m = rng.coin(1, 3) ? rng(7, 100) : rng.coin(1, 2) ? rng(65530, 200000) : rng(1000000, 1000000000), n = rng(1, 12); F f = rp<F>(rng(1, 12), rng.coin(1, 3)); if (rng.coin(1, 4)) lead(f, rng(0, 2)); M r = rng.coin(1, 4) ? M(1) : rng.coin(1, 4) ? M(-1) : rng.coin(1, 4) ? M(3).pow((M::mod() - 1) / 2) : rv<M>(); pend("prodrkb", o(f), r.val(), m, n); ev("prodrkb", o(f), r.val(), m, n, o(S::prod_f_rk_x(f, r, m, n))); }
    { std::vector<int> h(rng(0, 5)); for (auto& x : h) x = rng(0, 5); auto q = h; std::sort(q.begin(), q.end()); pend("ferrers", q); ev("rook", q, o(S::rook_polynomial_ferrers_board<F>(q))); if (h.size()) { pend("skyline", h); ev("rook", h, o(S::rook_polynomial_skyline_board<F>(h))); } }
    { int n = rng.coin(1, 3) ? rng(58, 66) : rng(0, 12); std::vector<int> a(rng(0, 12)); for (auto& x : a) x = rng(0, n + 3); if (rng.coin(1, 4)) for (int k = rng(28, 70), w = rng(0, std::min(n, 1)); k--;) a.push_back(w); pend("ssum", n, a); ev("ssum", n, a, o(S::subset_sum<F>(n, a))); }
    { using R = S::RationalFPS<F>; auto rr = [] { F a = rp<F>(rng(1, 5)), b = rp<F>(rng(1, 5)); b[0] = nz<M>(); return R(a, b); }; auto w = [](const R& r) { return VVL{ o(r.num), o(r.den) }; }; R a = rr(), b = rr(); ev("frac", o(a.num * b.den + b.num * a.den), o(a.den * b.den), w(a + b)); ev("frac", o(a.num * b.den - b.num * a.den), o(a.den * b.den), w(a - b)); ev("frac", o(a.num * b.num), o(a.den * b.den), w(a * b)); M c = nz<M>(); ev("frac", o(a.num * c), o(a.den), w(a * c)); ev("frac", o(a.num * c), o(a.den), w(c * a)); ev("frac", o(a.num), o(a.den * c), w(a / c)); ev("frac", o(a.den * c), o(a.num), w(c / a)); ev("frac", o(-a.num), o(a.den), w(-a)); ev("frac", o(a.num), o(a.den), w(+a)); ev("frac", o(a.den), o(a.num), w(a.inv())); { R x = a; x += b; x -= b; ev("frac", o(a.num), o(a.den), w(x)); x = a; x *= b; ev("frac", o(a.num * b.num), o(a.den * b.den), w(x)); x = a; x *= c; x /= c; ev("frac", o(a.num), o(a.den), w(x)); x = a; x.inv_inplace(); ev("frac", o(a.den), o(a.num), w(x)); x = a; F q = x.normalize(); ev("divmod", o(a.num), o(a.den), o(q), o(x.num)); }
      int n = rng(1, 12); R s = a; if (rng.coin(1, 3)) { int z = rng(1, 2); s.num <<= z + rng(0, 1); s.den <<= z; } if (rng.coin(1, 6)) s.num = F(2, M(0)); ev("quot", o(s.num), o(s.den), n, o(s.to_fps(n))); std::vector<R> v; int k = rng(0, 4); F N{ 0 }, D{ 1 }, PN{ 1 }; for (int i = 0; i < k; ++i) { R r = rr(); v.push_back(r); N = N * r.den + r.num * D; D = D * r.den; PN = PN * r.num; } pend("rsum", k); ev("frac", o(N), o(D), w(R::sum(v))); ev("frac", o(PN), o(D), w(R::prod(v))); }
    finish();
}
template <class M> void sparse() {
    using V = S::VecSparseFPS<ll, M>; V::set_multiplication(conv<M>); begin("poly", (ll)M::mod()); typedef std::vector<std::pair<ll, M>> D; auto rd = [] { D d(rng(0, 7)); ll base = 0; for (auto& [i, v] : d) { base += rng.coin(1, 2) ? rng(0, 2) : rng(0, 30); i = base; v = rv<M>(); } if (rng.coin(1, 2)) for (int i = (int)d.size() - 1; i > 0; --i) std::swap(d[i], d[rng(0, i)]); return d; };
    auto w = [](const D& d) { VVL r; for (auto& [i, v] : d) r.push_back({ i, (ll)v.val() }); return r; }; auto all = [&](V& f, const D& d) { VVL r; std::set<ll> at{ 0, 1 }; for (auto& [i, v] : d) for (ll k : { i - 1, i, i + 1, i + 2 }) if (k >= 0) at.insert(k); for (ll k : at) r.push_back({ k, (ll)f[k].val() }); return r; };
    for (int t = 0; t < 3; ++t) {
        D a = rd(), b = rd(); V f(a), g(b); ev("spco", w(a), all(f, a)); D s = a; std::sort(s.begin(), s.end(), [](auto& x, auto& y) { return x.first < y.first; }); V f2(s, true); ev("spco", w(a), all(f2, a)); D ab = a, am, nb, mu; ab.insert(ab.end(), b.begin(), b.end()); for (auto [i, v] : b) nb.push_back({ i, -v }); am = a; am.insert(am.end(), nb.begin(), nb.end()); for (auto [i, v] : a) for (auto [j, u] : b) mu.push_back({ i + j, v * u });
        pend("spadd", w(a), w(b)); V h = f + g; ev("spco", w(ab), all(h, ab)); h = -g; ev("spco", w(nb), all(h, nb)); h = f - g; ev("spco", w(am), all(h, am)); pend("spmul", w(a), w(b)); h = f * g; ev("spco", w(mu), all(h, mu)); std::vector<M> q(rng(1, 4)); for (auto& x : q) x = rv<M>(); D mq; for (auto [i, v] : a) for (size_t j = 0; j < q.size(); ++j) mq.push_back({ i + (ll)j, v * q[j] }); h = f * q; ev("spco", w(mq), all(h, mq)); h = q * f; ev("spco", w(mq), all(h, mq));
        q[0] = 1; ll m = rng.coin(1, 2) ? rng(0, 30) : rng.coin(1, 2) ? rng(31, 1000000) : (ll)(rng.next() >> 1) >> rng(0, 31); VL P; for (auto [i, v] : a) { if ((ll)P.size() <= i) P.resize(i + 1); P[i] = (M(P[i]) + v).val(); } pend("spbm", w(a), o(q), m); ev("coef", P, o(q), wide(m), V::bostan_mori(f, q, m).val());
    }
    finish();
}
template <class M> void relaxed() {
    { begin("rel", (ll)M::mod(), "mul"); S::RelaxedConvolution<M> r(conv<M>), r2; r2.set_convolve_function(conv<M>); auto& x = rng.coin(1, 2) ? r : r2; int n = rng(1, 40); for (int i = 0; i < n; ++i) { M a = rv<M>(), b = rv<M>(); pend("mul2", a.val(), b.val()); ev("mul2", a.val(), b.val(), x.append(a, b).val()); } auto h = x.get(); h.resize(n); ev("get", o(h)); VL q; for (int i = 0; i < n; ++i) q.push_back(x[i].val()); ev("get", q); finish(); }
    { std::vector<M> f(rng.coin(1, 3) ? rng(0, 3) : rng(0, 40)); for (auto& v : f) v = rv<M>(); begin("rel", (ll)M::mod(), "semi", o(f)); S::SemiRelaxedConvolution<M> r(f, conv<M>), r2(f); r2.set_convolve_function(conv<M>); auto& x = rng.coin(1, 2) ? r : r2; int n = rng(1, 40); for (int i = 0; i < n; ++i) { M b = rv<M>(); pend("mul1", b.val()); ev("mul1", b.val(), x.append(b).val()); } auto h = x.get(); h.resize(n); ev("get", o(h)); finish(); }
}
int main(int argc, char** argv) {
    init(argc, argv);
    fps::set_multiplication(conv<mint>); fps7::set_multiplication(conv<p1>);
    for (int i = 0; i < reps(18); ++i) { ring<fps>("fps"); if (i % 3 == 0) ring<fps7>("fps7"); naive(); arr<1>(); arr<2>(); arr<6>(); arr<9>(); for (int w = 0; w < 5; ++w) series<fps>("fps", w), series<fps>("fps", w); leading<fps>("fps"); leading<fps>("fps"); if (i % 3 == 0) for (int w = 0; w < 5; ++w) series<fps7>("fps7", w); points<fps>(0); points<fps7>(0); if (i % 5 == 0) points<fps>(1); gcds<fps>(rng(0, 8)); gcds<fps>(rng(0, 8)); gcds<fps>(rng(0, 30)); gcds<fps7>(rng(0, 8)); if (i % 5 == 0) gcds<fps>(rng(262, 280)); if (i % 18 == 0) gcds<fps>(rng(380, 430)), gcds<fps>(rng(380, 430)); recur<fps>(); recur<fps7>(); recur<fps>(); misc<fps>(); misc<fps7>(); misc<fps>(); misc<fps>(); sparse<mint>(); sparse<mint>(); relaxed<mint>(); relaxed<p1>(); }
}
