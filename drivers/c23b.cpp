// Polynomials on top of the (stand-in) AtCoder library: FormalPowerSeries, composition, convolutions, on-line operations.
#include <atcoder/modint>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/compose.hpp"
#include "library/polynomial/compose_exp.hpp"
#include "library/polynomial/compose_inv.hpp"
#include "library/polynomial/shift_of_sampling_points.hpp"
#include "library/polynomial/multi_point_eval.hpp"
#include "library/polynomial/polynomial_interpolation.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/polynomial/bostan_mori.hpp"
#include "library/polynomial/polynomial_taylor_shift.hpp"
#include "library/polynomial/subset_sum.hpp"
#include "library/polynomial/prod_f(r^k_x).hpp"
#include "library/convolution/arbitrary_mod_convolution.hpp"
#include "library/convolution/convolution_2_64.hpp"
#include "library/convolution/convolution_large.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/convolution/polynomial_eval_multipoint_eval.hpp"
#include "library/transform/chirp_z_transform.hpp"
#include "c23.hpp"
using mint = atcoder::modint998244353; using fps = S::FormalPowerSeries<mint>; typedef std::vector<mint> VM;
VM rm(int n) { VM a(n); for (auto& x : a) x = rv<mint>(); return a; }
void comps() {
    begin("poly", (ll)mint::mod());
    for (int t = 0; t < 3; ++t) {
        int n = rng(1, 24); if (rng.coin(1, 12)) n = 0; VM f = rm(rng(0, 26)), g = rm(rng(0, 30)); if (rng.coin(1, 3)) for (auto& x : g) x = 0; if (rng.coin(1, 3) && g.size()) g[0] = 0; pend("comp", o(f), o(g), n); ev("comp", o(f), o(g), n, o(S::compose(f, g, n)));
        VM h = rm(rng(2, 24)); h[0] = 0; h[1] = nz<mint>(); n = rng(0, 20); pend("cinv", o(h), n); ev("cinv", o(h), n, o(S::compositional_inv(h, n))); fps e(rm(rng(0, 20))); n = rng(1, 24); pend("cexp", o(e), n); ev("cexp", o(e), n, o(S::compose_exp(e, n)));
        VM y = rm(rng(0, 12)); mint s = rng.coin(1, 2) ? mint(rng(-15, 15)) : rv<mint>(); n = rng(0, 15); pend("shift", o(y), s.val(), n); ev("shift", o(y), s.val(), n, o(S::shift_of_sampling_points(y, s, n)));
    }
    finish();
}
void chirp(int big) { begin("poly", (ll)mint::mod()); for (int t = 0; t < 2; ++t) { int n = big ? rng(58, 66) : rng(0, 12), m = rng(0, big ? 40 : 12); VM f = rm(n); mint a = rng.coin(1, 5) ? mint(0) : rng.coin(1, 5) ? mint(1) : rv<mint>(), r = rng.coin(1, 5) ? mint(0) : rng.coin(1, 5) ? mint(-1) : rv<mint>(); pend("chirp", o(f), a.val(), r.val(), m); ev("chirp", o(f), a.val(), r.val(), m, o(S::chirp_z_transform(f, a, r, m))); auto cv = [](const VM& x, const VM& y) { return atcoder::convolution(x, y); }; ev("chirp", o(f), a.val(), r.val(), m, o(S::chirp_z_transform(f, a, r, m, cv))); } finish(); }
void others() {
    begin("poly", (ll)mint::mod()); int n = rng(60, 70); { fps f(rm(n)); VM x = rm(rng(1, 70)); ev("meval", o(f), o(x), o(S::multi_point_eval(f, x))); std::set<int> u; VM p; while (p.size() < 9) { mint v = rv<mint>(); if (u.insert(v.val()).second) p.push_back(v); } VM y = rm(9); ev("interp", o(p), o(y), o(S::polynomial_interpolation<fps>(p, y))); fps g(rm(20)); mint c = rv<mint>(); ev("translate", o(g), c.val(), o(S::translate(g, c))); }
    { fps P(rm(rng(0, 6))), Q(rm(rng(1, 6))); Q[0] = nz<mint>(); ull k = rng.next(); ev("coef", o(P), o(Q), uwide(k), S::bostan_mori(P, Q, k).val()); std::vector<int> a(10); for (auto& x : a) x = rng(0, n); ev("ssum", n, a, o(S::subset_sum<fps>(n, a))); fps f(rm(rng(1, 8))); mint r = rv<mint>(); int m = rng(0, 5); ev("prodrk", o(f), r.val(), m, n, o(S::prod_f_rk_x(f, r, m, n))); }
    { fps a(rm(rng(0, 12))), b(rm(rng(0, 12))); auto [x, y, g] = S::polynomial_ext_gcd(a, b); ev("pgcd", o(a), o(b), o(x), o(y), o(g)); }
    finish();
}
// a polynomial evaluated at a vector through a transform: here the identity
void idt(VM&) {}
void evals() { begin("poly", (ll)mint::mod()); S::FPS<mint>::set_multiplication([](const VM& a, const VM& b) -> VM { return atcoder::convolution(a, b); }); VM a = rm(rng(0, 9)); S::FPS<mint> f(rm(rng(0, 9))); const VM& ca = a; ev("meval", o(f), o(a), o(S::polynomial_eval<mint, idt, idt>(ca, f))); VM b = a; ev("meval", o(f), o(a), o(S::polynomial_eval<mint, idt, idt>(std::move(b), f))); finish(); }
template <class M> void cmod(int n, int m, int which) {
    begin("poly", (ll)M::mod()); std::vector<M> a(n), b(m); for (auto& x : a) x = rng.coin(1, 3) ? M(-1) : rv<M>(); for (auto& x : b) x = rng.coin(1, 3) ? M(-1) : rv<M>(); pend("mul", n, m, which); if (which == 0) ev("mul", o(a), o(b), o(S::arbitrary_mod_convolution(a, b))); if constexpr (std::is_base_of_v<atcoder::internal::static_modint_base, M>) if (which == 1) ev("mul", o(a), o(b), o(S::convolution_large(a, b))); finish();
}
template <class U> std::vector<W> ow(const std::vector<U>& a) { std::vector<W> r; for (auto x : a) r.push_back(uwide(x)); return r; }
void cint(int n, int m) { begin("wide", uwide(0)); std::vector<int> a(n), b(m); for (auto& x : a) x = rng.coin(1, 3) ? 2147483647 : rng.next() >> 33; for (auto& x : b) x = rng.coin(1, 3) ? 2147483647 : rng.next() >> 33; pend("conv", n, m); auto c = S::convolution_int(a, b); ev("conv", a, b, ow(c)); finish(); }
void c64(int n, int m) { begin("wide", uwide((unsigned __int128)1 << 64)); std::vector<ull> a(n), b(m); for (auto& x : a) x = rng.coin(1, 3) ? ~0ULL : rng.next(); for (auto& x : b) x = rng.coin(1, 3) ? ~0ULL : rng.next(); pend("conv", n, m); auto c = S::convolution_mod_2_64(a, b); ev("conv", ow(a), ow(b), ow(c)); finish(); }
void rel(int n, int which) {
    const ll md = mint::mod();
    if (which == 0) { begin("rel", md, "mul"); S::RelaxedConvolutionNTT<mint> x; for (int i = 0; i < n; ++i) { mint a = rv<mint>(), b = rv<mint>(); pend("mul2", i); ev("mul2", a.val(), b.val(), x.append(a, b).val()); } auto h = x.get(); h.resize(n); ev("get", o(h)); VL q; for (int i = 0; i < n; ++i) q.push_back(x[i].val()); ev("get", q); finish(); }
    if (which == 1) { VM f = rm(rng.coin(1, 4) ? 0 : rng.coin(1, 3) ? rng(0, 70) : n); begin("rel", md, "semi", o(f)); S::SemiRelaxedConvolutionNTT<mint> x0(f), x1; auto& x = f.empty() && rng.coin(1, 2) ? x1 : x0; for (int i = 0; i < n; ++i) { mint b = rv<mint>(); pend("mul1", i); ev("mul1", b.val(), x.append(b).val()); } auto h = x.get(); h.resize(n); ev("get", o(h)); VL q; for (int i = 0; i < n; ++i) q.push_back(x[i].val()); ev("get", q); finish(); }
    auto go = [&](auto& x, mint f0, const char* kind, int lead, auto... ex) { begin("rel", md, kind, ex...); VL g; for (int i = 0; i < n; ++i) { mint f = i < lead ? mint(0) : i == lead ? f0 : rv<mint>(); pend("app", i); g.push_back(x.append(f).val()); ev("app", f.val(), g.back()); } VL q; for (int i = 0; i < n; ++i) q.push_back(x[i].val()); ev("get", q); finish(); };
    if (which == 2) { S::RelaxedInv<mint> x; go(x, nz<mint>(), "inv", 0); } if (which == 3) { S::RelaxedExp<mint> x; go(x, mint(0), "exp", 0); } if (which == 4) { S::RelaxedLog<mint> x; go(x, mint(1), "log", 0); }
    if (which == 5) { ll k = rng.coin(1, 3) ? rng(0, 3) : rng.coin(1, 2) ? rng(2, 50) : (ll)1e18 + rng(0, 9); int z = rng.coin(1, 2) ? 0 : rng(0, 4); S::RelaxedPow<mint> x(k); go(x, nz<mint>(), "pow", z, wide(k)); }
    if (which == 6) { begin("rel", md, "sqrt"); S::RelaxedSqrt<mint> x; mint f0 = nz<mint>(); if (rng.coin(3, 4)) f0 *= f0; VL g; for (int i = 0; i < n; ++i) { mint f = i ? rv<mint>() : f0; pend("app", i, f.val()); auto r = x.append(f); if (!r) { ev("none", f.val()); break; } g.push_back(r->val()); ev("app", f.val(), g.back()); } finish(); }
}
// long operands with few non-zero coefficients, some of them next to the block boundaries of the fast algorithms
typedef std::vector<std::pair<int, ll>> SP;
template <class V> SP spo(const V& h, int n) { SP r; for (int i = 0; i < n && i < (int)h.size(); ++i) if (h[i].val()) r.emplace_back(i, h[i].val()); return r; }
template <class M> std::vector<M> spv(int n) { std::vector<M> f(n); for (int t = rng(1, 14); t--;) { int i = rng.coin(1, 3) ? rng(0, n - 1) : rng.coin(1, 2) ? 64 * rng(0, n / 64) + rng(-1, 1) : (1 << rng(0, 12)) + rng(-1, 1); if (0 <= i && i < n) f[i] = nz<M>(); } if (rng.coin(1, 2)) f[n - 1] = nz<M>(); return f; }
void longs() {
    begin("poly", (ll)mint::mod()); int n = rng.coin(1, 2) ? (64 << rng(3, 6)) + rng(1, 70) : rng(600, 4600); auto f = spv<mint>(n), g = spv<mint>(n);
    { pend("relaxed", n); S::RelaxedConvolutionNTT<mint> x; std::vector<mint> h, q; for (int i = 0; i < n; ++i) h.push_back(x.append(f[i], g[i])); for (int i = 0; i < n; ++i) q.push_back(x[i]); ev("spmul", spo(f, n), spo(g, n), n, spo(h, n)); ev("spmul", spo(f, n), spo(g, n), n, spo(q, n)); ev("spmul", spo(f, n), spo(g, n), n, spo(x.get(), n)); }
    { pend("semirelaxed", n); auto k = f; if (rng.coin(1, 2)) k.resize(rng(1, n)); S::SemiRelaxedConvolutionNTT<mint> x(k); std::vector<mint> h, q; for (int i = 0; i < n; ++i) h.push_back(x.append(g[i])); for (int i = 0; i < n; ++i) q.push_back(x[i]); ev("spmul", spo(k, n), spo(g, n), n, spo(h, n)); ev("spmul", spo(k, n), spo(g, n), n, spo(q, n)); }
    { pend("fps", n); int m = rng(1, n); auto k = g; k.resize(m); fps a(f), b(k); ev("spmul", spo(f, n), spo(k, m), n + m, spo(a * b, n + m)); }
    finish();
    auto cl = [&](auto z) { using M = decltype(z); begin("poly", (ll)M::mod()); int a = rng(61, 5000), b = rng(61, 5000); auto f = spv<M>(a), g = spv<M>(b); pend("convolution_large", a, b); auto h = S::convolution_large(f, g); ev("spmul", spo(f, a), spo(g, b), a + b, spo(h, (int)h.size())); ev("same", VL{ a + b - 1 }, VL{ (ll)h.size() }); finish(); };
    cl(atcoder::static_modint<12289>()); cl(atcoder::static_modint<193>()); cl(atcoder::static_modint<7681>());
    { using M = atcoder::modint1000000007; begin("poly", (ll)M::mod()); int a = rng(61, 3000), b = rng(61, 3000); auto f = spv<M>(a), g = spv<M>(b); pend("arbitrary_mod", a, b); auto h = S::arbitrary_mod_convolution(f, g); ev("spmul", spo(f, a), spo(g, b), a + b, spo(h, (int)h.size())); finish(); }
}
int main(int argc, char** argv) {
    init(argc, argv); using d7 = atcoder::modint1000000007; using m193 = atcoder::static_modint<193>; using m12289 = atcoder::static_modint<12289>; using m64 = atcoder::static_modint<1000000000 & ~63>;
    for (int i = 0; i < reps(18); ++i) {
        ring<fps>("fps"); ring<fps>("fps"); for (int w = 0; w < 5; ++w) series<fps>("fps", w), series<fps>("fps", w); leading<fps>("fps"); leading<fps>("fps"); comps(); comps(); chirp(0); chirp(1); others(); evals();
        for (int w = 0; w < 7; ++w) { rel(rng(1, 40), w); if (i % 2 == 0) rel(w < 2 ? rng(64, 300) : rng(64, 140), w); }
        cmod<d7>(rng(0, 9), rng(0, 9), 0); cmod<m64>(rng(0, 3), rng(0, 3), 0); cmod<m193>(rng(0, 20), rng(0, 20), 1); cint(rng(0, 5), rng(0, 5)); c64(rng(0, 5), rng(0, 5)); c64(rng(58, 64), rng(61, 64)); cmod<m193>(rng(1, 90), rng(1, 90), 1);
    }
    for (int i = 0; i < reps(6); ++i) longs();
    for (int i = 0; i < 2; ++i) { cmod<d7>(rng(119, 124), rng(121, 140), 0); cint(rng(119, 124), rng(121, 140)); cmod<m64>(rng(121, 123), rng(121, 130), 0); cmod<m193>(rng(61, 130), rng(61, 130), 1); cmod<m12289>(rng(61, 80), rng(61, 80), 1); }
    { atcoder::modint::set_mod(1000000000 - 7); cmod<atcoder::modint>(rng(121, 124), rng(121, 124), 0); cmod<atcoder::modint>(rng(1, 4), rng(1, 4), 0); rel(300, 0); rel(300, 1); rel(290, 2); }
    { begin("poly", (ll)mint::mod()); for (int d : { 1, 5, 10, 11, 12 }) { int n = 128 + d, a = rng(61, n - 60); fps f(rm(a)), g(rm(n + 1 - a)); pend("mul", a); ev("mul", o(f), o(g), o(f * g)); ev("mul", o(g), o(f), o(g * f)); } finish(); }   // just above a power of two
}
