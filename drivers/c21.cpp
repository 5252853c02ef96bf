// Transforms and convolutions over lattices, set power series.
#include "vt.hpp"
#include <atcoder/modint>
#include "library/transform/subset.hpp"
#include "library/transform/supset.hpp"
#include "library/transform/divisor.hpp"
#include "library/transform/multiple.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "library/transform/kronecker.hpp"
#include "library/convolution/and_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/convolution/gcd_convolution.hpp"
#include "library/convolution/lcm_convolution.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/subset_convolution.hpp"
#include "library/convolution/min_plus_convolution.hpp"
#include "library/convolution/polynomial_eval.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
using namespace vt; namespace S = suisen;
using mint = atcoder::modint998244353; constexpr int MOD = 998244353;
typedef std::vector<int> VI;
template <class T> struct Val; template <> struct Val<ll> { static constexpr int m = 0; static ll mk(bool big) { return rng.coin(1, 6) ? 0 : rng(-9, 9) * (big ? 100 : 1); } static ll get(ll x) { return x; } };
template <> struct Val<mint> { static constexpr int m = MOD; static mint mk(bool) { return rng.coin(1, 8) ? mint(0) : rng.coin(1, 8) ? mint(-1) : rng.coin(1, 2) ? mint(rng(0, 20)) : mint((ll)(rng.next() % MOD)); } static ll get(mint x) { return x.val(); } };
template <class T> std::vector<T> rv(int n) { std::vector<T> v(n); int k = rng(0, 3); for (auto& x : v) x = k == 0 && rng.coin(2, 3) ? T(0) : Val<T>::mk(false); return v; }
template <class T> std::vector<ll> out(const std::vector<T>& v) { std::vector<ll> o; for (auto& x : v) o.push_back(Val<T>::get(x)); return o; }
template <class T> T mx(const T& a, const T& b) { return std::max(a, b); }
template <class T> T zeroT() { return T(0); }
template <class T> void transforms() {
    begin("lat", Val<T>::m); VI no;
    for (int i = 0; i < 3; ++i) { int n = 1 << (rng.coin(1, 12) ? rng(6, 7) : rng(0, 5)); auto f = rv<T>(n); auto go = [&](const char* k, auto z, auto mo) { auto g = f; pend("zeta", k, n); z(g); ev("zeta", k, no, out(f), out(g)); auto h = f; pend("mobius", k, n); mo(h); ev("mob", k, no, out(f), out(h)); }; 
        go("sub", [](auto& x) { S::subset_transform::zeta(x); }, [](auto& x) { S::subset_transform::mobius(x); }); go("sup", [](auto& x) { S::supset_transform::zeta(x); }, [](auto& x) { S::supset_transform::mobius(x); });
        n = rng.coin(1, 4) ? rng(0, 3) : rng.coin(1, 8) ? rng(100, 200) : rng(4, 40); f = rv<T>(n); go("div", [](auto& x) { S::divisor_transform::zeta(x); }, [](auto& x) { S::divisor_transform::mobius(x); }); go("mul", [](auto& x) { S::multiple_transform::zeta(x); }, [](auto& x) { S::multiple_transform::mobius(x); }); }
    for (int i = 0; i < 2; ++i) { auto f = rv<T>(1 << rng(0, 5)); auto g = f; pend("wht"); S::walsh_hadamard_transform::walsh_hadamard(g); ev("wht", out(f), out(g)); auto h = g; pend("whti"); S::walsh_hadamard_transform::walsh_hadamard_inv(h); ev("whti", out(g), out(h)); }
    for (int i = 0; i < 3; ++i) { VI d; int n = 1; int k = rng(0, 4); bool same = rng.coin(1, 3); int d0 = rng(2, 3); while (k--) { int x = same ? d0 : rng(1, 4); if (n * x > 60) break; d.push_back(x); n *= x; } auto f = rv<T>(n); pend("kronecker", d); for (int t = 0; t < 4; ++t) { auto g = f; bool z = t % 2 == 0, sub = t < 2; if (z && sub) { if (same) S::kronecker_transform::sub_zeta(g, d0); else S::kronecker_transform::sub_zeta(g, d); } else if (sub) { if (same) S::kronecker_transform::sub_mobius(g, d0); else S::kronecker_transform::sub_mobius(g, d); } else if (z) { if (same) S::kronecker_transform::sup_zeta(g, d0); else S::kronecker_transform::sup_zeta(g, d); } else { if (same) S::kronecker_transform::sup_mobius(g, d0); else S::kronecker_transform::sup_mobius(g, d); } ev(z ? "zeta" : "mob", sub ? "ksub" : "ksup", d, out(f), out(g)); } }
    for (int i = 0; i < 2; ++i) { int D = rng(2, 3), L = rng(0, D == 2 ? 4 : 3); int n = 1; for (int t = 0; t < L; ++t) n *= D; std::vector<std::vector<T>> A; for (int a = 0; a < D; ++a) A.push_back(rv<T>(D)); auto x = rv<T>(n), y = x; pend("kron power", D, L); S::kronecker_power_transform::kronecker_power_transform<T, zeroT<T>>(y, A); std::vector<std::vector<ll>> AA; for (auto& r : A) AA.push_back(out(r)); ev("kp", AA, out(x), out(y)); }
    finish();
}
void zmax() { begin("lat", 0); auto f = rv<ll>(1 << rng(0, 5)); { auto g = f; S::subset_transform::zeta<ll, mx<ll>>(g); ev("zmax", "sub", f, g); } { auto g = f; S::supset_transform::zeta<ll, mx<ll>>(g); ev("zmax", "sup", f, g); } f = rv<ll>(rng(1, 40)); { auto g = f; S::divisor_transform::zeta<ll, mx<ll>>(g); ev("zmax", "div", f, g); } { auto g = f; S::multiple_transform::zeta<ll, mx<ll>>(g); ev("zmax", "mul", f, g); } finish(); }
template <class T> void convs() {
    begin("lat", Val<T>::m); VI no; using namespace S;
    for (int i = 0; i < 2; ++i) { int n = 1 << (rng.coin(1, 12) ? 6 : rng(0, 5)); auto a = rv<T>(n), b = rv<T>(n); auto A = out(a), B = out(b); pend("conv", n); ev("conv", "and", no, A, B, out(and_convolution(a, b)), n); ev("conv", "or", no, A, B, out(or_convolution(a, b)), n); ev("conv", "xor", no, A, B, out(xor_convolution(a, b)), n); if constexpr (!std::is_same_v<T, ll>) ev("conv", "subset", no, A, B, out(subset_convolution(a, b)), n);
        int k = rng.coin(1, 4) ? rng(1, 3) : rng(4, 36); a = rv<T>(k), b = rv<T>(k); A = out(a), B = out(b); pend("conv", k); ev("conv", "gcd", no, A, B, out(gcd_convolution(a, b)), k); ev("conv", "lcm", no, A, B, out(lcm_convolution(a, b)), k);
        int p = rng(0, 30), q = rng(0, 30), r = rng(0, 40); a = rv<T>(p), b = rv<T>(q); A = out(a), B = out(b); pend("dirichlet", p, q, r); ev("conv", "dirichlet", no, A, B, out(dirichlet_convolution(a, b, r)), r); ev("conv", "dircop", no, A, B, out(dirichlet_convolution_coprime(a, b, r)), r); }
    { int n = 1 << rng(0, 3); auto a = rv<T>(n), b = rv<T>(n), c = rv<T>(n); pend("conv3"); ev("conv3", "or", out(a), out(b), out(c), out(S::convolution::transform_convolution<T, S::subset_transform::zeta<T>, S::subset_transform::mobius<T>>(std::vector<std::vector<T>>{a, b, c}))); }
    if constexpr (!std::is_same_v<T, ll>) { int n = 1 << rng(0, 3); auto a = rv<T>(n); auto f = rv<T>(rng(0, 4)); auto ev1 = [&](T x) { T r = 0; for (int j = (int)f.size(); j-- > 0;) r = r * x + f[j]; return r; }; pend("polynomial_eval"); ev("peval", "or", out(f), out(a), out(S::polynomial_eval<T, S::subset_transform::zeta<T>, S::subset_transform::mobius<T>>(a, ev1))); ev("peval", "xor", out(f), out(a), out(S::polynomial_eval<T, S::walsh_hadamard_transform::walsh_hadamard<T>, S::walsh_hadamard_transform::walsh_hadamard_inv<T>>(a, ev1))); }
    finish();
}
void minplus() {
    begin("lat", 0); auto cvx = [&](int n) { std::vector<ll> a(n); ll s = rng(-12, 2), x = rng(-20, 20); for (auto& v : a) { v = x; x += s; s += rng.coin(1, 2) ? 0 : rng(0, 5); } return a; };
    for (int i = 0; i < 5; ++i) { int n = rng.coin(1, 4) ? rng(1, 2) : rng.coin(1, 8) ? rng(30, 60) : rng(1, 14), m = rng.coin(1, 4) ? rng(1, 2) : rng.coin(1, 8) ? rng(30, 60) : rng(1, 14); auto a = cvx(n), b = cvx(m); pend("minplus", a, b); ev("minplus", a, b, S::min_plus_convolution_convex_convex(a, b)); std::vector<ll> c(m); for (auto& x : c) x = rng(-15, 15); pend("minplus", a, c); ev("minplus", a, c, S::min_plus_convolution_convex_arbitrary(a, c)); }
    for (int i = 0; i < 4; ++i) { int X = rng.coin(1, 8) ? 4 : 1, n = rng(1, 9 * X), m = rng(1, 9 * X); std::vector<VI> A(n, VI(m)); /* sums of a Monge array and row/column terms are totally monotone */ for (int r = 0; r < n; ++r) for (int c = 0; c < m; ++c) A[r][c] = r && c ? A[r - 1][c] + A[r][c - 1] - A[r - 1][c - 1] - (rng.coin(1, 2) ? 0 : (int)rng(0, 4)) : (int)rng(-9, 9); pend("monotone_minima", A); ev("mm", A, S::monotone_minima(n, m, [&](size_t r, size_t c) { return A[r][c]; })); ev("mm", A, S::monotone_minima(n, m, [&](size_t r, size_t c, size_t d) { return A[r][c] <= A[r][d]; })); }
    finish();
}
template <class P, bool comp> void sps() {
    int d = comp && rng.coin(1, 12) ? 5 : rng(0, 4); begin("sps", MOD, d); P r[3]; for (auto& x : r) x = P(d); auto set = [&](int i) { std::vector<mint> v = rv<mint>(1 << d); int k = rng(0, 4); if (k == 0) v[0] = 0; else if (k == 1) v[0] = 1; else if (k == 2) { mint x = rng(1, 1000); v[0] = x * x; } else if (v[0] == 0) v[0] = 5; if (rng.coin(1, 8)) for (int s = 0; s < (1 << d); ++s) if (__builtin_popcount(s) < 2) v[s] = 0; r[i] = P(v); ev("set", i + 1, out<mint>(r[i])); };
    set(0); set(1); set(2); int n = rng(6, 16);
    auto o = [&](const P& x) { return out<mint>(x); };
    while (n--) { int i = rng(0, 2), j = rng(0, 2), k = rng(0, 16); pend("sps", k, o(r[i])); mint f0 = r[i][0];
        if (k <= 1) set(i); else if (k == 2) { if (rng.coin(1, 2)) r[i] += r[j]; else r[i] = r[i] + r[j]; ev("add", i + 1, j + 1, o(r[i])); } else if (k == 3) { if (rng.coin(1, 2)) r[i] -= r[j]; else r[i] = r[i] - r[j]; ev("sub", i + 1, j + 1, o(r[i])); } else if (k == 4) { if (rng.coin(1, 2)) { r[i] = -r[i]; ev("neg", i + 1, o(r[i])); } else { P x = +r[i]; r[i] = x; ev("mulc", i + 1, 1, o(r[i])); } } else if (k == 5) { mint c = rng(0, 50); int z = rng(0, 2); if (z == 0) r[i] *= c; else if (z == 1) r[i] = r[i] * c; else r[i] = c * r[i]; ev("mulc", i + 1, c.val(), o(r[i])); } else if (k == 6) { mint c = rng(1, 50); if (rng.coin(1, 2)) r[i] /= c; else r[i] = r[i] / c; ev("divc", i + 1, c.val(), o(r[i])); } else if (k <= 8) { if (rng.coin(1, 2)) r[i] *= r[j]; else r[i] = r[i] * r[j]; ev("mul", i + 1, j + 1, o(r[i])); }
        else if (k == 9) { if (f0 == 0) r[i] = r[i] + P::one(d), ev("set", i + 1, o(r[i])); r[i] = rng.coin(1, 2) ? r[i].inv() : r[i].zeta().inv().mobius(); ev("inv", i + 1, o(r[i])); } else if (k == 10) { if (f0 != 0) { r[i][0] = 0; ev("set", i + 1, o(r[i])); } r[i] = rng.coin(1, 2) ? r[i].exp() : r[i].zeta().exp().mobius(); ev("exp", i + 1, o(r[i])); } else if (k == 11) { if (f0 != 1) { r[i][0] = 1; ev("set", i + 1, o(r[i])); } r[i] = rng.coin(1, 2) ? r[i].log() : r[i].zeta().log().mobius(); ev("log", i + 1, o(r[i])); } else if (k == 12) { r[i][0] = mint(rng(1, 1000)).pow(2); ev("set", i + 1, o(r[i])); r[i] = rng.coin(1, 2) ? r[i].sqrt() : r[i].zeta().sqrt().mobius(); ev("sqrt", i + 1, o(r[i])); } else if (k == 13 && d <= 3 && rng.coin(1, 3)) { ll x = (ll)(rng.next() >> 1) >> rng(0, 31); VI b; for (int t = 62; t >= 0; --t) if (!b.empty() || (x >> t & 1)) b.push_back(x >> t & 1); r[i] = rng.coin(1, 2) ? r[i].pow(x) : r[i].zeta().pow(x).mobius(); ev("powb", i + 1, b, o(r[i])); } else if (k == 13) { int x = rng.coin(2, 3) ? rng(0, 6) : rng(0, 2000000000); r[i] = rng.coin(1, 2) ? r[i].pow(x) : r[i].zeta().pow(x).mobius(); ev("pow", i + 1, x, o(r[i])); }
        else if (k == 14) { if constexpr (comp) { auto f = rv<mint>(rng(0, 7)); r[i] = P::polynomial_composite(f, r[i]); ev("comp", i + 1, out(f), o(r[i])); } } else if (k == 15) { P x = r[i]; x.concat(r[j]); ev("join", i + 1, j + 1, o(x), 1 << x.cardinality()); if (d) { ev("cut", i + 1, 1 << (d - 1), o(r[i].cut_lower(1 << (d - 1))), o(r[i].cut_upper(1 << (d - 1)))); } } else { mint c = rng(1, 9); int h = rng(0, 2); auto a = r[i].zeta(), b = r[j].zeta(), z = r[h].zeta(); auto q = c * (a * b) - z; switch (rng(0, 4)) { case 0: q = (a * b) * c + -z; break; case 1: q = a; q *= b; q *= c; q -= +z; break; case 2: q = -z; q += b * a * c; break; case 3: q = (a / c.inv()) * b; q -= z; break; default: break; } if (rng.coin(1, 6)) { q /= c; q = q * c; } ev("lin", i + 1, j + 1, h + 1, c.val(), o(q.mobius())); } }
    finish();
}
int main(int argc, char** argv) { init(argc, argv);
    for (int i = 0; i < reps(60); ++i) { transforms<ll>(); transforms<mint>(); zmax(); convs<ll>(); convs<mint>(); minplus(); sps<S::SetPowerSeries<mint>, true>(); sps<S::ArraySetPowerSeries<mint, 5>, false>(); sps<S::ArraySetPowerSeries<mint, 7>, false>(); }
}
