// Orders, primitive roots, square roots, tetration, fast discrete logarithms (parts that need the AtCoder Library shim).
#include "vt.hpp"
#include <atcoder/modint>
#include "library/number/fast_discrete_logarithm.hpp"
#include "library/number/mod_sqrt.hpp"
#include "library/number/primitive_root.hpp"
#include "library/number/tetration_mod.hpp"
#include "library/number/min_of_mod_of_linear.hpp"
#include "library/math/modint_extension.hpp"
using namespace vt; namespace S = suisen;
ull bits(int lo, int hi) { int b = rng(lo, hi); return b == 0 ? 0 : (rng.next() >> (64 - b)) | (1ull << (b - 1)); }
ull mulm(ull a, ull b, ull m) { return (u128)a * b % m; }
ull powm(ull a, ull e, ull m) { ull r = 1 % m; a %= m; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a, m); a = mulm(a, a, m); } return r; }
bool isp(ull n) { if (n < 2) return false; for (ull p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % p == 0) return n == p; } ull d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, ++s; for (ull p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { ull x = powm(p, d, n); if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; ++i) { x = mulm(x, x, n); ok = x == n - 1; } if (!ok) return false; } return true; }
ull prevp(ull n) { while (!isp(n)) --n; return n; }
template <class T> std::vector<W> ps(T n) { std::vector<W> o; for (T p = 2; p <= n / p && p < 2000000; ++p) if (n % p == 0) { o.push_back(uwide(p)); while (n % p == 0) n /= p; } if (n > 1) { if (isp(n)) o.push_back(uwide(n)); else o.clear(); } return o; }
void small() {
    begin("ask", 0);
    for (int t = 0; t < 6; ++t) { int m = t == 0 ? rng(2, 10) : t == 1 ? (1 << rng(1, 6)) : t == 2 ? std::vector<int>{9, 25, 27, 49, 81, 18, 50, 98, 4, 54}[rng(0, 9)] : rng(2, 90); pend("ord", m);
        auto go = [&](auto z) { using T = decltype(z); S::OrderMod<T> o((T)m); std::vector<std::pair<int, int>> ords; std::vector<std::pair<int, bool>> pr; for (int a = 0; a < m + 3; ++a) { if (std::gcd(a, m) == 1) ords.emplace_back(a, (int)o(a)); pr.emplace_back(a, o.is_primitive_root(a)); } std::vector<int> gs; if (o.totient() == o.carmichael()) for (int i = 0; i < 4; ++i) gs.push_back((int)o.primitive_root()); std::vector<int> f; for (auto p : o.carmichael_prime_factors()) f.push_back((int)p); ev("ordm", (int)o.mod(), (int)o.totient(), (int)o.carmichael(), o.is_prime(), f, ords, pr, gs); };
        if (t % 2) go(int()); else go((long long)0); }
    for (int t = 0; t < 6; ++t) { int m = rng(1, t % 2 ? 12 : 120); if (t == 2) m = 1 << rng(0, 7); std::vector<std::tuple<int, int, int>> o; for (int i = 0; i < 40; ++i) { int a = rng(0, m + 4), b = rng(0, m - 1); pend("dlog", m, a, b); o.emplace_back(a, b, S::fast_discrete_logarithm::discrete_logarithm(a, b, m)); } ev("dlogs", m, o); }
    { int p = prevp(rng(67, 400)); S::fast_discrete_logarithm::IndexCalculus ic; if (rng.coin(1, 2)) ic = S::fast_discrete_logarithm::IndexCalculus(S::OrderMod<int>(p)); std::vector<std::tuple<int, int, int>> o; int a = rng(0, p); for (int i = 0; i < 30; ++i) { if (rng.coin(1, 3)) a = rng.coin(1, 2) && !o.empty() ? std::get<0>(o[rng(0, (int)o.size() - 1)]) : rng(0, p); int b = rng(0, p - 1); pend("index calculus", p, a, b); o.emplace_back(a, b, ic(a, b, p)); } ev("dlogs", p, o); }
    for (int t = 0; t < 4; ++t) { int p = t == 0 ? 2 : t == 1 ? 3 : prevp(rng(5, 120)); std::vector<std::pair<int, std::vector<int>>> o, q; using M = atcoder::dynamic_modint<5>; M::set_mod(p); for (int a = -p; a < 2 * p; ++a) { pend("prime_mod_sqrt", a, p); auto r = S::prime_mod_sqrt(a, p); o.emplace_back(a, r ? std::vector<int>{(int)*r} : std::vector<int>{}); pend("safe_sqrt", a, p); auto s = safe_sqrt(M(a)); q.emplace_back(a, s ? std::vector<int>{(int)s->val()} : std::vector<int>{}); } ev("sqrts", p, o); ev("sqrts", p, q); }
    for (int t = 0; t < 5; ++t) { int m = t == 0 ? rng(2, 20) : t == 1 ? (1 << rng(1, 7)) : t == 2 ? std::vector<int>{9, 27, 25, 81, 72, 36, 144, 100}[rng(0, 7)] : rng(2, 150); std::vector<std::pair<int, int>> f; int x = m; for (int p = 2; p <= x; ++p) if (x % p == 0) { f.emplace_back(p, 0); while (x % p == 0) x /= p, ++f.back().second; } std::vector<std::pair<int, std::vector<int>>> o; for (int a = -m; a < m + 5; ++a) { pend("composite_mod_sqrt", a, m); auto r = S::composite_mod_sqrt(a, f); o.emplace_back(a, r ? std::vector<int>{(int)*r} : std::vector<int>{}); } ev("sqrts", m, o); }
    for (int t = 0; t < 40; ++t) { int a = rng(0, t % 2 ? 12 : 60), b = rng(0, 6), m = t % 3 ? rng(1, 100) : (int)bits(1, 31); if (t % 5 == 0) { a = (int)bits(1, 30); b = rng(0, 4); } if (t % 7 == 0) b = rng(0, 1000000); pend("tetration_mod", a, b, m); ev("tet", a, b, m, S::tetration_mod(a, b, m)); }
    for (int t = 0; t < 30; ++t) { int n = rng(1, 25), m = t % 2 ? rng(1, 30) : (int)bits(1, 31), a = t % 4 < 2 ? rng(0, 40) : (int)bits(1, 31), b = t % 4 < 2 ? rng(0, 40) : (int)bits(1, 31); if (t % 5 == 0) { a %= m; b %= m; } if (t % 3 == 0) { a = rng(-40, 40); b = rng(-40, 40); } pend("min_of_mod_of_linear", n, m, a, b); ev("minlin", n, m, wide(a), wide(b), wide(S::min_of_mod_of_linear(n, m, a, b))); }
    finish();
}
void large() {
    begin("ask", 0);
    for (int t = 0; t < 3; ++t) { long long p = (long long)prevp(t == 0 ? bits(10, 31) : t == 1 ? bits(31, 33) : bits(34, 40)); pend("OrderMod", wide(p)); auto f = ps<ull>(p - 1); if (f.empty()) continue; S::OrderMod<long long> o(p); ev("proot", wide(p), wide(o.primitive_root()), f); ll a = 1 + (ll)(rng.next() % (p - 1)); if (t == 0) a = (ll)powm(a, (p - 1) / 2, p); ll d = o(a); ev("ordb", wide(p), wide(a), wide(d), ps<ull>(d)); { ll g = o.primitive_root(), h = (ll)powm(a, 2, p); ev("proot", wide(p), wide(g), f); if (o.is_primitive_root(h)) ev("proot", wide(p), wide(h), f); if (p > 2 && o.is_primitive_root(a) ) ev("proot", wide(p), wide(a), f); } pend("primitive_root", wide(p)); if (p < (1ll << 31)) ev("proot", wide(p), wide(S::primitive_root<int>((int)p)), f); else ev("proot", wide(p), wide(S::primitive_root<long long>(p)), f); }
    for (int t = 0; t < 3; ++t) { ll m = t == 2 ? (1LL << rng(30, 33)) + rng(-2, 2) : (ll)bits(12, t ? 40 : 31), a = (ll)(rng.next() % m); if (t == 2) { if (rng.coin(1, 2)) m = 1LL << 31; a = (a | 1) % m; } if (std::gcd(a, m) != 1) continue; pend("OrderMod", wide(m)); S::OrderMod<long long> o(m); ll d = o(a); auto f = ps<ull>(d); if (d > 1 && f.empty()) continue; ev("ordb", wide(m), wide(a), wide(d), f); }
    for (int t = 0; t < 4; ++t) { ll p = t == 0 ? 998244353 : t == 1 ? (ll)prevp(bits(20, 31)) : t == 2 ? 4179340454199820289ll : (ll)prevp(bits(40, 62)); if (rng.coin(1, 4)) p = std::vector<ll>{2013265921ll, 469762049ll, 206158430209ll, 2748779069441ll, 6597069766657ll}[rng(0, 4)]; if (!isp(p)) p = 998244353; for (int i = 0; i < 4; ++i) { ll a = (ll)(rng.next() % p); if (i % 2) a = (ll)mulm(a, a, p); if (i == 3) a -= p; pend("prime_mod_sqrt", wide(a), wide(p)); auto r = S::prime_mod_sqrt(a, p); std::vector<W> o; if (r) o.push_back(wide(*r)); ev("sqrtp", wide(a), wide(p), o); if (p < (1ll << 31)) { using M = atcoder::dynamic_modint<6>; M::set_mod((int)p); pend("safe_sqrt", wide(a), wide(p)); auto s = safe_sqrt(M(a)); std::vector<W> q; if (s) q.push_back(wide(s->val())); ev("sqrtp", wide(a), wide(p), q); } } }
    for (int t = 0; t < 4; ++t) { ll p = t % 2 ? 2 : (ll)prevp(rng(3, 1000)); std::vector<std::pair<ll, int>> f; ll m = 1; int e = p == 2 && rng.coin(2, 3) ? rng(6, 58) : rng(1, 5); for (int i = 0; i < e && m <= (1ll << 60) / p; ++i) m *= p; { int c = 0; ll z = m; while (z > 1) z /= p, ++c; f.emplace_back(p, c); } for (int k = 0; k < 2; ++k) { ll q = (ll)prevp(bits(2, 20)); bool dup = false; for (auto& z : f) dup |= z.first == q; if (dup || m > (1ll << 61) / q) continue; f.emplace_back(q, 1); m *= q; } ll x = (ll)(rng.next() % m); ll a = (ll)mulm(x, x, m); if (rng.coin(1, 3)) a -= m; pend("composite_mod_sqrt", wide(a), wide(m)); auto r = S::composite_mod_sqrt(a, f); std::vector<W> o; if (r) o.push_back(wide(*r)); ev("sqrtc", wide(a), wide(m), o); }
    for (int t = 0; t < 3; ++t) { int p = (int)prevp(t == 0 ? bits(7, 16) : t == 1 ? bits(20, 31) : 2147483647 - rng(0, 1000)); S::OrderMod<int> o(p); auto lg = [&](int a, int b, int r) { int d = o(a); ev("dlogb", wide(p), wide(a), wide(b), wide(r), wide(d), ps<ull>(d)); }; S::fast_discrete_logarithm::IndexCalculus ic; int a = 2 + rng.next() % (p - 2), a0 = a; for (int i = 0; i < 4; ++i) { if (i == 1 || i == 2) a = (int)powm(a, 2, p); if (i == 3) a = a0; if (a < 2) a = 2; int b = 1 + rng.next() % (p - 1); pend("dlog", p, a, b); lg(a, b, ic(a, b, p)); lg(a, b, S::fast_discrete_logarithm::discrete_logarithm(a, b, p)); if (i == 0) lg(a, b, S::fast_discrete_logarithm::IndexCalculus::discrete_logarithm(a, b, p)); } }
    for (int t = 0; t < 6; ++t) { int m = t % 2 ? (int)bits(10, 31) : (1 << rng(5, 30)); if (t == 4) { ll q = prevp(rng(3, 50)); ll z = q; while (z * q < (1ll << 31)) z *= q; m = (int)z; } if (t == 5) m = (1 << 30) + (int)bits(1, 29); ll a = rng.next() % m; if (rng.coin(1, 2)) a = rng(2, 12); ll w = rng.coin(1, 2) ? rng(0, 40) : (ll)bits(1, 20); ll b = (ll)powm(a, w, m); pend("dlog", m, a, b); ev("dlogw", wide(m), wide(a), wide(b), wide(S::fast_discrete_logarithm::discrete_logarithm((int)a, (int)b, m)), wide(w)); }
    for (int t = 0; t < 6; ++t) { int n = (int)bits(10, 31), m = (int)bits(10, 31), a = (int)bits(1, 31) % m, b = (int)bits(1, 31) % m; pend("min_of_mod_of_linear", n, m, a, b); int r = S::min_of_mod_of_linear(n, m, a, b); ull g = std::gcd((ull)a, (ull)m); std::vector<W> xs; for (int i = 0; i < 300; ++i) xs.push_back(wide(i < 150 ? std::min<ll>(i, n - 1) : (ll)(rng.next() % n)));
        // a witness x with (ax+b) mod m = r, if any: solve a x = r - b (mod m) by extended gcd
        ll d = (((ll)r - b) % m + m) % m; ll x = -1; if (d % (ll)g == 0) { ll mm = m / (ll)g, aa = (a / (ll)g) % mm; ll s0 = mm, s1 = aa, u0 = 0, u1 = 1; while (s1) { ll q = s0 / s1; s0 -= q * s1; std::swap(s0, s1); u0 -= q * u1; std::swap(u0, u1); } u0 = (u0 % mm + mm) % mm; x = (ll)mulm(u0, (ull)((d / (ll)g) % mm), mm); }
        ev("minlinb", wide(n), wide(m), wide(a), wide(b), wide(r), wide(x), xs); }
    finish();
}
int main(int argc, char** argv) { init(argc, argv); for (int i = 0; i < reps(40); ++i) { small(); large(); } }
