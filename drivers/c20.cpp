// Modular arithmetic, linear equations, discrete logarithms, rationals, Stern-Brocot tree.
#include "vt.hpp"
#include "library/number/barrett_reduction.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/modint.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "library/number/ext_gcd.hpp"
#include "library/number/bezout_equation.hpp"
#include "library/number/garner.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/factorial_number.hpp"
#include "library/number/find_denominators.hpp"
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/pow_mods.hpp"
using namespace vt; namespace S = suisen;
ull bits(int lo, int hi) { int b = rng(lo, hi); return b == 0 ? 0 : (rng.next() >> (64 - b)) | (1ull << (b - 1)); }
ull edge(int maxbits) { int k = rng(0, 3); ull m = maxbits == 64 ? ~0ull : (1ull << maxbits) - 1; if (k == 0) return rng(0, 3); if (k == 1) return m - rng(0, 3); if (k == 2) { ull x = (1ull << rng(0, maxbits - 1)) + rng(-1, 1); return std::min(x, m); } return bits(1, maxbits); }
// ---------------------------------------------------------------- residues
template <class M> constexpr bool has_neg = false; template <int m> constexpr bool has_neg<S::static_modint<m>> = true;
template <class M> constexpr bool is61 = std::is_same_v<M, S::modint2p61m1>;
template <class M> void modops(ull m, bool prime) {
    begin("mod", uwide(m)); M r[3]; auto v = [&](int i) { return uwide(r[i].val()); };
    if constexpr (is61<M>) ev("mod", uwide(M::mod())); else { ev("mod", uwide(M::mod())); ev("mod", uwide(M::umod())); }
    int n = rng(20, 60);
    auto set = [&](int i) { int k = rng(0, 5); if constexpr (is61<M>) { ull x = rng.coin(1, 2) ? edge(64) : M::mod() + rng(-3, 3); pend("set", uwide(x)); r[i] = M(x); ev("set", i + 1, uwide(x), v(i)); } else {
        if (k == 0) { ll x = rng(-5, 5); pend("set", x); r[i] = M(x); ev("set", i + 1, x, v(i)); } else if (k == 1) { int x = (int)rng(INT_MIN, INT_MAX); if (rng.coin(1, 4)) x = rng.coin(1, 2) ? INT_MIN : INT_MAX; pend("set", wide(x)); r[i] = M(x); ev("set", i + 1, wide(x), v(i)); } else if (k == 2) { ll x = (ll)edge(63); if (rng.coin(1, 2)) x = -x; if (rng.coin(1, 10)) x = LLONG_MIN; pend("set", wide(x)); r[i] = M(x); ev("set", i + 1, wide(x), v(i)); } else if (k == 3) { unsigned x = edge(32); pend("set", uwide(x)); r[i] = M(x); ev("set", i + 1, uwide(x), v(i)); } else if (k == 4) { ull x = rng.coin(1, 2) ? edge(64) : m * rng(0, 5) + rng(-2, 2); pend("set", uwide(x)); r[i] = M(x); ev("set", i + 1, uwide(x), v(i)); } else { ll x = (ll)m + rng(-2, 2); if (rng.coin(1, 2)) x = -x; pend("set", x); r[i] = M(x); ev("set", i + 1, wide(x), v(i)); } } };
    set(0); set(1); set(2);
    while (n--) { int i = rng(0, 2), j = rng(0, 2), k = rng(0, 11); bool invj = std::gcd<ull, ull>(r[j].val(), m) == 1, invi = std::gcd<ull, ull>(r[i].val(), m) == 1;
        if (k <= 1) set(i); else if (k == 2) { pend("add", v(i), v(j)); if (rng.coin(1, 2)) r[i] += r[j]; else r[i] = r[i] + r[j]; ev("add", i + 1, j + 1, v(i)); } else if (k == 3) { pend("sub", v(i), v(j)); if (rng.coin(1, 2)) r[i] -= r[j]; else r[i] = r[i] - r[j]; ev("sub", i + 1, j + 1, v(i)); } else if (k == 4 || k == 5) { pend("mul", v(i), v(j)); if (rng.coin(1, 2)) r[i] *= r[j]; else r[i] = r[i] * r[j]; ev("mul", i + 1, j + 1, v(i)); }
        else if (k == 6) { ll e = rng.coin(1, 2) ? rng(0, 6) : (ll)bits(1, 63); pend("pow", v(i), wide(e)); r[i] = r[i].pow(e); ev("pow", i + 1, wide(e), v(i)); } else if (k == 7 && invi && m > 1) { pend("inv", v(i)); r[i] = r[i].inv(); ev("inv", i + 1, v(i)); }
        else if (k == 8) { pend("eq"); ev("eq", i + 1, j + 1, r[i] == r[j]); }
        if constexpr (!is61<M>) { if (k == 9 && invj && m > 1) { pend("div", v(i), v(j)); if (rng.coin(1, 2)) r[i] /= r[j]; else r[i] = r[i] / r[j]; ev("div", i + 1, j + 1, v(i)); } else if (k == 10) { pend("inc"); if (rng.coin(1, 2)) { if (rng.coin(1, 2)) ++r[i]; else r[i]++; ev("inc", i + 1, v(i)); } else { if (rng.coin(1, 2)) --r[i]; else r[i]--; ev("dec", i + 1, v(i)); } } else if (k == 11 && prime) { pend("sqrt", v(i)); auto s = S::mod_sqrt(r[i]); std::vector<W> o; if (s) o.push_back(uwide(s->val())); ev("sqrt", i + 1, o); } else if (k == 8 && invi && m > 1 && rng.coin(1, 2)) { ll e = rng.coin(1, 2) ? rng(-9, 9) : (rng.coin(1, 2) ? 1 : -1) * (ll)bits(30, 62); pend("xpow", wide(e)); auto x = r[i].xpow(e); if (e < 0) { r[i] = r[i].inv(); ev("inv", i + 1, v(i)); e = -e; } r[i] = x; ev("pow", i + 1, wide(e), v(i)); }
            if constexpr (has_neg<M>) if (rng.coin(1, 6)) { pend("neg"); r[i] = -r[i]; ev("neg", i + 1, v(i)); } }
    }
    finish();
}
bool isp(ull n) { if (n < 2) return false; for (ull d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
ull nextp(ull n) { while (!isp(n)) ++n; return n; }
template <int m> void stat() { modops<S::static_modint<m>>(m, isp(m)); }
void dyn() { int m; int k = rng(0, 4); if (k == 0) m = rng(1, 12); else if (k == 1) m = INT_MAX - rng(0, 40); else if (k == 2) m = (1 << rng(1, 30)) + rng(-1, 1); else if (k == 3) m = nextp(bits(2, 30)); else m = bits(1, 31); m = std::max(m, 1); S::modint::set_mod(m); modops<S::modint>(m, isp(m)); }
void barr() { begin("ask", 0); for (int i = 0; i < 6; ++i) { unsigned M = i == 0 ? 1 : i == 1 ? 2 : i == 2 ? 0xffffffffu - rng(0, 3) : i == 3 ? (unsigned)std::max<ull>(1, edge(31)) : (unsigned)std::max<ull>(1, edge(32)); S::barrett b(M); std::vector<std::tuple<W, W, W>> o; for (int j = 0; j < 20; ++j) { ull x = j % 3 == 0 ? edge(64) : j % 3 == 1 ? ull(M) * bits(1, 32) + rng(-1, 1) : bits(1, 64); if (j == 0) x = ~0ull; if (j == 1) x = ~0ull / M * M; if (j == 2) x = ~0ull / M * M - 1; pend("barrett", uwide(M), uwide(x)); auto [q, r] = b.quorem(x); if (j % 2) { q = b.quo(x); r = b.rem(x); } o.emplace_back(uwide(x), uwide(q), uwide(r)); unsigned p = edge(32), s = edge(32); o.emplace_back(uwide((ull)p * s), uwide((ull)p * s / M), uwide(b.mul(p, s))); } ev("barrett", uwide(b.umod()), o); } finish(); }
template <class MG, class I, class D> void mont(int w) {
    I N = edge(w) | 1; begin("mont", uwide(N), uwide((u128)1 << w)); pend("mont", uwide(N)); MG g(N);
    for (int i = 0; i < 12; ++i) { I t = edge(w) % N, u = edge(w) % N; pend("mont", uwide(N), uwide(t), uwide(u)); ev("make", uwide(t), uwide(g.make(t))); I A = g.make(t), B = g.make(u); ev("mmul", uwide(A), uwide(B), uwide(g.mul(A, B))); ev("madd", uwide(A), uwide(B), uwide(g.add(A, B))); ev("msub", uwide(A), uwide(B), uwide(g.sub(A, B))); D x = ((D)edge(w) % N << w) + edge(w); ev("reduce", uwide(x), uwide(g.reduce(x))); ll e = rng.coin(1, 2) ? rng(0, 5) : (ll)bits(1, 62); ev("mpow", uwide(t), wide(e), uwide(g.pow(A, e))); ev("reduce", uwide(A), uwide(g.reduce(A))); }
    finish();
}
ll sgn(ull x) { return rng.coin(1, 2) ? (ll)x : -(ll)x; }
void gcds() {
    begin("ask", 0);
    for (int i = 0; i < 40; ++i) { int B = i % 2 ? 62 : 5; ll g = bits(0, 8); ll a = sgn(bits(0, B)), b = sgn(bits(0, B)); if (i % 5 == 0 && B == 5) a *= g, b *= g; if (i < 3) a = 0; if (i == 1 || i == 3) b = 0; pend("extgcd", wide(a), wide(b)); auto [x, y, d] = S::ext_gcd(a, b); ev("extgcd", wide(a), wide(b), wide(x), wide(y), wide(d));
        ll m = std::max<ull>(1, bits(1, i % 2 ? 61 : 6)); pend("gcdinv", wide(a), wide(m)); auto [z, h] = S::gcd_inv(a, m); ev("gcdinv", wide(a), wide(m), wide(z), wide(h)); ev("safemod", wide(a), wide(m), wide(S::safe_mod(a, m))); if (std::gcd(a, m) == 1) ev("invmod", wide(a), wide(m), wide(S::inv_mod(a, m))); }
    for (int i = 0; i < 12; ++i) { std::vector<std::pair<int, int>> q; int k = rng(0, 5); for (int t = 0; t < k; ++t) { int m = i % 2 ? std::max<int>(1, bits(1, 31)) : rng(1, 30); bool ok = true; for (auto& z : q) if (std::gcd(z.second, m) != 1) ok = false; if (ok) q.emplace_back(rng.coin(1, 4) ? -rng(0, 50) : rng(0, m - 1), m); } int M = i % 3 ? std::max<int>(1, bits(1, 31)) : rng(1, 40); pend("garner", q, M); std::vector<std::pair<W, W>> z; for (auto& t : q) z.emplace_back(wide(t.first), wide(t.second)); ev("garner", z, wide(M), wide(S::garner(q, M))); }
    finish();
}
void bz() {
    int a = rng(-6, 6), b = rng(-6, 6), c = rng(-20, 20); if (rng.coin(1, 6)) a = 0; if (rng.coin(1, 6)) b = 0; if (rng.coin(1, 4)) c = 0; bool full = rng.coin(1, 15); if (full) a = b = c = 0;
    begin("bz", a, b, c); pend("bezout", a, b, c); S::BezoutEquation E(a, b); auto s = E.solve(c); bool fx = false; int lo[4] = {-99, -99, -99, -99};
    int n = full ? rng(4, 9) : rng(0, 5); for (int i = 0; i <= n; ++i) {
        pend("ask", a, b, c); if (a == 0 && b == 0) { std::vector<W> ct; bool h = s.has_solution(); auto k = s.count(); if (k) ct.push_back(wide(*k)); ev("zero", h, ct); if (h && k) { auto P = [](std::pair<ll, ll> p) { return std::make_pair(wide(p.first), wide(p.second)); }; ev("zeroext", P(s.xmin_solution()), P(s.xmax_solution()), P(s.ymin_solution()), P(s.ymax_solution())); } }
        else { bool h = s.has_solution(); auto k = s.count(); std::vector<ll> ct; if (k) ct.push_back(*k); std::vector<ll> z[4]; if (h && k) { auto p = s.xmin_solution(), q = s.xmax_solution(), u = s.ymin_solution(), w = s.ymax_solution(); z[0] = {p.first, p.second}; z[1] = {q.first, q.second}; z[2] = {u.first, u.second}; z[3] = {w.first, w.second}; } ev("small", h, ct, z[0], z[1], z[2], z[3]); }
        if (i == n) break;
        int k = rng(0, 5), v = rng(-15, 15); if (full) { k = i < 2 ? 4 + i : k; if (k == 0 || k == 2) v -= 12; if (k == 1 || k == 3) v += 12; } bool r; pend("bound", k, v); if (k == 0) { r = s.set_min_x(v); ev("bound", "minx", v, r); } else if (k == 1) { r = s.set_max_x(v); ev("bound", "maxx", v, r); } else if (k == 2) { r = s.set_min_y(v); ev("bound", "miny", v, r); } else if (k == 3) { r = s.set_max_y(v); ev("bound", "maxy", v, r); } else { int w = rng(v, 15); if (k == 4) { r = s.set_x_range(v, w); ev("bound", "minx", v, r); ev("bound", "maxx", w, r); } else { r = s.set_y_range(v, w); ev("bound", "miny", v, r); ev("bound", "maxy", w, r); } } }
    finish();
}
void bzbig(bool huge = false) {
    ll a = sgn(bits(1, 30)), b = sgn(bits(1, 30)); if (huge) { a = sgn(bits(28, 57)), b = sgn(bits(28, 57)); if (rng.coin(1, 3)) { ll f = bits(10, 30); a = a / (1ll << 32) * f + f, b = b / (1ll << 32) * f + f; if (!a) a = f; if (!b) b = f; } } ll g = std::gcd(a, b); ll x = sgn(bits(1, huge ? 3 : 30)), y = sgn(bits(1, huge ? 3 : 30)); bool no = rng.coin(1, 8) && g > 1; i128 cc = (i128)a * x + (i128)b * y; ll c = (ll)cc + (no ? 1 : 0);
    begin("bz", wide(a), wide(b), wide(c)); pend("bezout", wide(a), wide(b), wide(c)); S::BezoutEquation E(a, b); auto s = E.solve(c); if (no) { ev("nosol", s.has_solution()); finish(); return; }
    ll cap = (1ll << 60) / (std::abs(a) / std::abs(b) + 1); ll w = std::min<ll>(bits(1, huge ? 59 : 45), cap); ll l = x - std::min<ll>(bits(1, 40), cap), h = x + w; pend("range", wide(a), wide(b), wide(c), wide(l), wide(h)); if (rng.coin(1, 2)) { bool r1 = s.set_min_x(l); ev("bound", "minx", wide(l), r1); bool r2 = s.set_max_x(h); ev("bound", "maxx", wide(h), r2); } else { bool r1 = s.set_x_range(l, h); ev("bound", "minx", wide(l), r1); ev("bound", "maxx", wide(h), r1); } if (rng.coin(1, 2)) { ll u = y - (ll)bits(1, 50); bool r = s.set_min_y(u); ev("bound", "miny", wide(u), r); } if (rng.coin(1, 2)) { ll u = y + (ll)bits(1, 55); bool r = s.set_max_y(u); ev("bound", "maxy", wide(u), r); }
    auto P = [](std::pair<ll, ll> p) { return std::make_pair(wide(p.first), wide(p.second)); }; auto k = s.count(); ev("big", P(s.xmin_solution()), P(s.xmax_solution()), P(s.ymin_solution()), P(s.ymax_solution()), k ? wide(*k) : W{"-1"}); finish();
}
// ---------------------------------------------------------------- discrete logarithm
typedef S::dynamic_modint<7> MD;
void dlog() {
    begin("ask", 0);
    for (int t = 0; t < 3; ++t) { int m = t == 0 ? 1 << rng(0, 6) : rng(1, 100); MD::set_mod(m); std::vector<std::array<int, 3>> o; for (int i = 0; i < 25; ++i) { int a = rng(0, m - 1), b = rng(0, m - 1); if (rng.coin(1, 2)) { b = 1 % m; int e = rng(0, m); while (e--) b = b * a % m; } pend("dlog", m, a, b); int r = S::discrete_logarithm(MD(a), MD(b)); o.push_back({a, b, r}); } ev("dlogs", m, o); ev("safemod", MD::mod(), INT_MAX, m); }
    for (int i = 0; i < 3; ++i) { int p = nextp(bits(12, i == 2 ? 31 : 28) - (i == 2 ? 100 : 0)); if (i == 2) p = nextp((1u << 30) + rng(0, 1000000)); ll o = p - 1; std::vector<W> pr; int a = rng(2, p - 2); auto pw = [&](ll x, ll e) { ll r = 1; for (x %= p; e; e >>= 1, x = x * x % p) if (e & 1) r = r * x % p; return r; }; if (rng.coin(1, 3)) a = pw(a, 2); for (ll q = 2, n = p - 1; n > 1; ++q) { if (q * q > n) q = n; if (n % q == 0) { while (n % q == 0) n /= q; while (o % q == 0 && pw(a, o / q) == 1) o /= q; if (o % q == 0) pr.push_back(wide(q)); } }
        int b = rng.coin(2, 3) ? (int)pw(a, rng(0, p - 2)) : rng(1, p - 1); MD::set_mod(p); pend("dlog", p, a, b); int r = S::discrete_logarithm(MD(a), MD(b)); ev("dlogb", wide(p), wide(a), wide(b), wide(r), wide(o), pr); }
    for (int i = 0; i < 3; ++i) { int m = i == 0 ? (1 << 30) + rng(0, 1000) : i == 1 ? INT_MAX - rng(0, 50) : 2 * 3 * 5 * (int)bits(10, 25); int a = rng(0, m - 1); if (rng.coin(1, 2)) a = a / 6 * 6; ll w = rng(0, 60), b = 1; for (int k = 0; k < w; ++k) b = b * a % m; MD::set_mod(m); pend("dlogw", m, a, wide(b)); ev("dlogw", wide(m), wide(a), wide(b), wide(S::discrete_logarithm(MD(a), MD(b))), wide(w)); }
    finish();
}
// ---------------------------------------------------------------- factorial numbers
void facn() {
    int n = rng.coin(1, 3) ? rng(1, 3) : rng(1, 20); begin("fac", n); S::factorial_number r[3]; for (auto& x : r) x = S::factorial_number(n); auto v = [&](int i) { return uwide(r[i].to_ull()); };
    int k = rng(10, 30); while (k--) { int i = rng(0, 2), j = rng(0, 2), o = rng(0, 13); ll c = rng.coin(1, 2) ? rng(-30, 30) : sgn(bits(1, 62));
        if (o <= 1) { pend("set", n, wide(c)); r[i] = S::factorial_number(n, c); ev("set", i + 1, wide(c), v(i)); } else if (o == 2) { pend("add"); if (rng.coin(1, 2)) r[i] += r[j]; else r[i] = r[i] + r[j]; ev("add", i + 1, j + 1, v(i)); } else if (o == 3) { pend("sub"); if (rng.coin(1, 2)) r[i] -= r[j]; else r[i] = r[i] - r[j]; ev("sub", i + 1, j + 1, v(i)); } else if (o == 4) { pend("addc", wide(c)); int z = rng(0, 2); if (z == 0) r[i] += c; else if (z == 1) r[i] = r[i] + c; else r[i] = c + r[i]; ev("addc", i + 1, wide(c), v(i)); } else if (o == 5) { pend("subc", wide(c)); if (rng.coin(1, 2)) r[i] -= c; else r[i] = r[i] - c; ev("subc", i + 1, wide(c), v(i)); } else if (o == 6) { pend("csub", wide(c)); r[i] = c - r[i]; ev("csub", i + 1, wide(c), v(i)); } else if (o == 7) { pend("mulc", wide(c)); int z = rng(0, 2); if (z == 0) r[i] *= c; else if (z == 1) r[i] = r[i] * c; else r[i] = c * r[i]; ev("mulc", i + 1, wide(c), v(i)); } else if (o == 8) { if (rng.coin(1, 2)) { if (rng.coin(1, 2)) ++r[i]; else r[i]++; ev("inc", i + 1, v(i)); } else { if (rng.coin(1, 2)) --r[i]; else r[i]--; ev("dec", i + 1, v(i)); } } else if (o == 9) { r[i] = -r[i]; ev("neg", i + 1, v(i)); } else if (o == 10) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); rng.shuffle(p); pend("perm", p); r[i] = S::factorial_number(p); ev("perm", i + 1, p, v(i)); } else if (o == 11) { pend("toperm"); ev("toperm", i + 1, r[i].to_permutation()); } else if (o == 12) { ev("cmp", i + 1, j + 1, std::vector<bool>{r[i] == r[j], r[i] != r[j], r[i] < r[j], r[i] <= r[j], r[i] > r[j], r[i] >= r[j]}); } else { int m = rng(1, n); pend("resize", m); auto x = r[i]; x.resize(m); if (x.size() == m) ev("resize", i + 1, m, uwide(x.to_ull())); x.resize(n); } }
    finish();
}
// ---------------------------------------------------------------- rationals
template <class T> using R = S::Rational<T>;
template <class T> std::pair<W, W> pr(const R<T>& x) { return {wide(x.num), wide(x.den)}; }
template <class T> void rats(int B) {
    begin("rat", 0); std::vector<R<T>> v; v.push_back(R<T>()); v.push_back(R<T>(3)); v.push_back(R<T>(T(-2)));
    for (int i = 0; i < 8; ++i) { T n = sgn(bits(0, i % 2 ? B : 4)), d = sgn(std::max<ull>(1, bits(1, i % 2 ? B : 4))); if (i % 3 == 0) { T g = rng(1, 6); n *= g; d *= g; } pend("new", wide(n), wide(d)); R<T> x(n, d); ev("new", wide(n), wide(d), pr(x)); v.push_back(x); }
    if (B > 6) { T a = bits(B - 1, B), b = bits(B - 1, B); v.push_back(R<T>(a, b)); v.push_back(R<T>(a + 1, b)); v.push_back(R<T>(-a, b)); v.push_back(R<T>(-a, b + 1)); }
    for (int i = 0; i < 25; ++i) { auto a = rng.pick(v), b = rng.pick(v); pend("bin", pr(a), pr(b)); std::vector<std::pair<W, W>> q; R<T> s, d, p; if (rng.coin(1, 2)) { s = a + b; d = a - b; p = a * b; if (b.num != 0) q.push_back(pr(a / b)); } else { s = a; s += b; d = a; d -= b; p = a; p *= b; if (b.num != 0) { auto z = a; z /= b; q.push_back(pr(z)); } } ev("bin", pr(a), pr(b), pr(s), pr(d), pr(p), q); }
    for (int i = 0; i < 40; ++i) { auto a = rng.pick(v), b = rng.pick(v); pend("cmp", pr(a), pr(b)); ev("cmp", pr(a), pr(b), R<T>::compare(a, b), std::vector<bool>{a < b, a > b, a <= b, a >= b, a == b, a != b}); auto mn = min(a, b), mx = max(a, b); ev("minmax", pr(a), pr(b), pr(mn), pr(mx)); }
    for (auto& a : v) { pend("un", pr(a)); ev("un", pr(a), pr(-a), pr(a.abs()), a.signum(), wide(a.floor()), wide(a.ceil())); }
    for (auto& a : v) for (int s : {1, -1}) { R<T> inf(s, 0); std::pair<int, int> A{a.num > 0 ? 1 : a.num < 0 ? -1 : 0, 1}; pend("inf", pr(a)); ev("inf", A, std::make_pair(s, 0), R<T>::compare(a, inf)); ev("inf", std::make_pair(s, 0), A, R<T>::compare(inf, a)); ev("inf", std::make_pair(s, 0), std::make_pair(s, 0), R<T>::compare(inf, inf)); }
    finish();
}
void rats2() {
    begin("rat", 0);
    { std::vector<R<ll>> w; for (int i = 0; i < 4; ++i) { ll a = bits(40, 61), b = bits(i % 2 ? 40 : 1, 61); ll g = std::gcd(a, b); a /= g, b /= g; w.emplace_back(a, b); w.emplace_back(-a, b); ll q = rng(1, 3); g = std::gcd(a + q, b); w.emplace_back((a + q) / g, b / g); w.emplace_back(1, b); w.emplace_back(a, 1); if (b > 2) { ll h = 1 + bits(1, 20) % (b - 1), f = (ll)((i128)a * h / b); if (f) w.emplace_back(f, h); } }   // products would not fit in 64 bits
      for (int i = 0; i < 6; ++i) { ll g = bits(33, 50), a = bits(1, 10), b = bits(1, 10), x = bits(1, 10), y = bits(1, 10); if (!a || !b || !x || !y) continue; R<ll> p(sgn(a) * g, b), q(x, y * g); if (rng.coin(1, 2)) std::swap(p, q); pend("mulbig", pr(p), pr(q)); auto z = p * q; ev("mulbig", pr(p), pr(q), pr(z)); R<ll> qi(q.den, q.num); if (qi.den < 0) qi.num = -qi.num, qi.den = -qi.den; auto w2 = p / qi; ev("mulbig", pr(p), pr(q), pr(w2)); }
      for (int i = 0; i < 40; ++i) { auto a = rng.pick(w), b = rng.pick(w); pend("cmp", pr(a), pr(b)); ev("cmp", pr(a), pr(b), R<ll>::compare(a, b), std::vector<bool>{a < b, a > b, a <= b, a >= b, a == b, a != b}); }
      for (auto& a : w) { pend("un", pr(a)); ev("un", pr(a), pr(-a), pr(a.abs()), a.signum(), wide(a.floor()), wide(a.ceil())); ev("trunc", pr(a), wide((long long)a)); ll f = rng(1, 3); if (std::abs(a.num) < (1ll << 60) && a.den < (1ll << 60)) { R<ll> c(a.num * f, a.den * f); ev("new", wide(a.num * f), wide(a.den * f), pr(c)); } } }
    for (int i = 0; i < 12; ++i) { ll t = sgn(bits(0, 12)); int s = rng(0, 8); ll N = rng(1, 60), D = rng(1, 60); pend("approx", t, s, N, D); auto [l, r] = S::Rational<ll>::approximate((long double)t / (1 << s), N, D); ev("approx", wide(t), wide(1 << s), N, D, std::make_pair(wide(l.num), wide(l.den)), std::make_pair(wide(r.num), wide(r.den))); }
    for (int d = 0; d <= 4; ++d) { std::vector<std::pair<int, int>> a, b; for (auto& x : R<int>::stern_brocot(d)) a.emplace_back(x.num, x.den); for (auto& x : R<int>::farey_sequence(d)) b.emplace_back(x.num, x.den); ev("sbtree", d, a); ev("farey", d, b); }
    finish();
}
// ---------------------------------------------------------------- Stern-Brocot tree
template <class T> void sbt(int B, int KB) {
    typedef S::sbt_node<T> N; begin("sbt", 0); N x; ev("new", 1, 1);
    auto P = [](const std::pair<T, T>& p) { return std::make_pair(uwide(p.first), uwide(p.second)); };
    auto dump = [&] { std::vector<std::pair<bool, W>> pa; for (auto& [d, k] : x.path()) pa.emplace_back(d, uwide(k)); auto [l, r] = x.range(); ev("dump", P(x.get()), P(l), P(r), uwide(x.depth()), pa); };
    auto fr = [&](bool sm) { T a = std::max<ull>(1, bits(1, sm ? 4 : B)), b = std::max<ull>(1, bits(1, sm ? 4 : B)); return std::make_pair(a, b); };
    dump(); int n = rng(6, 16);
    while (n--) { int k = rng(0, 8); bool big = x.get().first < (T(1) << (B / 2)) && x.get().second < (T(1) << (B / 2));
        if (k == 0) { auto [a, b] = fr(rng.coin(1, 2)); pend("new", uwide(a), uwide(b)); x = rng.coin(1, 2) ? N(a, b) : N(std::make_pair(a, b)); ev("new", uwide(a), uwide(b)); } else if (k == 1 && big) { T s = rng.coin(1, 3) ? bits(1, KB) : rng(0, 4); bool d = rng.coin(1, 2); pend("down", d, uwide(s)); if (rng.coin(1, 2)) x.move_down(d, s); else if (d) x.move_down_right(s); else x.move_down_left(s); ev("down", d, uwide(s)); } else if (k == 2) { ll s = rng(-1, 12); if ((ull)x.depth() > 20 && rng.coin(1, 2)) s = (ll)x.depth() - rng(-1, 3); if (std::is_unsigned_v<T> && s < 0) s = 0; pend("up", s); ev("up", wide(s), x.move_up((T)s)); } else if (k == 3) { auto [a, b] = fr(rng.coin(2, 3)); N y(a, b); ll d = N::dist(x, y); ll s = rng.coin(1, 3) ? rng(0, 5) : rng(0, 3) == 0 ? d + rng(-1, 1) : rng(0, std::max<ll>(0, d)); if (s < 0) s = 0; pend("to", uwide(a), uwide(b), s); ev("to", uwide(a), uwide(b), wide(s), x.move_to(y, (T)s)); } else if (k == 4 && x.get().first < 1000) { typename N::sbt_path p; for (int i = rng(0, 4); i--;) p.emplace_back(rng.coin(1, 2), rng(0, 4)); std::vector<std::pair<bool, W>> q; for (auto& z : p) q.emplace_back(z.first, uwide(z.second)); pend("path"); x = N(p); ev("frompath", q); } else { auto [a, b] = fr(rng.coin(2, 3)); if (rng.coin(1, 5)) std::tie(a, b) = x.get(); N y(a, b); pend("rel", uwide(a), uwide(b)); auto c = rng.coin(1, 2) ? N::lca(x, y) : x.lca(y); ev("rel", uwide(a), uwide(b), P(c.get()), uwide(rng.coin(1, 2) ? N::dist(x, y) : x.dist(y)), x.is_ancestor_of(y), x.is_descendant_of(y), N::compare_in_order(x, y), N::compare_pre_order(x, y), N::compare_post_order(x, y), std::vector<bool>{x < y, x > y, x <= y, x >= y, x == y, x != y}); }
        dump(); }
    for (int t = 0; t < 2; ++t) { std::vector<N> q; std::vector<std::pair<W, W>> in; for (int i = rng(0, 6); i--;) { auto [a, b] = fr(rng.coin(3, 4)); q.emplace_back(a, b); in.emplace_back(uwide(a), uwide(b)); } pend("aux", in); auto T2 = N::auxiliary_tree(q); std::vector<std::pair<W, W>> nd; std::vector<std::vector<int>> g; for (int i = 0; i < T2.size(); ++i) nd.push_back(P(T2.node(i).get())), g.push_back(T2[i]); ev("aux", in, T2.root(), nd, g); }
    finish();
}
// ---------------------------------------------------------------- denominators
template <class T> void dens() {
    begin("ask", 0); std::vector<std::tuple<bool, bool, int, int, int, std::vector<int>>> o; auto V = [](auto x) { std::vector<int> r; if (x) r = {(int)x->first, (int)x->second}; return r; };
    for (int i = 0; i < 60; ++i) { T n = rng(-40, 40), q = rng.coin(1, 2) ? rng(-4, 4) : rng(-30, 30), b = rng(1, 50); pend("den", n, q, b); o.emplace_back(false, false, n, q, b, V(S::fld_denominators_positive<T>(n, q, b))); o.emplace_back(true, false, n, q, b, V(S::cld_denominators_positive<T>(n, q, b))); o.emplace_back(false, true, n, q, -b, V(S::fld_denominators_negative<T>(n, q, -b))); o.emplace_back(true, true, n, q, -b, V(S::cld_denominators_negative<T>(n, q, -b))); }
    ev("dens", o); std::vector<std::tuple<bool, bool, W, W, W, W, W>> z; const int B = sizeof(T) == 4 ? 30 : 62;
    for (int i = 0; i < 60; ++i) { T n = sgn(bits(1, B)), x = sgn(std::max<ull>(1, bits(1, B))); bool up = rng.coin(1, 2); T q = n / x; if (n % x) { if ((n < 0) == (x < 0)) q += up; else q -= !up; } bool neg = x < 0; pend("denb", up, wide(n), wide(q)); T lim = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); auto r = neg ? up ? S::cld_denominators_negative(n, q) : S::fld_denominators_negative(n, q) : up ? S::cld_denominators_positive(n, q) : S::fld_denominators_positive(n, q); if (!r) r = std::make_pair(T(1), T(0)); z.emplace_back(up, neg, wide(n), wide(q), wide(r->first), wide(r->second), wide(lim)); }
    ev("denb", z); finish();
}
// ---------------------------------------------------------------- tables of inverses and powers
template <int id> struct Tables {
    template <class M> static void run() { begin("ask", 0); const ll m = M::mod(); auto sess = [&] {
        std::vector<std::pair<W, W>> o; S::inv_mods<M> iv; if (rng.coin(1, 2)) iv = S::inv_mods<M>(rng(1, std::min<ll>(m - 1, 30))); for (int i = 0; i < 12; ++i) { int k = rng(1, std::min<ll>(m - 1, rng.coin(1, 4) ? 3000 : 40)); pend("invs", k); M x = iv[k]; o.emplace_back(wide(k), uwide(x.val())); } ev("invs", wide(m), o);
        int lo = rng(1, std::min<ll>(m - 1, 50)), hi = std::min<ll>(m - 1, rng(1, 9000)); pend("mulinv", lo, hi); M z = iv[lo] * iv[hi]; ev("mulinv", wide(m), uwide(z.val()), lo, hi);
        std::vector<M> vs; std::vector<std::pair<W, W>> g; for (int i = rng(0, 6); i--;) vs.push_back(M(rng(1, m - 1))); pend("get_invs"); auto w = S::get_invs(vs); for (size_t i = 0; i < vs.size(); ++i) g.emplace_back(uwide(vs[i].val()), uwide(w[i].val())); ev("invs", wide(m), g);
        M b = rng(0, m - 1); S::pow_mods<M> pm(b, rng(0, 20)); std::vector<std::pair<int, W>> q, q2; for (int i = 0; i < 8; ++i) { int e = rng(0, rng.coin(1, 3) ? 500 : 20); pend("pows", e); q.emplace_back(e, uwide(pm[e].val())); } ev("pows", wide(m), uwide(b.val()), q); { int e = rng(0, 30), f = rng(0, 9000); pend("pows2", e, f); M t = pm[e] * pm[f]; ev("pows", wide(m), uwide(b.val()), std::vector<std::pair<int, W>>{{e + f, uwide(t.val())}}); }
        S::static_pow_mods<-3, M> sp; if (rng.coin(1, 2)) sp = S::static_pow_mods<-3, M>(rng(0, 50)); for (int i = 0; i < 8; ++i) { int e = rng(0, rng.coin(1, 3) ? 700 : 20); q2.emplace_back(e, uwide(sp[e].val())); } ev("pows", wide(m), wide(m - 3), q2); }; sess(); sess(); finish(); }
};
int main(int argc, char** argv) {
    init(argc, argv);
    for (int i = 0; i < reps(6); ++i) { stat<1>(); stat<2>(); stat<3>(); stat<4>(); stat<7>(); stat<61>(); stat<12>(); stat<998244353>(); stat<1000000007>(); stat<2147483647>(); stat<2147483646>(); stat<1073741824>(); stat<1000000000>(); modops<S::modint2p61m1>(S::modint2p61m1::mod(), false); for (int k = 0; k < 12; ++k) dyn(); }
    for (int i = 0; i < reps(8); ++i) { barr(); mont<S::Montgomery32, unsigned, ull>(32); mont<S::Montgomery64, ull, u128>(64); mont<S::Montgomery64, ull, u128>(64); gcds(); dlog(); dens<int>(); dens<ll>(); rats<int>(13); rats<ll>(29); rats<ll>(5); rats2(); }
    for (int i = 0; i < reps(60); ++i) { bz(); bz(); bz(); { bzbig(); bzbig(true); } facn(); sbt<int>(14, 14); sbt<ll>(30, 30); sbt<unsigned>(14, 10); }
    for (int i = 0; i < reps(2); ++i) { Tables<0>::run<S::modint998244353>(); Tables<0>::run<S::static_modint<7>>(); Tables<0>::run<S::static_modint<10007>>(); }
}
