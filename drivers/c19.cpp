// Primes, sieves, factorisation, divisors, multiplicative functions, quotients, integer roots.
#include "vt.hpp"
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/deterministic_miller_rabin_simd.hpp"
#include "library/number/sieve_of_eratosthenes.hpp"
#include "library/number/sieve_of_eratosthenes_constexpr.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/util.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/kth_root_round.hpp"
#include "library/number/count_square_free.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/factorized_form.hpp"
using namespace vt; using namespace suisen;
typedef std::vector<int> VI;
// the driver's own reference arithmetic is used only to pick inputs and to offer factorisations the specification then validates
ull mulm(ull a, ull b, ull m) { return (u128)a * b % m; }
ull powm(ull a, ull e, ull m) { ull r = 1 % m; for (a %= m; e; e >>= 1, a = mulm(a, a, m)) if (e & 1) r = mulm(r, a, m); return r; }
bool refp(ull n) { if (n < 2) return false; for (ull p : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % p == 0) return n == p; } int s = __builtin_ctzll(n - 1); ull d = (n - 1) >> s; for (ull a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { ull y = powm(a, d, n); if (y == 1 || y == n - 1) continue; bool c = true; for (int r = 1; r < s && c; ++r) { y = mulm(y, y, n); if (y == n - 1) c = false; } if (c) return false; } return true; }
ull nextp(ull n) { while (!refp(n)) ++n; return n; }
ull bits(int lo, int hi) { int b = rng(lo, hi); return b == 0 ? 0 : (rng.next() >> (64 - b)) | (1ull << (b - 1)); }
typedef std::vector<std::pair<W, int>> FW;
FW reffac(ull n) { FW f; for (ull p = 2; p * p <= n && p < 3000000; ++p) { int c = 0; while (n % p == 0) n /= p, ++c; if (c) f.emplace_back(uwide(p), c); } if (n > 1) f.emplace_back(uwide(n), 1); return f; }
template <class T> W wd(T x) { if constexpr (std::is_signed_v<T>) return wide(x); else return uwide(x); }
template <class F> FW fw(const F& f) { FW r; for (auto& [p, c] : f) r.emplace_back(wd(p), c); return r; }
const std::vector<ull> TH = {341531ull, 1050535501ull, 350269456337ull, 55245642489451ull, 7999252175582851ull, 585226005592931977ull};
std::vector<ull> special() {
    std::vector<ull> v;
    for (ull t : TH) for (ll d = -3; d <= 3; ++d) v.push_back(t + d);
    for (int b : {16, 31, 32, 33, 48, 53, 62, 63}) for (ll d = -4; d <= 4; ++d) v.push_back((1ull << b) + d);
    for (int d = 1; d < 80; ++d) v.push_back(-(ull)d);
    for (ull c : {561ull, 1105ull, 1729ull, 2047ull, 2821ull, 6601ull, 8911ull, 1373653ull, 25326001ull, 3215031751ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3825123056546413051ull, 4759123141ull, 4294967297ull, 9080191ull, 121ull, 169ull, 1194649ull, 12327121ull, 18446744073709551557ull, 18446744065119617029ull, 9223372036854775783ull, 4611686014132420609ull}) v.push_back(c);
    return v;
}
template <class T> void isp(const std::vector<ull>& v) { std::vector<std::pair<W, bool>> o; for (ull n : v) { if (n > (ull)std::numeric_limits<T>::max()) continue; pend("isp", uwide(n)); o.emplace_back(uwide(n), miller_rabin::is_prime((T)n)); } ev("isp", o); }
void primes() {
    begin("num", 0);
    auto v = special(); isp<int>(v); isp<unsigned>(v); isp<ll>(v); isp<ull>(v);
    std::vector<ull> w; for (int i = 0; i < 150; ++i) { ull n = bits(1, 64); w.push_back(n | 1); ull p = bits(2, 32), q = bits(2, 32); p = nextp(p); q = nextp(q); if ((u128)p * q >> 64 == 0) w.push_back(p * q); if (p < (1ull << 32)) w.push_back(p * p); if (rng.coin(1, 2)) w.push_back(nextp(bits(2, 63))); } isp<int>(w); isp<unsigned>(w); isp<ll>(w); isp<ull>(w);
    { std::vector<std::pair<W, bool>> o; for (auto* z : {&v, &w}) for (ull n : *z) if (n < (1ull << 31)) { pend("simd", uwide(n)); o.emplace_back(uwide(n), miller_rabin_simd::is_prime((ll)n)); } ev("isp", o); }
    finish();
}
void ranges() {
    begin("num", 0);
    auto run = [&](ull a, int n) { std::vector<int> o; pend("range", uwide(a)); int k = rng(0, 3); for (int i = 0; i < n; ++i) { bool r; ull x = a + i; if (k == 0 && x <= INT_MAX) r = miller_rabin::is_prime((int)x); else if (k == 1 && x < (1ull << 31)) r = miller_rabin_simd::is_prime((ll)x); else if (k == 2 && x < (1ull << 63)) r = miller_rabin::is_prime((ll)x); else r = miller_rabin::is_prime(x); if (r) o.push_back(i); } ev("prange", uwide(a), n, o); };
    run(0, 3000); run(bits(12, 19), 1500); run(bits(20, 31), 1000); run(bits(32, 63), 400); run(-(ull)300, 300); run(rng.pick(TH) - 200, 400);
    finish();
}
void semis() {   // (k+1)(ck+1) and neighbours: the classical sources of strong pseudoprimes, none of them prime
    begin("num", 0); std::vector<W> o; pend("semis");
    for (int i = 0; i < reps(6000); ++i) { int b = rng(4, 31); ull c = rng(2, 6); ull k = bits(b, b); ull p = k + 1; if (!refp(p)) { p = nextp(p); k = p - 1; } u128 q = (u128)c * k + 1; u128 n = q * p; if (n >> 64 || !refp((ull)q)) { q = p; n = q * p; if (n >> 64) continue; } ull x = (ull)n; bool r = miller_rabin::is_prime(x); if (x < (1ull << 63)) r |= miller_rabin::is_prime((ll)x); if (x < (1ull << 31)) r |= miller_rabin::is_prime((int)x) || miller_rabin_simd::is_prime((ll)x); if (r) o.push_back(uwide(x)); }
    // every composite below the first thresholds, odd and free of tiny factors: all products of two primes up to a limit
    for (ull p = 11; p < 700; p = nextp(p + 1)) for (ull q = p; q < 1500; q = nextp(q + 1)) { ull x = p * q; if (miller_rabin::is_prime(x) || miller_rabin::is_prime((int)x) || miller_rabin_simd::is_prime((ll)x)) o.push_back(uwide(x)); }
    ev("semi", o); finish();
}
template <unsigned N> void sieve() {
    begin("num", 0);
    { pend("SimpleSieve", (int)N); SimpleSieve<N> s; if (rng.coin(1, 2)) { SimpleSieve<N> t; } ev("prange", 0, (int)N + 1, s.prime_list()); for (int i = 0; i < 2; ++i) { int m = rng(0, N); pend("prime_list", (int)N, m); ev("prange", 0, m + 1, s.prime_list(m)); } VI o; for (unsigned i = 0; i <= N; ++i) if (s.is_prime(i)) o.push_back(i); ev("prange", 0, (int)N + 1, o); }
    { pend("Sieve", (int)N); static Sieve<N> s; if (rng.coin(1, 2)) { Sieve<N> t; } VI o; for (unsigned i = 0; i <= N; ++i) if (s.is_prime(i)) o.push_back(i); ev("prange", 0, (int)N + 1, o);
      std::vector<std::pair<int, int>> pf; for (unsigned i = 2; i <= N; i += 1 + (N > 300 ? rng(0, N / 60) : 0)) { pend("prime_factor", (int)i); pf.emplace_back((int)i, s.prime_factor(i)); } ev("mpf", pf, false);
      if (N <= 1000) { std::vector<std::vector<std::pair<int, int>>> f; for (unsigned i = 1; i <= N; ++i) f.push_back(s.factorize(i)); ev("lfact", f, false); }
      for (int i = 0; i < 6; ++i) { int n = i ? rng(1, N) : N; pend("factorize", n); auto f = s.factorize(n); ev("fact", n, f); ev("divs", n, f, s.divisors(n)); } }
    { pend("LinearSieve", (int)N); LinearSieve s(N); ev("prange", 0, (int)N + 1, s.get_prime_list()); ev("isp", std::vector<std::pair<int, bool>>{}); std::vector<std::pair<int, int>> pf; auto& m = s.get_min_prime_factor(); for (unsigned i = 2; i <= N; i += 1 + (N > 300 ? rng(0, N / 60) : 0)) pf.emplace_back((int)i, m[i]); ev("mpf", pf, true); for (int i = 0; i < 6; ++i) { int n = i ? rng(1, N) : N; ev("afact", n, s.factorize(n)); } VI pl = s.get_prime_list(); pl.resize(s.prime_num(), -1); ev("prange", 0, (int)N + 1, pl); }
    { pend("Mobius", (int)N); auto s = std::make_unique<MobiusFunction<N>>(); VI o, mu; for (unsigned i = 0; i <= N; ++i) if (s->is_prime(i)) o.push_back(i); ev("prange", 0, (int)N + 1, o); for (unsigned i = 1; i <= N && i <= 400; ++i) mu.push_back(i % 3 == 0 ? (*s)(i) : i % 3 == 1 ? (*s)[i] : s->mobius(i)); ev("mus", mu);
      std::vector<std::pair<int, int>> pf; for (unsigned i = 2; i <= N; i += 1 + (N > 300 ? rng(0, N / 60) : 0)) pf.emplace_back((int)i, s->min_prime_factor(i)); ev("mpf", pf, true); for (int i = 0; i < 6; ++i) { int n = i ? rng(1, N) : N; auto f = s->factorize(n); ev("afact", n, f); int m = s->mobius(n); ev("mertd", n, f, 0, m); } }
    finish();
}
template <unsigned N> void csieve() {
    begin("num", 0); pend("constexpr", (int)N);
    { static constexpr SimpleSieveConstexpr<N> s; VI o; for (unsigned i = 0; i <= N; ++i) if (s.is_prime(i)) o.push_back(i); ev("prange", 0, (int)N + 1, o); }
    { static constexpr SieveConstexpr<N> s; VI o; for (unsigned i = 0; i <= N; ++i) if (s.is_prime(i)) o.push_back(i); ev("prange", 0, (int)N + 1, o); std::vector<std::pair<int, int>> pf; for (unsigned i = 2; i <= N; i += 1 + (N > 300 ? rng(0, N / 60) : 0)) pf.emplace_back((int)i, s.prime_factor(i)); ev("mpf", pf, false); }
    finish();
}
void bigsieve() {
    begin("num", 0); static Sieve<1000000> s; static SimpleSieve<1000000> t; static LinearSieve l(1000000);
    for (int i = 0; i < 8; ++i) { int a = i == 0 ? 999000 : rng(0, 999000); VI o, q; for (int k = 0; k <= 1000; ++k) { if (s.is_prime(a + k)) o.push_back(k); if (t.is_prime(a + k)) q.push_back(k); } ev("prange", a, 1001, o); ev("prange", a, 1001, q); }
    for (int i = 0; i < 40; ++i) { int n = i == 0 ? 1000000 : i < 10 ? 1000000 - rng(0, 60) : i < 20 ? std::min(1000000, (int)(nextp(rng(7, 990)) * nextp(rng(7, 990)))) : rng(1, 1000000); pend("sieve", n); auto f = s.factorize(n); ev("fact", n, f); ev("divs", n, f, s.divisors(n)); ev("afact", n, l.factorize(n)); }
    finish();
}
ull mk(ull lim) {   // numbers with interesting factorisations, at most lim
    for (;;) { int k = rng(0, 7); u128 n = 1; int B = 64 - __builtin_clzll(lim);
        if (k == 0) n = bits(1, B); else if (k == 1) n = nextp(bits(2, B - 1)); else if (k == 2) { ull p = nextp(bits(2, B / 2)); n = (u128)p * p; } else if (k == 3) { ull p = nextp(bits(2, B / 2)), q = nextp(bits(2, B / 2)); n = (u128)p * q; } else if (k == 4) { ull p = nextp(bits(2, B / 3 + 1)); n = (u128)p * p * p; } else if (k == 5) { while (n <= lim) { u128 m = n * nextp(bits(1, 5)); if (m > lim || rng.coin(1, 20)) break; n = m; } } else if (k == 6) n = lim - rng(0, 50); else { ull p = nextp(bits(1, std::max(1, B / 4))), q = nextp(bits(1, std::max(1, B / 4))); n = (u128)p * p * q * q; }
        if (n >= 1 && n <= lim) return (ull)n; }
}
template <class T> void facts(ull lim, ull slow) {
    begin("num", 0);
    for (int i = 0; i < 12; ++i) { T n = i == 0 ? 1 : i == 1 ? std::min<ull>(lim, 1000000) : i == 2 ? std::min<ull>(lim, 1000001) : i == 3 ? lim : mk(i % 3 ? lim : std::min<ull>(lim, 1u << rng(20, 31))); pend("fast_factorize", wd(n)); auto f = fast_factorize::factorize(n); ev("fact", wd(n), fw(f)); }
    for (int i = 0; i < 8; ++i) { T n = i == 0 ? 1 : i == 1 ? slow : i == 2 ? (T)nextp(slow / 2) : mk(slow); pend("factorize", wd(n)); auto f = suisen::factorize(n); ev("afact", wd(n), fw(f)); pend("totient", wd(n)); ev("phi", wd(n), fw(f), wd(rng.coin(1, 2) ? totient(n) : totient(f))); pend("carmichael", wd(n)); ev("lam", wd(n), fw(f), wd(rng.coin(1, 2) ? carmichael(n) : carmichael(f)));
        int c = 1; for (auto& [p, q] : f) c *= q + 1; if (c <= 400) { pend("divisors", wd(n)); auto d = rng.coin(1, 2) ? divisors(n) : divisors(f); std::vector<W> o; for (T x : d) o.push_back(wd(x)); ev("divs", wd(n), fw(f), o); } }
    for (int i = 0; i < 10; ++i) { ll a = rng(-7, 12); int b = rng(0, 12); if (std::is_unsigned_v<T>) a = std::abs(a); if (sizeof(T) == 4 && std::pow((double)std::abs(a), b) > 2e9) continue; pend("powi", a, b); ev("powi", a, b, wd(powi((T)a, b))); }
    finish();
}
void tables() {
    begin("num", 0);
    for (int n : {0, 1, 2, (int)rng(3, 60)}) { pend("tables", n); auto t = divisors_table(n); t.erase(t.begin()); ev("dtab", n, t); }
    for (int n : {0, 1, 2, 3, (int)rng(3, 400), 400}) { pend("tables", n); auto t = totient_table(n); t.erase(t.begin()); ev("phis", t); }
    VI p, l, q; for (int i = 1; i <= 400; ++i) p.push_back(totient(i)); for (int i = 1; i <= 70; ++i) l.push_back(carmichael(i)); ev("phis", p); ev("lams", l);
    for (int i = 1; i <= 400; ++i) q.push_back(count_square_free(i)); pend("sqf"); ev("sqfs", q);
    VI m, s; for (int i = 1; i <= 400; ++i) { pend("sum", i); m.push_back(SumOfMobiusFunction<ll>(i)()); s.push_back(SumOfTotientFunction<ll>(i)()); } ev("merts", m); ev("phisums", s);
    { std::vector<std::vector<std::pair<int, int>>> a, b; for (int i = 1; i <= 600; ++i) { a.push_back(suisen::factorize(i)); b.push_back(fast_factorize::factorize(i)); } ev("lfact", a, true); ev("lfact", b, false); }
    finish();
}
template <class T> void quots(ull lim) {
    begin("num", 0);
    for (int i = 0; i < 14; ++i) { T n = i < 5 ? i : i < 8 ? rng(5, 60) : i < 10 ? (T)(rng(2, 60) * rng(2, 60)) : i < 12 ? (T)std::pow(rng(2, 90), 2) - (i == 11) : (T)rng(1000, 40000); n = std::min<ull>(n, lim); pend("quo", wd(n)); auto r = quotient_ranges(n); std::vector<std::array<T, 3>> o; for (auto& [a, b, c] : r) o.push_back({a, b, c}); ev("quo", wd(n), o, quotient_num(n), enumerate_quotients(n)); }
    for (int i = 0; i < 30; ++i) { ull s = bits(2, std::min(31, (int)(64 - __builtin_clzll(lim)) / 2)); ull n = i % 3 == 0 ? s * s : i % 3 == 1 ? s * (s + 1) : bits(2, 62); if (i % 2) n -= 1; n = std::min(n, std::min<ull>(lim, 1ull << 62)); pend("quon", uwide(n)); ev("quon", uwide(n), wd(quotient_num((T)n))); }
    finish();
}
void quots2() {
    begin("num", 0);
    for (int i = 0; i < 5; ++i) { std::vector<int> v; int k = rng(1, 3); while (k--) v.push_back(rng.coin(1, 8) ? 0 : rng(0, i < 3 ? 30 : 2000)); pend("mquo", v); auto r = multiple_quotients_ranges(v); ev("mquo", v, r); if (v.size() == 2) { std::array<ll, 2> a{v[0], v[1]}; auto s = multiple_quotients_ranges(a); ev("mquo", a, s); } }
    static int qc = 0; ++qc; for (int t = 0; t < (qc % 3 == 1 ? 3 : 1); ++t) { ull n = t == 0 ? bits(34, 44) : t == 1 ? bits(45, 53) : bits(54, 54); if (rng.coin(1, 4)) { ull s = bits(20, 26); n = s * s + rng(-1, 1); } if (t == 1 && rng.coin(1, 2)) n = (1ull << 53) - 1 - rng(0, 3); if (t == 2) n |= 1; if (rng.coin(1, 3) && t < 2) n = n / 2520 * 2520 - 1; pend("foreach_quotients", uwide(n)); ull h = std::sqrt((long double)n); ull i = 0; std::vector<std::pair<W, W>> o; ull last = 0; bool up = true; ull step = h / 150 + 1, nx = 0; foreach_quotients((ll)n, [&](ll x) { ++i; up = up && (ull)x > last; last = x; if (i < 40 || (i > h - 40 && i < h + 40) || i > 2 * h - 60 || i >= nx) { o.emplace_back(uwide(i), wide(x)); if (i >= nx) nx += step; } }); ev("quob", uwide(n), uwide(i), up, o); }
    finish();
}
template <class T> void roots() {
    begin("num", 0); std::vector<std::tuple<W, int, W, W>> o; const ull M = std::numeric_limits<T>::max();
    auto one = [&](ull x, int k) { if (x > M) return; pend("root", uwide(x), k); T a = floor_kth_root((T)x, k), b = ceil_kth_root((T)x, k); o.emplace_back(uwide(x), k, wd(a), wd(b)); };
    for (int k = 1; k <= 70; ++k) { for (ull x : {0ull, 1ull, 2ull, 3ull, M, M - 1}) one(x, k); if (k >= 2 && k < 64) { int t = 0; while (t < 6) { int mb = std::max(1, 63 / k); ull r = t == 0 ? 2 : t == 1 ? 3 : t <= 3 ? (ull)std::pow((long double)M, 1.0L / k) - (t - 2) : bits(1, mb); ++t; u128 x = 1; bool ok = r >= 1; for (int i = 0; i < k && ok; ++i) { x *= r; if (x > M) ok = false; } if (!ok) continue; for (int d = -1; d <= 1; ++d) if ((u128)x + d <= M) one((ull)x + d, k); } } }
    for (int i = 0; i < 60; ++i) one(bits(1, 64), rng(1, 12));
    ev("root", o); finish();
}
template <class T> void sums() {
    begin("num", 0);
    for (int i = 0; i < 3; ++i) { ull n = i == 0 ? rng(1, 40) : i == 1 ? rng(400, 3000) : rng(3000, 20000); std::vector<ull> qs; for (ull d = n; d >= 1; --d) { ull q = n / d; if (qs.empty() || qs.back() != q) qs.push_back(q); } int m = qs.size(); VI pos; if (m < 40) for (int j = 1; j <= m; ++j) pos.push_back(j); else for (int j = 0; j < 8; ++j) pos.push_back(j == 0 ? m : rng(1, m));
        pend("mobius", uwide(n)); SumOfMobiusFunction<T> a(n); SumOfTotientFunction<T> b(n); std::vector<std::pair<W, W>> A, B; for (ull q : qs) { ull d = n / q; if (rng.coin(1, 2)) { ull lo = n / (q + 1) + 1; d = rng(lo, d); } pend("mobius", uwide(n), uwide(d)); A.emplace_back(uwide(q), wd(a(d))); B.emplace_back(uwide(q), wd(b(d))); }
        ev("mertall", uwide(n), A, pos); ev("phiall", uwide(n), B, pos); }
    for (int i = 0; i < 3; ++i) { ull n = bits(8, 20 + 3 * i); pend("diff", uwide(n)); auto f = reffac(n); ev("mertd", uwide(n), f, wd(SumOfMobiusFunction<T>(n - 1)()), wd(SumOfMobiusFunction<T>(n)())); ev("phid", uwide(n), f, wd(SumOfTotientFunction<T>(n - 1)()), wd(SumOfTotientFunction<T>(n)())); }
    { ll n = i128(bits(8, 24)); pend("sqf", n); std::vector<std::pair<W, W>> S; std::vector<ll> vs; ll h = std::sqrt((long double)n); for (ll d = h; d >= 1; --d) { ll v = n / (d * d); if (vs.empty() || vs.back() != v) vs.push_back(v); } for (ll v : vs) { pend("sqf", wide(v)); S.emplace_back(wide(v), wide(count_square_free(v))); } VI pos{(int)S.size()}; for (int j = 0; j < 4; ++j) pos.push_back(rng(1, S.size())); ev("sqfall", wide(n), S, pos); }
    for (int i = 0; i < 6; ++i) { ull n = i == 5 ? bits(40, 44) : bits(4, 36); pend("sqfd", uwide(n)); ev("sqfd", uwide(n), reffac(n), wide(count_square_free(n - 1)), wide(count_square_free(n))); }
    for (ll n : {0ll, -1ll, -5ll}) ev("powi", 0, 1, wide(count_square_free(n)));
    finish();
}
void bigsums() {   // past 32 bits, where a table of tabulated values and the step from n-1 to n decide
    begin("num", 0); ull t = 1;
    for (int k = 0; k <= 10; ++k, t *= 10) { pend("known", uwide(t)); ev("known", k, wide(SumOfMobiusFunction<ll>(t)()), wide(SumOfTotientFunction<__int128_t>(t)()), wide(count_square_free(t))); }
    ull n = bits(33, 34); pend("diff", uwide(n)); auto f = reffac(n); ev("mertd", uwide(n), f, wd(SumOfMobiusFunction<ll>(n - 1)()), wd(SumOfMobiusFunction<ll>(n)())); ev("phid", uwide(n), f, wide(SumOfTotientFunction<__int128_t>(n - 1)()), wide(SumOfTotientFunction<__int128_t>(n)()));
    finish();
}
void forms() { begin("num", 0); FactorizedForm<int> f{{2, 3}, {5, 1}}; std::vector<std::pair<int, int>> o; for (auto [p, c] : f) o.emplace_back(p, c); const auto& g = f[0]; o.emplace_back(g.get<0>() + 1, g.get<1>() - 2); ev("fact", 120, o); finish(); }
int main(int argc, char** argv) {
    init(argc, argv); forms(); bigsums();
    for (int i = 0; i < reps(2); ++i) { primes(); ranges(); tables(); bigsieve(); }
    semis();
    for (int i = 0; i < reps(1); ++i) { sieve<1>(); sieve<2>(); sieve<3>(); sieve<4>(); sieve<5>(); sieve<6>(); sieve<7>(); sieve<8>(); sieve<28>(); sieve<29>(); sieve<30>(); sieve<31>(); sieve<47>(); sieve<48>(); sieve<49>(); sieve<50>(); sieve<59>(); sieve<60>(); sieve<61>(); sieve<89>(); sieve<90>(); sieve<119>(); sieve<120>(); sieve<121>(); sieve<122>(); sieve<168>(); sieve<169>(); sieve<288>(); sieve<289>(); sieve<359>(); sieve<360>(); sieve<361>(); sieve<528>(); sieve<529>(); sieve<840>(); sieve<841>(); sieve<899>(); sieve<900>(); sieve<959>(); sieve<960>(); sieve<961>(); sieve<962>(); sieve<1000>(); sieve<1368>(); sieve<1369>(); sieve<3480>(); sieve<3481>(); sieve<3720>(); sieve<3721>(); sieve<10007>();
        csieve<1>(); csieve<2>(); csieve<5>(); csieve<7>(); csieve<29>(); csieve<30>(); csieve<31>(); csieve<48>(); csieve<49>(); csieve<120>(); csieve<121>(); csieve<361>(); csieve<959>(); csieve<961>(); csieve<1369>(); csieve<3721>(); }
    for (int i = 0; i < reps(10); ++i) { facts<int>(INT_MAX, INT_MAX); facts<unsigned>(UINT_MAX, UINT_MAX); facts<ll>(LLONG_MAX, 1000000000000ll); facts<ull>(ULLONG_MAX, 1000000000000ull); quots<int>(INT_MAX); quots<ll>(LLONG_MAX); quots2(); roots<int>(); roots<ll>(); roots<ull>(); roots<unsigned>(); sums<ll>(); }
}
