// Combinatorial sequences, binomials, factorials and sums.
#include "vt.hpp"
#include <sstream>
#include <set>
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/fps.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/factorial.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/math/factorial_large.hpp"
#include "library/math/product_of_differences.hpp"
#include "library/math/sum_i^d_r^i.hpp"
#include "library/math/util.hpp"
using namespace vt; namespace S = suisen; typedef std::vector<int> VI;
using mint = atcoder::modint998244353; using p7 = atcoder::modint1000000007;
template <class V> VI o(const V& v) { VI r; for (auto& x : v) r.push_back(x.val()); return r; }
template <class V> std::vector<VI> oo(const V& v) { std::vector<VI> r; for (auto& x : v) r.push_back(o(x)); return r; }
template <class M> std::vector<M> conv(const std::vector<M>& a, const std::vector<M>& b) { if (a.empty() || b.empty()) return {}; std::vector<M> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }

template <class F> void seqs(int n) {
    typedef typename F::value_type M; begin("comb", (int)M::mod());
    pend("bell", n); ev("bell", n, o(S::bell_number<F>(n))); pend("bernoulli", n); ev("bernoulli", n, o(S::bernoulli_number<F>(n))); pend("eulerian", n); ev("eulerian", n, o(S::eulerian_number<F>(n))); pend("partition", n); ev("partition", n, o(S::partition_number<F>(n)));
    pend("s1", n); ev("s1", n, o(S::stirling_number1<F>(n))); ev("s1rev", n, o(S::stirling_number1_reversed<F>(n))); pend("s2", n); ev("s2", n, o(S::stirling_number2<F>(n)));
    int k = rng(0, n < 20 ? 12 : 30), m = rng(0, 20); pend("sum_of_powers", m, k); ev("powsum", m, k, o(S::sum_of_powers<F>(m, k))); m = rng(1, 1000000000); ev("powsumd", m, k, o(S::sum_of_powers<F>(m, k)), o(S::sum_of_powers<F>(m - 1, k)));
    finish();
}
template <class M> void tables(int n) {
    begin("comb", (int)M::mod()); pend("tables", n); ev("montmort", n, o(S::montmort_number<M>(n))); ev("bintab", n, oo(S::binom_table<M>(n))); ev("s1tab", n, oo(S::stirling_number1_table<M>(n))); ev("s2tab", n, oo(S::stirling_number2_table<M>(n))); ev("eultab", n, oo(S::eulerian_number_table<M>(n)));
    ll k = rng.coin(1, 2) ? rng(0, 5) : rng(0, 1000000000000LL); pend("powers", n, k); ev("powers", n, wide(k), o(S::powers<M>(n, k))); int q = rng(0, 12); pend("s1k", n, q); ev("s1k", n, q, o(S::stirling_number1_reversed<M>((ll)n, q)));
    finish();
}
template <class M> void s1big() { begin("comb", (int)M::mod()); for (int t = 0; t < 3; ++t) { ll n = rng(0, 1000000000000000000LL); if (t == 0) n = (ll)M::mod() * rng(1, 5) + rng(-2, 2); int k = rng(0, 5); pend("s1kbig", n, k); ev("s1kbig", wide(n), k, o(S::stirling_number1_reversed<M>(n, k))); } finish(); }
template <int p> void smallp() {
    using M = atcoder::static_modint<p>; begin("comb", p); S::StirlingNumber1SmallPrimeMod<M> s1; S::StirlingNumber2SmallPrimeMod<M> s2; S::BinomialCoefficientSmallPrimeMod<M> bi;
    for (int t = 0; t < 3; ++t) { int n = rng(0, std::min(70, 4 * p + 4)); VI a, b; pend("small", n); for (int k = -1; k <= n + 1; ++k) { a.push_back(s1(n, k).val()); b.push_back(s2(n, k).val()); ev("binom", n, k, bi(n, k).val()); } ev("s1small", n, a); ev("s2small", n, b); }
    for (int t = 0; t < 12; ++t) {
        ll n = rng(0, t % 3 ? 1000000000000000LL : 3000); if (t % 4 == 0) { n = 1; for (int i = rng(1, 6); i--;) n *= p; n += rng(-2, 2); } if (n < 1) n = 1; ll k = rng.coin(1, 2) ? rng(0, n) : rng.coin(1, 2) ? n - rng(0, std::min<ll>(n, 2 * p)) : std::min<ll>(n, rng(0, 40)); if (t % 5 == 0) k = (n / p + (p - 1) * rng(0, n / p)) , k = std::min(k, n); pend("large", n, k);
        ev("recur", wide(n), s1(n + 1, k).val(), s1(n, k - 1).val(), s1(n, k).val()); ev("recur", wide(k), s2(n + 1, k).val(), s2(n, k - 1).val(), s2(n, k).val()); ev("pascal", bi(n + 1, k).val(), bi(n, k - 1).val(), bi(n, k).val()); ll r = rng(0, 30); ev("binom", wide(n), wide(r), bi(n, r).val()); ev("binom", wide(n), wide(n - r), bi(n, n - r).val());
    }
    finish();
}
void smallmod(int m) {
    begin("comb", m); pend("binom_small_mod", m); S::binom_small_mod b(m); 
    for (int t = 0; t < 14; ++t) { int n = rng(0, 90), k = rng(-1, n + 1); if (t % 4 == 0) { n = std::min(90, m); k = rng(0, n); } ev("binom", n, k, b(n, k)); ll N = rng(0, t % 2 ? 4000000000000000000LL : 100000), r = std::min<ll>(N, rng(0, 40)), K = rng(1, N + 1); pend("binom", N, r, K); ev("binom", wide(N), wide(r), b(N, r)); ev("binom", wide(N), wide(N - r), b(N, N - r)); ev("pascal", b(N + 1, K), b(N, K - 1), b(N, K)); }
    finish();
}
template <int m> void enumer() { using M = atcoder::static_modint<m>; begin("comb", m); for (int n : { 0, 1, 2, (int)rng(3, 20), (int)rng(21, 90) }) { pend("enum", n); S::ArbitraryModBinomialCoefficients<M> b(n); ev("enum", n, o(b.get_coeffs())); VI v; for (int i = 0; i <= n; ++i) v.push_back(b[i].val()); ev("enum", n, v); } finish(); }
void offline(int t) {
    begin("comb", (int)mint::mod()); std::vector<std::pair<ll, int>> q(t == 0 ? 0 : rng(1, 12)); int R = t % 4 == 1 ? 0 : t % 4 == 2 ? 3 : 40; std::vector<std::pair<W, int>> w; for (auto& [n, r] : q) { n = rng(0, t % 3 ? 60 : 1000000000000000000LL); r = rng(0, R); if (rng.coin(1, 5)) n = r - rng(0, 2); w.emplace_back(wide(n), r); } pend("binoms", w); ev("binoms", w, o(S::binomial_coefficient_small_r_offline<mint>(q)));
    finish();
}
template <class M> void sums(int t) {
    begin("comb", (int)M::mod()); std::vector<std::pair<int, int>> q(t == 0 ? 0 : rng(1, 15)); std::vector<std::tuple<int, int, int>> q3; for (auto& [n, m] : q) { m = rng(-1, 30); n = rng(-2, m + 3); if (rng.coin(1, 6)) n = m = 0; int a = rng(-2, 20); q3.emplace_back(a, a + (int)rng(-1, 15), m); }
    std::vector<std::array<int, 3>> w; for (auto [a, b, m] : q3) w.push_back({a, b, m}); ll r = rng.coin(1, 3) ? -1 : rng.coin(1, 4) ? 0 : rng.coin(1, 2) ? 1 : rng(-9, 1000000); pend("binom_sum", r, q); ev("binprefix", (int)r, q, o(S::binom_sum_prefix<M>(q, M(r)))); pend("binom_sum", r, w); ev("binrange", (int)r, w, o(S::binom_sum<M>(q3, M(r)))); 
    int d = rng(0, 8); r = rng.coin(1, 4) ? 0 : rng.coin(1, 3) ? 1 : rng(-3, 50); pend("sum_i^d_r^i", d, r); S::sum_i_i_pow_d_r_pow_i<M> s(d, M(r)); if (r != 1) { ev("irinf", d, (int)r, s.sum().val()); } int n = rng(0, 25); ev("irsum", n, d, (int)r, s.sum(n).val()); ll N = rng(1, 1000000000000000LL); int rr = M(r).val(); ev("irstep", wide(N), d, rr, s.sum(N + 1).val(), s.sum(N).val()); 
    n = rng(0, 20); int m = rng(0, 12); 
#ifndef NO_IRSUMS
    if constexpr (std::is_same_v<M, mint>) { pend("sum_i^d_r^i vector", n, d, r, m); ev("irsums", n, d, (int)r, m, o(s.sum((ll)n, m))); pend("sum_i^d_r^i vector", wide(N), d, r, m); auto w = s.sum(N, m + 1); if ((int)w.size() != m + 1) pend("size"); ev("irstep", wide(N - 1), d, rr, w[0].val(), s.sum(N - 1).val()); for (int j = 0; j < m; ++j) ev("irstep", wide(N + j), d, rr, w[j + 1].val(), w[j].val()); }
#endif
    finish();
}
template <class M> void facs() {
    begin("comb", (int)M::mod()); S::factorial<M> f; for (int t = 0; t < 10; ++t) { int n = rng(0, rng.coin(1, 4) ? 300 : 40), r = rng(-1, n + 1); if (rng.coin(1, 6)) n = -n; if (n >= 0) { ev("fac", n, (rng.coin(1, 2) ? f.fac(n) : f(n)).val()); ev("facinv", n, f.fac_inv(n).val()); } ev("binom", n, r, f.binom(n, r).val()); ev("perm", n, r, f.perm(n, r).val()); if (n <= 60) { int a = rng(-1, 12), b = rng(0, 12), c = rng(0, 12); if (rng.coin(1, 3) && n >= a + b) c = n - a - b; ev("multinom", n, VI{a, b, c}, f.polynom(n, a, b, c).val()); ev("multinom", n, VI{b}, f.polynom(n, b).val()); } }
    for (int t = 0; t < 6; ++t) { int n = rng(0, 9), x = rng(-n - 2, n + 2); auto bn = [&](int k) { return f.binom(n, k); }; ev("walk1", n, x, S::random_walk_1d<M>(n, x).val()); ev("walk1", n, x, S::random_walk_1d<M>(n, x, bn).val()); int N = rng(0, 5), y = rng(-N - 1, N + 1), z = rng(-N - 1, N + 1); auto bm = [&](int k) { return f.binom(N, k); }; ev("walk2", N, y, z, S::random_walk_2d<M>(N, y, z).val()); ev("walk2", N, y, z, S::random_walk_2d<M>(N, y, z, bm).val()); }
    finish();
}
// a table growing towards a small modulus
template <int p> void facsmall() { using M = atcoder::static_modint<p>; begin("comb", p); S::factorial<M> f; for (int n = rng(0, 3); n < p; n += rng(1, std::max(1, p / 4))) { pend("factorial below the modulus", n); int r = rng(0, n); ev("fac", n, f.fac(n).val()); ev("facinv", n, f.fac_inv(n).val()); ev("binom", n, r, f.binom(n, r).val()); } finish(); }
template <int p> void faclarge() {
    using M = atcoder::static_modint<p>; using L = S::factorial_large<M>; L::threshold = 40; begin("comb", p);
    for (int t = 0; t < 8; ++t) { int n = t == 0 ? 512 * (int)rng(1, 3) : t == 1 ? 512 * (int)rng(0, 3) + 256 + (int)rng(0, 1) : t == 2 ? 511 : rng(0, 1500); pend("fac", n); ev("fac", n, L::fac(n).val()); ev("facinv", n, L::fac_inv(n).val()); int r = rng(-1, n + 1); if (rng.coin(1, 2)) r = std::min<int>(n, rng(0, 50)); ev("binom", n, r, L::binom(n, r).val()); ev("perm", n, r, L::perm(n, r).val()); int a = rng(0, 30), b = rng(-1, 300); ev("multinom", n, VI{a, b}, L::polynom(n, a, b).val()); }
    for (int t = 0; t < 12; ++t) { int n = t == 0 ? p - 1 : t == 1 ? (p >> 9) * 512 : t == 2 ? (p >> 9) * 512 + 1 : t == 3 ? p - 2 : t == 4 ? (p >> 9) * 512 - 200 : t == 5 ? std::min(p - 1, (p >> 9) * 512 + 300) : rng(1, p - 1); n = std::min(n, p - 1); pend("facstep", n); ev("facstep", n, L::fac(n).val(), L::fac(n - 1).val()); ev("inverse", L::fac(n).val(), L::fac_inv(n).val()); }
    for (int t = 0; t < 3; ++t) { ll n = t == 0 ? (ll)p + rng(0, 2) : (1ll << rng(32, 61)) + rng(0, 5); pend("facbig", wide(n)); ev("facbig", wide(n), L::fac(n).val()); }
    { int n = rng(p / 2, p - 1), d = rng(n / 2 + 1, n); ev("multi0", n, VI{d, d, n, d, n, d}, L::polynom(n, d, d, n, d, n, d).val()); ev("multi0", n, VI{n, d, n, d, n}, L::polynom(n, n, d, n, d, n).val()); ev("multi0", n, VI{n, n, n, n}, L::polynom(n, n, n, n, n).val()); ev("multi0", n, VI{d, n, d}, L::polynom(n, d, n, d).val()); }
    ev("wilson", L::fac(p - 1).val()); 
    finish();
}
template <int MOD, int B> void embed() {
    begin("comb", MOD); std::ostringstream s; S::write_embeded_factorial<MOD, B>(s); std::string t = s.str(), line; std::istringstream in(t); VI head, f; auto num = [](const std::string& l) { return std::stoi(l.substr(l.find('=') + 1)); };
    while (std::getline(in, line)) { if (line.find(" MOD =") != line.npos || line.find(" B =") != line.npos || line.find(" D =") != line.npos) head.push_back(num(line)); size_t i = line.find_first_not_of(' '); if (i != line.npos && isdigit(line[i])) { std::istringstream v(line); std::string x; while (std::getline(v, x, ',')) if (x.find_first_of("0123456789") != x.npos) f.push_back(std::stoi(x)); } }
    ev("embed", MOD, B, head, f); finish();
}
template <class F> void diffs(int t) { typedef typename F::value_type M; begin("comb", (int)M::mod()); std::vector<M> x(t % 9 == 0 ? t / 9 % 3 : rng(1, t % 5 == 0 ? 40 : 9)); for (auto& v : x) v = rng.coin(1, 2) ? M((int)rng(0, 5)) : M((ll)rng(0, 2000000000)); pend("differences", o(x)); ev("differences", o(x), o(S::product_of_differences<F>(x))); finish(); }
int main(int argc, char** argv) {
    init(argc, argv); using F = S::FPS<mint>; using F7 = S::FPS<p7>; using G = S::FormalPowerSeries<mint>; F::set_multiplication([](const std::vector<mint>& a, const std::vector<mint>& b) { return atcoder::convolution(a, b); }); F7::set_multiplication(conv<p7>);
    for (int i = 0; i < reps(20); ++i) { int n = i < 14 ? i : i % 7 == 0 ? rng(60, 90) : rng(1, 40); seqs<F>(n); seqs<G>(n); seqs<F7>(n); tables<mint>(i < 10 ? i : rng(0, 25)); tables<p7>(rng(0, 25)); s1big<mint>(); s1big<p7>(); }
    for (int i = 0; i < reps(10); ++i) { smallp<2>(); smallp<3>(); smallp<5>(); smallp<7>(); smallp<13>(); smallp<31>(); smallp<97>(); }
    for (int i = 0; i < reps(40); ++i) { static const int ms[] = {1, 2, 4, 8, 16, 3, 9, 27, 5, 25, 6, 12, 30, 36, 72, 49, 64, 100, 1000, 210, 1009, 3996001, 1042441}; smallmod(i < 23 ? ms[i] : i % 10 == 0 ? rng(2, 100000) : rng(2, 300)); }
    for (int i = 0; i < reps(8); ++i) { enumer<1000>(); enumer<6>(); enumer<720720>(); enumer<998244353>(); enumer<64>(); enumer<7>(); enumer<2>(); enumer<999999999>(); enumer<1>(); }
    for (int i = 0; i < reps(40); ++i) { offline(i); sums<mint>(i); sums<p7>(i); facs<mint>(); facs<p7>(); diffs<F>(i); diffs<G>(i); }
    for (int i = 0; i < reps(4); ++i) { faclarge<10007>(); faclarge<65537>(); faclarge<1000003>(); faclarge<262147>(); }
    facsmall<11>(); facsmall<17>(); facsmall<19>(); facsmall<23>(); facsmall<29>(); facsmall<37>(); facsmall<41>(); facsmall<101>(); facsmall<1009>();
    embed<97, 10>(); embed<97, 96>(); embed<97, 97>(); embed<101, 1>(); embed<1009, 100>(); embed<2, 1>(); embed<5, 2>();
}
