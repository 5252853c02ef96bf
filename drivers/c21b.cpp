// Multivariate convolutions and convolution over multiplication modulo 2^n (NTT based).
#include "vt.hpp"
#include <atcoder/modint>
#include "library/convolution/multi_variate_convolution.hpp"
#include "library/convolution/multi_variate_convolution_circular.hpp"
#include "library/convolution/multiplicative_convolution_mod_2^n.hpp"
using namespace vt; namespace S = suisen;
typedef std::vector<int> VI;
template <class mint> std::vector<mint> rv(int n, int nz) { std::vector<mint> v(n); nz = std::min(nz, n); if (n <= 24) { for (auto& x : v) x = rng.coin(1, 5) ? mint(0) : mint((ll)(rng.next() % mint::mod())); } else while (nz--) v[rng(0, n - 1)] = rng.coin(1, 2) ? mint((ll)(rng.next() % mint::mod())) : mint(rng(-9, 9)); return v; }
template <class mint> std::vector<int> out(const std::vector<mint>& v) { std::vector<int> o; for (auto& x : v) o.push_back(x.val()); return o; }
VI dims(int lim, int mxd) { VI d; int n = 1, k = rng(0, mxd); while (k--) { int x = rng.coin(1, 6) ? 1 : rng(2, 6); if (n * x > lim) break; d.push_back(x); n *= x; } return d; }
int vol(const VI& d) { int n = 1; for (int x : d) n *= x; return n; }
void mv() { using mint = atcoder::modint998244353; begin("lat", mint::mod()); for (int i = 0; i < 3; ++i) { VI d = dims(i == 2 ? 120 : 40, 5); int n = vol(d); auto f = rv<mint>(n, 14), g = rv<mint>(n, 14); pend("multi_variate_convolution", d); S::multi_variate_convolution c(d); ev("conv", "mv", d, out(f), out(g), out(i % 2 ? c(f, g) : c.convolution(f, g)), c.size()); } finish(); }
template <class mint> void circ(bool big) { begin("lat", mint::mod()); VI d = big ? dims(20, 2) : dims(100, 4); if (big) d.push_back(rng(101, 110)); if (big && vol(d) > 300) d = {(int)rng(101, 130)}; rng.shuffle(d); int n = vol(d); auto f = rv<mint>(n, 12), g = rv<mint>(n, 12); pend("circular", d); S::multi_variate_convolution_circular<mint> c(d); ev("conv", "circ", d, out(f), out(g), out(rng.coin(1, 2) ? c(f, g) : c.convolution(f, g)), n); auto f2 = rv<mint>(n, 6), g2 = rv<mint>(n, 6); ev("conv", "circ", d, out(f2), out(g2), out(c(f2, g2)), n); finish(); }
void mul2() { using mint = atcoder::modint998244353; begin("lat", mint::mod()); for (int i = 0; i < 2; ++i) { int n = 1 << (i ? rng(7, 9) : rng(0, 6)); auto a = rv<mint>(n, 12), b = rv<mint>(n, 12); if (rng.coin(1, 2)) { a[0] = 3; b[n / 2] = 5; if (n > 3) a[3 * n / 4] = 7; } pend("mul mod 2^n", n); ev("conv", "mul2", VI(), out(a), out(b), out(S::multiplicative_convolution_mod_2_n(a, b)), n); } finish(); }
int main(int argc, char** argv) { init(argc, argv);
    for (int i = 0; i < reps(25); ++i) { mv(); mv(); circ<atcoder::modint998244353>(false); circ<atcoder::modint1000000007>(false); circ<atcoder::static_modint<101>>(false); circ<atcoder::modint998244353>(true); mul2(); mul2(); }
}
