// Convolutions modulo 2^64 of millions of terms (built without sanitizers: the sizes are the point).
#include "library/convolution/convolution_2_64.hpp"
#include "vt.hpp"
#include <map>
using namespace vt; namespace S = suisen;
template <class U> std::vector<W> ow(const std::vector<U>& a) { std::vector<W> r; for (auto x : a) r.push_back(uwide(x)); return r; }
// a long sparse sequence times a short one: sampled coefficients and the sum of all of them
void c64at(int n, int m) {
    begin("wide", uwide((unsigned __int128)1 << 64)); std::vector<ull> a(n), b(m); for (auto& x : b) x = rng.coin(1, 3) ? ~0ULL : rng.next(); std::map<int, ull> s; s[0] = rng.next(); s[n - 1] = ~0ULL; for (int i = 0; i < 12; ++i) s[rng(0, n - 1)] = rng.coin(1, 3) ? ~0ULL : rng.next(); { int p = rng(0, n - 70); for (int i = 0; i < 64; ++i) s[p + i] = ~0ULL; }
    std::vector<std::pair<int, W>> sa; for (auto [i, x] : s) a[i] = x, sa.push_back({ i, uwide(x) }); pend("convat", n, m); auto c = n % 2 ? S::convolution_mod_2_64(a, b) : S::convolution_mod_2_64(b, a); ull tot = 0; for (auto x : c) tot += x;
    std::set<int> ks; ks.insert(0); ks.insert((int)c.size() - 1); for (auto [i, x] : s) for (int t = 0; t < 2; ++t) ks.insert(std::min<int>(c.size() - 1, i + rng(0, m + 2))); for (int t = 0; t < 6; ++t) ks.insert(rng(0, (int)c.size() - 1)); std::vector<std::pair<int, W>> sc; for (int k : ks) sc.push_back({ k, uwide(c[k]) });
    ev("convat", n, sa, ow(b), (int)c.size(), sc, uwide(tot)); finish();
}
int main(int argc, char** argv) { init(argc, argv); c64at((1 << 22) - 62, 64); if (args.thorough) { c64at((1 << 22) - 63, 64); c64at(5000001, 61); c64at((1 << 23) - 60, 61); } }
