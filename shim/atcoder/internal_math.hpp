#ifndef SHIM_INTERNAL_MATH
#define SHIM_INTERNAL_MATH
#include <utility>
#include <cstdint>
namespace atcoder { namespace internal {
constexpr long long safe_mod(long long x, long long m) { x %= m; if (x < 0) x += m; return x; }
constexpr long long pow_mod_constexpr(long long x, long long n, int m) {
    if (m == 1) return 0;
    unsigned long long r = 1, y = safe_mod(x, m);
    while (n) { if (n & 1) r = r * y % m; y = y * y % m; n >>= 1; }
    return r;
}
constexpr bool is_prime_constexpr(int n) {
    if (n <= 1) return false;
    for (long long i = 2; i * i <= n; ++i) if (n % i == 0) return false;
    return true;
}
template <int n> constexpr bool is_prime = is_prime_constexpr(n);
constexpr std::pair<long long, long long> inv_gcd(long long a, long long b) {
    a = safe_mod(a, b);
    if (a == 0) return {b, 0};
    long long s = b, t = a, m0 = 0, m1 = 1;
    while (t) { long long u = s / t; s -= t * u; m0 -= m1 * u; long long w = s; s = t; t = w; w = m0; m0 = m1; m1 = w; }
    if (m0 < 0) m0 += b / s;
    return {s, m0};
}
constexpr int primitive_root_constexpr(int m) {
    if (m == 2) return 1;
    int divs[20] = {}; int cnt = 0; long long x = m - 1;
    for (long long i = 2; i * i <= x; ++i) if (x % i == 0) { divs[cnt++] = i; while (x % i == 0) x /= i; }
    if (x > 1) divs[cnt++] = x;
    for (int g = 2;; ++g) { bool ok = true; for (int i = 0; i < cnt; ++i) if (pow_mod_constexpr(g, (m - 1) / divs[i], m) == 1) { ok = false; break; } if (ok) return g; }
}
template <int m> constexpr int primitive_root = primitive_root_constexpr(m);
}}
#endif
