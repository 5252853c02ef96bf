// C27: integers of unlimited size
#include "vt.hpp"
#include "library/math/bigint.hpp"
using namespace vt; using namespace suisen;
int limbs() { switch (rng(0, 9)) { case 0: return 0; case 1: return 1; case 2: return 2; default: return rng(1, 8); } }
std::string limb() { static const char* fix[] = {"000000000", "000000000", "999999999", "000000001", "500000000", "499999999", "333333333"}; if (rng.coin(1, 2)) return fix[rng(0, 6)]; char b[16]; snprintf(b, 16, "%09d", (int)rng(0, 999999999)); return b; }
// text of a number with about k digits of base 10^9: mixed, runs of zeros or nines, or random
std::string text(int k) {
    int style = rng(0, 4); std::string s;
    for (int i = 0; i < k; ++i) { if (style == 0) s += "000000000"; else if (style == 1) s += "999999999"; else if (style == 2) { char b[16]; snprintf(b, 16, "%09d", (int)rng(0, 999999999)); s += b; } else s += limb(); }
    if (style == 0 || rng.coin(1, 2)) s = std::to_string(rng.coin(1, 2) ? rng(1, 9) : rng(1, 999999999)) + s;
    if (style == 0 && rng.coin(1, 2) && s.size()) s.back() = '0' + rng(0, 9);
    size_t p = s.find_first_not_of('0'); if (p != std::string::npos) s = s.substr(p); else s = "0";
    if (s.size() > 3 && rng.coin(1, 6)) { int c = rng(0, 8); if (c < (int)s.size()) s = s.substr(0, s.size() - c); }
    return s;
}
template <class B> std::string str(const B& b) { if (rng.coin(1, 2)) { std::ostringstream o; o << b; return o.str(); } return std::string(b); }
template <class B, bool SG> struct Run {
    std::array<B, 4> r;
    void set(int i, int k) {
        int o = rng(0, 5); std::string t = text(k);
        if (rng.coin(1, 8)) t = std::string(rng(1, 20), '0') + t;
        if (SG && rng.coin(1, 2)) t = "-" + t;
        pend("set", i, t);
        if (o == 0) { std::istringstream in(t); in >> r[i]; ev("set", i, t, str(r[i])); }
        else if (o == 1) { r[i] = B(t.c_str()); ev("set", i, t, str(r[i])); }
        else { r[i] = B(t); ev("set", i, t, str(r[i])); }
    }
    template <class T> void seti(int i, T v) { pend("set", i, wide(v)); r[i] = B(v); ev("set", i, std::is_signed<T>::value ? wide(v) : uwide(v), str(r[i])); }
    template <class T> void ints(int i) {
        const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); T v;
        switch (rng(0, 5)) { case 0: v = hi; break; case 1: v = lo; break; case 2: v = hi - rng(0, 3); break; case 3: v = T(rng.next()); break; case 4: v = lo + rng(0, 3); break; default: v = T(rng(0, 5)); }
        if (!SG && v < 0) v = hi - (v == lo ? 0 : -(v + 1)) ;
        seti<T>(i, v);
    }
    template <class T> void cast(int i) { T v = static_cast<T>(r[i]); ev("cast", i, (int)sizeof(T) * 8, std::is_signed<T>::value, std::is_signed<T>::value ? wide(v) : uwide(v)); }
    void step(int k) {
        int i = rng(0, 3), a = rng(0, 3), b = rng(0, 3);
        if (rng.coin(1, 4)) a = i;
        switch (rng(0, 19)) {
        case 0: case 1: case 2: set(i, k ? rng.coin(1, 2) ? k : rng(0, k) : limbs()); break;
        case 3: switch (rng(0, 7)) { case 0: ints<int>(i); break; case 1: ints<unsigned>(i); break; case 2: case 3: ints<ll>(i); break; case 4: ints<ull>(i); break; case 5: ints<short>(i); break; case 6: ints<signed char>(i); break; default: ints<unsigned char>(i); } break;
        case 4: pend("copy", i, a); r[i] = r[a]; ev("copy", i, a, str(r[i])); break;
        case 5: pend("add", i, a, b); if (a == i) r[i] += r[b]; else r[i] = r[a] + r[b]; ev("add", i, a, b, str(r[i])); break;
        case 6: if (!SG && r[a] < r[b]) std::swap(a, b); pend("sub", i, a, b); if (a == i) r[i] -= r[b]; else r[i] = r[a] - r[b]; ev("sub", i, a, b, str(r[i])); break;
        case 7: case 8: if (str(r[a]).size() + str(r[b]).size() > 9u * (k ? 2 * k + 10 : 60)) { int t = str(r[a]).size() / 18; r[a] = r[a] >> t; ev("shr", a, a, t, str(r[a])); set(b, limbs()); break; }
            pend("mul", i, a, b); if (a == i) r[i] *= r[b]; else r[i] = r[a] * r[b]; ev("mul", i, a, b, str(r[i])); break;
        case 9: if (!r[b]) break; pend("div", i, a, b); if (a == i) r[i] /= r[b]; else r[i] = r[a] / r[b]; ev("div", i, a, b, str(r[i])); break;
        case 10: if (!r[b]) break; pend("rem", i, a, b); if (a == i) r[i] %= r[b]; else r[i] = r[a] % r[b]; ev("rem", i, a, b, str(r[i])); break;
        case 11: case 12: dm(a, b); break;
        case 13: pend("inc", i); if (rng.coin(1, 2)) { auto q = str(++r[i]); ev("inc", i, q, str(r[i])); } else { auto q = str(r[i]++); ev("pinc", i, q, str(r[i])); } break;
        case 14: if (!SG && !r[i]) break; pend("dec", i); if (rng.coin(1, 2)) { auto q = str(--r[i]); ev("dec", i, q, str(r[i])); } else { auto q = str(r[i]--); ev("pdec", i, q, str(r[i])); } break;
        case 15: if constexpr (SG) { pend("neg", i, a); r[i] = -r[a]; ev("neg", i, a, str(r[i])); } break;
        case 16: { if (str(r[a]).size() > 9u * (k ? 2 * k + 10 : 60)) break; int t = rng(0, 3); pend("shl", i, a, t); if (a == i) r[i] <<= t; else r[i] = r[a] << t; ev("shl", i, a, t, str(r[i])); break; }
        case 17: { int t = rng.coin(1, 3) ? rng(0, k + 8) : rng(0, 3); pend("shr", i, a, t); if (a == i) r[i] >>= t; else r[i] = r[a] >> t; ev("shr", i, a, t, str(r[i])); break; }
        case 18: { const B &x = r[a], &y = r[b]; std::vector<bool> q{x < y, x <= y, x > y, x >= y, x == y, x != y}; ev("cmp", a, b, q); ev("bool", a, bool(r[a])); break; }
        default: cast<int>(i); cast<unsigned>(i); cast<ll>(i); cast<ull>(i); cast<long>(i); cast<unsigned long>(i);
            { u128 v = static_cast<u128>(r[i]); ev("cast", i, 128, false, uwide(v)); i128 u = static_cast<i128>(r[i]); ev("cast", i, 128, true, wide(u)); }
            { double d = static_cast<double>(r[i]); ev("real", i, std::fabs(d) < 9.3e15 ? wide((ll)d) : wide(0)); long double l = static_cast<long double>(r[i]); ev("real", i, std::fabs(l) < 9.3e15L ? wide((ll)l) : wide(0)); }
        }
    }
    void dm(int a, int b) { if (!r[b]) return; pend("divmod", a, b); auto [q, m] = B::divmod(r[a], r[b]); ev("divmod", a, b, str(q), str(m)); }
    void small() { begin(SG ? "big" : "ubig", 0); r = {}; for (int t = 0; t < 60; ++t) step(0); finish(); }
    // long operands: around the digit counts at which another algorithm takes over
    void big() {
        static const int at[] = {60, 64, 65, 66, 70, 100, 128, 130, 131, 190, 200, 201, 210, 260};
        begin(SG ? "big" : "ubig", 1); r = {};
        int k = at[rng(0, 13)] + rng(0, 1), l = rng.coin(1, 2) ? k : at[rng(0, 13)]; set(0, k); set(1, l);
        pend("mul", 2, 0, 1); r[2] = r[0] * r[1]; ev("mul", 2, 0, 1, str(r[2]));
        if (r[0]) { dm(2, 0); if (r[2]) { if (SG || rng.coin(1, 2)) { --r[2]; ev("dec", 2, str(r[2]), str(r[2])); } else { ++r[2]; ev("inc", 2, str(r[2]), str(r[2])); } } dm(2, 0); dm(2, 1); set(3, limbs()); r[2] += r[3]; ev("add", 2, 2, 3, str(r[2])); dm(2, 0); }
        set(3, rng(1, k + l)); dm(2, 3); dm(0, 1); dm(3, 1);
        for (int t = 0; t < 6; ++t) step(k);
        finish();
    }
    // a divisor, quotients with zero digits
    void divs() {
        begin(SG ? "big" : "ubig", 2); r = {};
        for (int t = 0; t < 6; ++t) {
            set(0, rng(1, 4)); set(1, rng(1, 6)); int s = rng(0, 5);
            pend("shl", 1, 1, s); r[1] <<= s; ev("shl", 1, 1, s, str(r[1]));
            pend("mul", 2, 0, 1); r[2] = r[0] * r[1]; ev("mul", 2, 0, 1, str(r[2]));
            dm(2, 0); dm(2, 1); set(3, rng(0, 2)); pend("add", 2, 2, 3); r[2] += r[3]; ev("add", 2, 2, 3, str(r[2])); dm(2, 0); dm(2, 1);
        }
        finish();
    }
};
int main(int argc, char** argv) {
    init(argc, argv);
    for (int t = 0; t < reps(300); ++t) { Run<bigint, true>{}.small(); Run<unsigned_bigint, false>{}.small(); Run<bigint, true>{}.divs(); Run<unsigned_bigint, false>{}.divs(); }
    for (int t = 0; t < reps(150); ++t) { Run<bigint, true>{}.big(); Run<unsigned_bigint, false>{}.big(); }
}
