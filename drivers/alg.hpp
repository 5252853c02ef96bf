// The algebra of spec/Fold.tla on the C++ side: residues mod PR, polynomial-hash folds, affine actions.
#ifndef ALG_HPP
#define ALG_HPP
#include "vt.hpp"
namespace alg {
using vt::ll;
constexpr int PR = 32749, BASE = 257;
struct H { int h = 0, pw = 1, n = 0, geo = 0; int rh = 0; };   // rh: hash of the reversed sequence
inline H op(H a, H b) {
    return H{ (int)(((ll)a.h * b.pw + b.h) % PR), (int)((ll)a.pw * b.pw % PR), a.n + b.n, (int)(((ll)a.geo * b.pw + b.geo) % PR), (int)(((ll)b.rh * a.pw + a.rh) % PR) };
}
// residues mod PR as a ring with implicit conversion from integers
struct Md { int v = 0; Md() {} Md(ll x) : v((int)((x % PR + PR) % PR)) {} Md(int x) : Md((ll)x) {} };
inline Md operator+(Md a, Md b) { return Md((ll)a.v + b.v); } inline Md operator-(Md a, Md b) { return Md((ll)a.v - b.v); } inline Md operator*(Md a, Md b) { return Md((ll)a.v * b.v); } inline Md operator-(Md a) { return Md(-(ll)a.v); }
inline Md& operator+=(Md& a, Md b) { return a = a + b; } inline Md& operator-=(Md& a, Md b) { return a = a - b; } inline Md& operator*=(Md& a, Md b) { return a = a * b; }
inline bool operator==(Md a, Md b) { return a.v == b.v; } inline bool operator!=(Md a, Md b) { return a.v != b.v; }
inline H e() { return H{}; }
inline H one(int v) { return H{ v, BASE, 1, 1, v }; }
inline H toggle(H a) { std::swap(a.h, a.rh); return a; }
struct F { int a = 1, b = 0; };
inline H mapping(F f, H x) { return H{ (int)(((ll)f.a * x.h + (ll)f.b * x.geo) % PR), x.pw, x.n, x.geo, (int)(((ll)f.a * x.rh + (ll)f.b * x.geo) % PR) }; }
// the same for actions that are told how many elements they act on: only that number is used
inline int geo_of(int n) { static std::vector<int> t{0}; while ((int)t.size() <= n) t.push_back((int)(((ll)t.back() * BASE + 1) % PR)); return n < 0 ? 12345 : t[n]; }
inline H mapn(F f, H x, int n) { int g = geo_of(n); return H{ (int)(((ll)f.a * x.h + (ll)f.b * g) % PR), x.pw, x.n, x.geo, (int)(((ll)f.a * x.rh + (ll)f.b * g) % PR) }; }
inline F comp(F f, F g) { return F{ (int)((ll)f.a * g.a % PR), (int)(((ll)f.a * g.b + f.b) % PR) }; }
inline F id() { return F{}; }
inline int imap(F f, int x) { return (int)(((ll)f.a * x + f.b) % PR); }
inline std::pair<int, int> out(const H& x) { return {x.h, x.n}; }
inline std::pair<int, int> out(const F& f) { return {f.a, f.b}; }
inline int rv() { auto& r = vt::rng; switch (r(0, 3)) { case 0: return r(0, 3); case 1: return r(0, 40); default: return r(0, PR - 1); } }
inline F rf() { auto& r = vt::rng; switch (r(0, 4)) { case 0: return F{1, (int)r(0, PR - 1)}; case 1: return F{0, (int)r(0, 5)}; case 2: return F{1, 0}; default: return F{(int)r(0, PR - 1), (int)r(0, PR - 1)}; } }
inline std::vector<int> rvec(int n) { std::vector<int> v(n); bool small = vt::rng.coin(1, 3); for (auto& x : v) x = small ? vt::rng(0, 1) : rv(); return v; }
inline std::vector<H> lift(const std::vector<int>& v) { std::vector<H> r; for (int x : v) r.push_back(one(x)); return r; }
inline std::pair<int, int> range(int n) {   // 0 <= l <= r <= n, edges and empty ranges favoured
    auto& r = vt::rng;
    switch (r(0, 7)) {
        case 0: return {0, n};
        case 1: { int x = r(0, n); return {x, x}; }
        case 2: { int x = r(0, n); return {0, x}; }
        case 3: { int x = r(0, n); return {x, n}; }
        case 4: if (n) { int x = r(0, n - 1); return {x, x + 1}; }
        default: { int x = r(0, n), y = r(0, n); if (x > y) std::swap(x, y); return {x, y}; }
    }
}
inline int rsize(int mx) {  // sizes: small ones, powers of two and their neighbours
    auto& r = vt::rng;
    int n;
    switch (r(0, 3)) {
        case 0: n = r(1, 5); break;
        case 1: { int k = r(1, 8); n = (1 << k) + r(-1, 1); break; }
        default: n = r(1, mx);
    }
    return std::max(1, std::min(n, mx));
}
// searching: is the fold a prefix (suffix) of the word w?
struct Word {
    std::vector<int> w; std::vector<H> pre, suf;
    Word(std::vector<int> v) : w(v) {
        pre.assign(1, e()); for (int x : w) pre.push_back(op(pre.back(), one(x)));
        suf.assign(1, e()); for (int i = (int)w.size() - 1; i >= 0; --i) suf.push_back(op(one(w[i]), suf.back()));
    }
    bool is_prefix(const H& x) const { return x.n <= (int)w.size() && pre[x.n].h == x.h; }
    bool is_suffix(const H& x) const { return x.n <= (int)w.size() && suf[x.n].h == x.h; }
};
// a word equal to cur[l..] (or ..r]) up to some point, then different
inline std::vector<int> word_from(const std::vector<int>& cur, int l) {
    auto& r = vt::rng; std::vector<int> w(cur.begin() + l, cur.end()); int k = r(0, w.size());
    if (r.coin(1, 4)) k = w.size();
    w.resize(k); if (r.coin(1, 2)) w.push_back(rv()); return w;
}
inline std::vector<int> word_to(const std::vector<int>& cur, int rr) {
    auto& r = vt::rng; std::vector<int> w(cur.begin(), cur.begin() + rr); int k = r(0, w.size());
    if (r.coin(1, 4)) k = w.size();
    w.erase(w.begin(), w.end() - k); if (r.coin(1, 2)) w.insert(w.begin(), rv()); return w;
}
// Additive and order structures are homogeneous: a history whose values are all multiplied by K answers K times as much.  Values up to about 10^15 are driven
// through the real code this way and read back in units of K (a value which is no multiple of K is reported as a number the model never reaches).
const ll K = 40000000003LL;
inline int dn(ll x) { return x % K == 0 && std::abs(x / K) < 1000000000 ? (int)(x / K) : 987654321; }
inline std::vector<ll> up(const std::vector<int>& a) { std::vector<ll> r; for (int x : a) r.push_back(x * K); return r; }
}
#endif
