// Linear algebra.
#include "vt.hpp"
#include "library/number/modint.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/characteristic_polynomial.hpp"
#include "library/linear_algebra/hessenberg_reduction.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/count_spanning_trees.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/gaussian_elimination_f2.hpp"
#include "library/linear_algebra/matrix_f2.hpp"
#include "library/linear_algebra/hafnian.hpp"
#include "library/linear_algebra/xor_base.hpp"
using namespace vt; namespace S = suisen;
typedef std::vector<int> VI; typedef std::vector<VI> VV; typedef std::vector<ll> VL; typedef std::vector<VL> VVL;
template <class T> int modof() { if constexpr (std::is_same_v<T, ll>) return 0; else return T::mod(); }
template <class T> ll get(const T& x) { if constexpr (std::is_same_v<T, ll>) return x; else return x.val(); }
template <class T> T rnd(int style) {
    if constexpr (std::is_same_v<T, ll>) return rng.coin(1, 5) ? 0 : rng(-30, 30);
    else { if (style == 0) return rng.coin(3, 4) ? T(0) : T(rng(1, 3)); if (style == 1) return T(rng(-1, 1)); return rng.coin(1, 6) ? T(0) : rng.coin(1, 6) ? T(-1) : T((ll)(rng.next() % T::mod())); }
}
template <class T> std::vector<std::vector<T>> rm(int n, int k, int style = -1) {
    if (style < 0) style = rng(0, 3); std::vector<std::vector<T>> a(n, std::vector<T>(k)); for (auto& r : a) for (auto& x : r) x = rnd<T>(style);
    if (n > 1 && rng.coin(1, 4)) { int i = rng(0, n - 1), j = rng(0, n - 1); T c = rnd<T>(2); for (int t = 0; t < k; ++t) a[i][t] = i == j ? T(0) : T(a[j][t] * c); }  // dependent row
    return a;
}
template <class V> VVL outm(const V& a) { VVL o; for (auto& r : a) { VL q; for (auto& x : r) q.push_back(get(x)); o.push_back(q); } return o; }
template <class V> VL outv(const V& a) { VL o; for (auto& x : a) o.push_back(get(x)); return o; }
int size_pick(bool zero = false) { return rng.coin(1, 10) ? 1 : rng.coin(1, 12) && zero ? 0 : rng(1, 6); }

VI ebits(ll e) { VI b; for (int i = 62; i >= 0; --i) if (!b.empty() || (e >> i & 1)) b.push_back(e >> i & 1); return b; }
ll bige() { ll e = (ll)(rng.next() >> 1); return rng.coin(1, 3) ? e : rng.coin(1, 2) ? (1LL << rng(31, 62)) | rng(0, 3) : e >> rng(0, 31); }
template <class T> void ring() {     // operations that need no division
    using M = S::Matrix<T>; begin("lin", modof<T>()); int n = size_pick(), k = size_pick(), l = size_pick();
    M A(rm<T>(n, k)), B(rm<T>(n, k)), C(rm<T>(k, l)); auto o = [](const M& x) { return outm(x.dat); };
    ev("add", o(A), o(B), o(A + B)); ev("sub", o(A), o(B), o(A - B)); ev("mul", o(A), o(C), o(A * C)); { M D = A; D += B; ev("add", o(A), o(B), o(D)); D -= B; ev("shape", o(A), D.row_size(), D.col_size()); ev("eq", o(A), o(D), A == D, A != D); ev("eq", o(A), o(B), A == B, A != B); }
    T c = rnd<T>(2); ev("scale", o(A), get(c), o(A * c)); ev("scale", o(A), get(c), o(c * A)); { M D = A; D *= c; ev("scale", o(A), get(c), o(D)); } auto x = rm<T>(1, k)[0]; ev("vec", o(A), outv(x), outv(A * x)); ev("shape", o(A), A.shape().first, A.shape().second);
    { M D = A; D *= C; ev("mul", o(A), o(C), o(D)); } M Q(rm<T>(k, k, modof<T>() ? -1 : 1)); for (int e : {0, 1, (int)rng(2, modof<T>() ? 200 : 2)}) { pend("pow", e); ev("pow", o(Q), e, o(Q.pow(e))); } if (modof<T>()) { M q2(rm<T>(2, 2)); ll e = bige(); pend("pow"); ev("powb", o(q2), ebits(e), o(q2.pow(e))); } ev("id", k, o(M::e1(k))); ev("const", k, k, 0, o(M::e0(k))); ev("const", n, k, 7, o(M(n, k, T(7)))); ev("const", n, n, 0, o(M(n)));
    int a = rng(0, n), b = rng(a, n), c0 = rng(0, k), d = rng(c0, k); if (a < b && c0 < d) { M s = A.submatrix(a, b, c0, d); M Z = B; Z.assign_submatrix(a, c0, s); M D = B - Z; for (int i = a; i < b; ++i) for (int j = c0; j < d; ++j) D[i][j] += A[i][j] - B[i][j] + (Z[i][j]); ev("sub", o(B), o(Z), o(B - Z)); VVL ex = o(B), ey = o(A); for (int i = a; i < b; ++i) for (int j = c0; j < d; ++j) ex[i][j] = ey[i][j]; ev("eq", o(Z), ex, o(Z) == ex, o(Z) != ex); }
    finish();
}
template <class T> void field() {
    using M = S::Matrix<T>; begin("lin", modof<T>()); auto o = [](const M& x) { return outm(x.dat); };
    for (int t = 0; t < 3; ++t) {
        int n = t == 2 ? rng(5, 9) : size_pick(true); M A(rm<T>(n, n)), B(rm<T>(n, n)); pend("inv", n); auto r = A.safe_inv(); std::vector<VVL> q; if (r) q.push_back(o(*r)); ev("inv", o(A), q); pend("det", n); ev("det", o(A), get(A.det())); if (r && n) { ev("div", o(B), o(A), o(B / A)); M D = B; D /= A; ev("div", o(B), o(A), o(D)); T c = rnd<T>(2); if (!(c == T(0))) { ev("sdiv", o(B), get(c), o(B / c)); M w = c / A; M u(n, n); for (int i = 0; i < n; ++i) u[i][i] = c; ev("div", o(u), o(A), o(w)); } }
        pend("charpoly", n); ev("charpoly", o(A), outv(S::characteristic_polynomial(A))); ev("hess", o(A), o(S::hessenberg_reduction(A)));
    }
    finish();
}
template <class T> void anydet() { using M = S::Matrix<T>; begin("lin", modof<T>()); for (int t = 0; t < 3; ++t) { int n = rng(0, 4); M A(rm<T>(n, n)); ev("det", outm(A.dat), get(A.det_arbitrary_mod())); } finish(); }
void strassen(int par) { using T = S::modint998244353; using M = S::Matrix<T>; begin("lin", modof<T>()); int n = 70 + 2 * rng(1, 2) - (par & 1), k = 70 + 2 * rng(1, 2) - (par >> 1 & 1), l = 70 + 2 * rng(1, 2) - (par >> 2); M A(rm<T>(n, k, 2)), B(rm<T>(k, l, 2)); pend("strassen", n, k, l); ev("mul", outm(A.dat), outm(B.dat), outm((A * B).dat)); finish(); }
template <class T, size_t N, size_t K> S::ArrayMatrix<T, N, K> am() { auto v = rm<T>(N, K); S::ArrayMatrix<T, N, K> a; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < K; ++j) a[i][j] = v[i][j]; return a; }
template <class T, size_t N, size_t K, size_t L> void arr() {
    begin("lin", modof<T>()); auto A = am<T, N, K>(), B = am<T, N, K>(); auto C = am<T, K, L>(); auto Q = am<T, K, K>(), R = am<T, K, K>();
    ev("add", outm(A), outm(B), outm(A + B)); ev("sub", outm(A), outm(B), outm(A - B)); ev("neg", outm(A), outm(-A)); ev("mul", outm(A), outm(C), outm(A * C)); ev("mul", outm(A), outm(Q), outm(A * Q)); { auto D = A; D *= Q; ev("mul", outm(A), outm(Q), outm(D)); } T c = rnd<T>(2); ev("scale", outm(A), get(c), outm(A * c)); ev("scale", outm(A), get(c), outm(c * A));
    std::array<T, K> x; for (auto& v : x) v = rnd<T>(2); ev("vec", outm(A), outv(x), outv(A * x)); ev("shape", outm(A), A.shape().first, A.shape().second); ev("shape", outm(A), A.row_size(), A.col_size()); ev("eq", outm(A), outm(B), A == B, A != B); { typename S::ArrayMatrix<T, 2, K> D(std::initializer_list<std::array<T, K>>{ A[0], B[N - 1] }); VVL d2 { outm(A)[0], outm(B)[N - 1] }; ev("eq", d2, outm(D), true, false); } ev("id", (int)K, outm(S::ArrayMatrix<T, N, K>::e1())); ev("const", (int)N, (int)K, 0, outm(S::ArrayMatrix<T, N, K>::e0()));
    for (int e : {0, 1, (int)rng(2, 100)}) ev("pow", outm(Q), e, outm(Q.pow(e))); if constexpr (K <= 3) { ll e = bige(); ev("powb", outm(Q), ebits(e), outm(Q.pow(e))); }
    auto r = Q.safe_inv(); std::vector<VVL> q; if (r) q.push_back(outm(*r)); ev("inv", outm(Q), q); ev("det", outm(Q), get(Q.det())); ev("det", outm(Q), get(Q.det_arbitrary_mod())); if (r) { ev("div", outm(R), outm(Q), outm(R / Q)); auto D = R; D /= Q; ev("div", outm(R), outm(Q), outm(D)); if (!(c == T(0))) { ev("sdiv", outm(R), get(c), outm(R / c)); S::ArrayMatrix<T, K, K> u(c); ev("div", outm(u), outm(Q), outm(c / Q)); } }
    finish();
}
template <class G, class T> void gsol(const std::vector<std::vector<T>>& A, const std::vector<T>& b, int k) { G g(A, b); VL x; VVL bs; if (auto s = g.get_solution()) x = outv(*s); bs = outm(g.get_basis()); ev("sol", outm(A), outv(b), k, g.has_solution(), x, g.has_solution() ? bs : VVL(), g.dimension(), g.has_unique_solution(), g.has_multiple_solutions()); }
template <class T> void gauss() {
    begin("lin", modof<T>()); for (int t = 0; t < 4; ++t) { int n = size_pick(), k = size_pick(); auto A = rm<T>(n, k); std::vector<T> b(n); if (rng.coin(2, 3)) { auto x = rm<T>(1, k)[0]; for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) b[i] += A[i][j] * x[j]; } else for (auto& v : b) v = rnd<T>(2); pend("gauss", outm(A), outv(b)); gsol<S::GaussianEliminationArithmetic<T>, T>(A, b, k); } finish();
}
void gf2int() { begin("lin", 2); for (int t = 0; t < 4; ++t) { int n = size_pick(), k = size_pick(); VVL A(n, VL(k)); VL b(n); for (auto& r : A) for (auto& x : r) x = rng(0, 1); for (auto& x : b) x = rng(0, 1); pend("gaussF2"); gsol<S::GaussianEliminationF2<ll>, ll>(A, b, k); } finish(); }
void greal() {
    begin("lin", 0); for (int t = 0; t < 4; ++t) { int n = size_pick(), k = size_pick(); std::vector<std::vector<double>> A(n, std::vector<double>(k)); for (auto& r : A) for (auto& x : r) x = rng(-5, 5); if (n > 1 && rng.coin(1, 2)) { int i = rng(0, n - 1), j = rng(0, n - 1); if (i != j) for (int c = 0; c < k; ++c) A[i][c] = 2 * A[j][c]; } std::vector<double> b(n); if (rng.coin(2, 3)) { for (int j = 0; j < k; ++j) { int x = rng(-4, 4); for (int i = 0; i < n; ++i) b[i] += A[i][j] * x; } } else for (auto& v : b) v = rng(-5, 5);
        const double U = rng.coin(1, 2) ? 1 : rng.coin(1, 2) ? 0.03125 : 0.125; auto SA = A; auto Sb = b; for (auto& r : SA) for (auto& x : r) x *= U; for (auto& x : Sb) x *= U; S::GaussianEliminationArithmetic<double> g(SA, Sb); VVL ia; for (auto& r : A) ia.emplace_back(r.begin(), r.end()); VL ib(b.begin(), b.end()); auto mic = [](double v) { return (ll)std::llround(std::max(-2e9, std::min(2e9, v * 1e6))); }; VL x; VVL bs; if (g.has_solution()) { const auto s0 = *g.get_solution(); for (double v : s0) x.push_back(mic(v)); for (auto& r : g.get_basis()) { VL q; for (double v : r) q.push_back(mic(v)); bs.push_back(q); } } ev("real", ia, ib, k, g.has_solution(), x, bs); } finish();
}
VI bits(const S::DynamicBitSet& b) { VI v; for (int i = 0; i < b.size(); ++i) v.push_back(b[i]); return v; }
VV bm(const S::MatrixF2& a) { VV v; for (int i = 0; i < a.row_size(); ++i) v.push_back(bits(a[i])); return v; }
S::DynamicBitSet rb(int n) { S::DynamicBitSet b(n); int k = rng(0, 2); for (int i = 0; i < n; ++i) b[i] = rng.coin(1, k + 1 + (k == 0)); return b; }
S::MatrixF2 rf2(int n, int k) { S::MatrixF2 a(n, k); for (int i = 0; i < n; ++i) a[i] = rb(k); if (n > 1 && rng.coin(1, 5)) a[rng(0, n - 1)] = a[rng(0, n - 1)]; return a; }
void f2() {
    begin("lin", 2); bool wide = rng.coin(1, 6); int n = wide ? rng(1, 4) : size_pick(), k = wide ? rng(62, 67) : size_pick(), l = size_pick(); auto A = rf2(n, k), B = rf2(n, k), C = rf2(k, l);
    ev("add", bm(A), bm(B), bm(A + B)); ev("sub", bm(A), bm(B), bm(A - B)); ev("mul", bm(A), bm(C), bm(A * C)); { auto D = A; D *= C; ev("mul", bm(A), bm(C), bm(D)); } ev("tr", bm(A), bm(A.transposed())); ev("eq", bm(A), bm(B), A == B, A != B); ev("shape", bm(A), A.row_size(), A.col_size()); ev("shape", bm(A), A.shape().first, A.shape().second); for (int c : {0, 1}) { ev("scale", bm(A), c, bm(A * bool(c))); ev("scale", bm(A), c, bm(bool(c) * A)); } auto x = rb(k); ev("vec", bm(A), bits(x), bits(A * x)); ev("const", n, k, 1, bm(S::MatrixF2(n, k, true))); pend("rank", bm(A)); ev("rank", bm(A), (int)A.rank()); ev("rank", bm(A), (int)A.transposed().rank());
    auto Q = rf2(n, n), R = rf2(n, n); pend("F2 inv"); auto r = Q.inv(); std::vector<VV> q; if (r) q.push_back(bm(*r)); ev("inv", bm(Q), q); ev("det", bm(Q), (int)Q.det()); ev("rank", bm(Q), (int)Q.rank()); if (r) { ev("div", bm(R), bm(Q), bm(R / Q)); auto D = R; D /= Q; ev("div", bm(R), bm(Q), bm(D)); } ev("pow", bm(Q), 0, bm(Q.pow(0))); int e = rng(1, 1000); ev("pow", bm(Q), e, bm(Q.pow(e))); if (n <= 3) { ll e2 = bige(); ev("powb", bm(Q), ebits(e2), bm(Q.pow(e2))); } ev("id", n, bm(S::MatrixF2::e1(n))); ev("const", n, n, 0, bm(S::MatrixF2::e0(n)));
    for (int t = 0; t < 3; ++t) { auto G = rf2(n, k); auto b = rng.coin(1, 2) ? rb(n) : G * rb(k); pend("gaussian_elimination_f2", bm(G), bits(b)); auto s = S::gaussian_elimination_f2(G, b); VV bs; if (s.has_solution()) for (auto& v : s.basis()) bs.push_back(bits(v)); ev("sol", bm(G), bits(b), k, s.has_solution(), s.has_solution() ? bits(s.solution()) : VI(), bs, s.has_solution() ? s.dim() : -1, s.has_solution() && s.dim() == 0, s.has_solution() && s.dim() > 0); if (s.has_solution()) ev("rank", bm(G), s.rank()); }
    finish();
}
void spaces() {     // kernels as spaces: sum, intersection, adding vectors
    int k = rng(1, 6); begin("vspan", k); S::SolutionSpace r[3]; auto load = [&](int i) { pend("kernel"); int n = rng(1, 4); auto G = rf2(n, k); auto s = S::gaussian_elimination_f2(G, S::DynamicBitSet(n)); VV bs; for (auto& v : s.basis()) bs.push_back(bits(v)); ev("reset", i + 1, bs); pend("normalize"); if (rng.coin(1, 2)) s.normalize(), r[i] = s; else r[i] = s.normalized(); };
    auto show = [&](int i) { VV bs; for (auto& v : r[i].basis()) bs.push_back(bits(v)); ev("basis", i + 1, bs, r[i].dim()); };
    for (int i = 0; i < 3; ++i) load(i), show(i);
    for (int t = 0; t < 8; ++t) { int a = rng(0, 2), b = rng(0, 2), c = rng(0, 2); switch (rng(0, 4)) { case 0: { auto v = rb(k); pend("add_base"); bool q = r[a].add_base(v); ev("add", a + 1, bits(v), q); break; } case 1: pend("&"); r[a] = r[b] & r[c]; ev("cap", a + 1, b + 1, c + 1); break; case 2: pend("+"); r[a] = r[b] + r[c]; ev("sum", a + 1, b + 1, c + 1); break; case 3: load(a); break; default: if (a != b) { pend("&="); if (rng.coin(1, 2)) r[a] &= r[b], ev("cap", a + 1, a + 1, b + 1); else r[a] += r[b], ev("sum", a + 1, a + 1, b + 1); } } show(a); }
    finish();
}
template <class T> void xb() {
    begin("span"); S::XorBase<T> r[3]; int w = sizeof(T) * 8; auto mk = [&]() { ull m = rng.coin(1, 2) ? 15 : w == 64 ? ~0ull : (1ull << (w - (std::is_signed_v<T> ? 1 : 0))) - 1; if (std::is_signed_v<T> && w == 64) m >>= 1; return T(rng.next() & m & (rng.coin(1, 3) ? ~0xffull : ~0ull)); }; auto os = [](T v) { return uwide((ull)v); };
    auto show = [&](int i) { std::vector<W> b; for (T v : r[i].get_basis()) b.push_back(os(v)); ev("basis", i + 1, b, r[i].dim()); }; auto load = [&](int i, int n) { std::vector<T> v(n); std::vector<W> o; for (auto& x : v) x = mk(), o.push_back(os(x)); pend("XorBase"); r[i] = S::XorBase<T>(v); ev("reset", i + 1, o); };
    load(0, rng(0, 4)); load(1, rng(0, 4)); for (int t = 0; t < 14; ++t) { int a = rng(0, 2), b = rng(0, 2), c = rng(0, 2); switch (rng(0, 5)) { case 0: case 1: if (r[a].dim() < 7) { T v = mk(); bool q; if (rng.coin(1, 3)) { auto z = r[a] + v; q = z.dim() > r[a].dim(); r[a] = z; } else if (rng.coin(1, 3)) { int d = r[a].dim(); r[a] += v; q = r[a].dim() > d; } else q = r[a].add(v); ev("add", a + 1, os(v), q); } break; case 2: r[a] = rng.coin(1, 2) ? r[b] & r[c] : r[b].intersection(r[c]); ev("cap", a + 1, b + 1, c + 1); break; case 3: if (r[b].dim() + r[c].dim() < 8) { r[a] = r[b] + r[c]; ev("sum", a + 1, b + 1, c + 1); } break; case 4: if (a != b && r[a].dim() + r[b].dim() < 8) { r[a] += r[b]; ev("sum", a + 1, a + 1, b + 1); } break; default: if (a != b) { r[a] &= r[b]; ev("cap", a + 1, a + 1, b + 1); } } show(a); }
    finish();
}
void xbits() {
    int k = rng.coin(1, 4) ? rng(60, 70) : rng(1, 7); begin("vspan", k); S::XorBase<S::DynamicBitSet> r[3]; auto show = [&](int i) { VV b; for (auto& v : r[i].get_basis()) b.push_back(bits(v)); ev("basis", i + 1, b, r[i].dim()); };
    for (int t = 0; t < 14; ++t) { int a = rng(0, 2), b = rng(0, 2), c = rng(0, 2); switch (t < 4 ? 0 : rng(0, 3)) { case 0: case 1: if (r[a].dim() < 6) { auto v = rb(k); pend("XorBase add"); bool q = r[a].add(v); ev("add", a + 1, bits(v), q); } break; case 2: pend("XorBase &"); r[a] = r[b] & r[c]; ev("cap", a + 1, b + 1, c + 1); break; default: if (r[b].dim() + r[c].dim() < 8) { pend("XorBase +"); r[a] = r[b] + r[c]; ev("sum", a + 1, b + 1, c + 1); } } show(a); }
    finish();
}
using mint = S::modint998244353;
std::vector<mint> conv(const std::vector<mint>& a, const std::vector<mint>& b) { std::vector<mint> c(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) c[i + j] += a[i] * b[j]; return c; }
void misc() {
    begin("lin", mint::mod()); { int n = rng(1, 7); auto a = rm<mint>(1, n)[0], b = rm<mint>(1, n)[0]; using C = S::CirculantMatrix<mint>; C A(a), B(b); auto od = [&](const C& x) { VVL o(n, VL(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o[i][j] = rng.coin(1, 2) ? get(x.get(i, j)) : get(x[{i, j}]); return o; }; auto col = [&](const C& x) { VL o; for (int i = 0; i < n; ++i) o.push_back(get(x.get(i, 0))); return o; };
      ev("circ", outv(a), od(A)); ev("circmul", outv(a), outv(b), col(A * B)); ev("circvec", outv(a), outv(b), outv(A * b)); int e = rng(0, 60); ev("circpow", outv(a), e, col(A.pow(e))); if (n <= 3) { ll e2 = bige(); ev("circpowb", outv(a), ebits(e2), col(A.pow(e2))); } ev("add", od(A), od(B), od(A + B)); ev("sub", od(A), od(B), od(A - B)); ev("neg", od(A), od(-A)); mint c = rnd<mint>(2); ev("scale", od(A), get(c), od(A * c)); ev("scale", od(A), get(c), od(c * A)); { C D = A; D += B; ev("add", od(A), od(B), od(D)); D = A; D -= B; ev("sub", od(A), od(B), od(D)); D = A; D *= B; ev("circmul", outv(a), outv(b), col(D)); D = A; D *= c; ev("scale", od(A), get(c), od(D)); } ev("id", n, od(C::e1(n))); ev("const", n, n, 0, od(C::e0(n))); ev("shape", od(A), A.size(), A.size()); }
    for (int t = 0; t < 2; ++t) { int n = 2 * rng(t, 4); VVL a(n, VL(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) a[i][j] = a[j][i] = rng.coin(1, 3) ? 0 : rng.coin(1, 2) ? rng(1, 9) : rng.next() % mint::mod(); std::vector<std::vector<mint>> q(n, std::vector<mint>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i][j] = a[i][j]; pend("hafnian", n); ev("haf", a, get(S::hafnian<mint>(q))); }
    for (int t = 0; t < 2; ++t) { int n = rng(1, 5), m = rng(0, 8); std::vector<std::pair<int, int>> es; for (int i = 0; i < m; ++i) es.push_back({(int)rng(0, n - 1), (int)rng(0, n - 1)}); pend("spanning", n, es); ev("trees", n, es, get(S::count_spanning_trees<mint>(n, es))); }
    finish();
}
int main(int argc, char** argv) {
    init(argc, argv); S::CirculantMatrix<mint>::set_multiplication(conv);
    for (int i = 0; i < reps(25); ++i) { ring<mint>(); ring<ll>(); ring<S::static_modint<12>>(); field<mint>(); field<S::static_modint<2>>(); field<S::static_modint<7>>(); anydet<S::static_modint<12>>(); anydet<S::static_modint<1000000>>(); anydet<mint>(); gauss<mint>(); gauss<S::static_modint<3>>(); gf2int(); greal(); f2(); f2(); spaces(); spaces(); xb<ull>(); xb<int>(); xb<ll>(); xb<unsigned>(); xbits(); misc(); misc(); arr<mint, 2, 3, 4>(); arr<mint, 3, 4, 2>(); arr<mint, 1, 1, 1>(); arr<mint, 5, 5, 5>(); arr<S::static_modint<5>, 4, 3, 1>(); }
    for (int i = 0; i < 8; ++i) strassen(i);   // every parity of the three dimensions
}
