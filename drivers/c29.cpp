// C29: containers, permutations, iteration, search and other small helpers
#include "vt.hpp"
#include "library/template.hpp"
#include "library/util/container_utils.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/default_operator.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/grid_utils.hpp"
#include "library/util/hashes.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/object_pool.hpp"
#include "library/util/pair_ops.hpp"
#include "library/util/permutation.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/rot90.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/search.hpp"
#include "library/util/step_view.hpp"
#include "library/util/subset_iterator.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/transpose.hpp"
#include "library/util/tuple_ops.hpp"
#include "library/util/update_proxy_object.hpp"
#include "library/util/variant_utils.hpp"
#include "library/util/vector_ops.hpp"
#include "library/util/zobrist_hash.hpp"
namespace S = suisen;
using vt::ll; using vt::ull; using vt::rng; using vt::ev; using vt::pend; using vt::begin; using vt::finish; using vt::reps; using vt::wide; using vt::uwide; using vt::W;
typedef std::vector<int> VI;
VI rvec(int n, int lo, int hi) { VI v(n); for (auto& x : v) x = rng(lo, hi); return v; }
VI rperm(int n) { VI p(n); std::iota(p.begin(), p.end(), 0); rng.shuffle(p); return p; }
VI chars(const std::string& s) { return VI(s.begin(), s.end()); }
void containers() {
    begin("util", 0);
    for (int t = 0; t < 12; ++t) {
        VI v = rvec(rng(0, 9), -6, 6); std::sort(v.begin(), v.end()); int k = rng(-8, 8); pend("count");
        ev("count", v, k, VI{S::count_leq(v, k), S::count_lt(v, k), S::count_geq(v, k), S::count_gt(v, k)});
        auto o = [](std::optional<int> x) { return x ? VI{*x} : VI{}; };
        ev("near", v, k, std::vector<VI>{o(S::min_geq(v, k)), o(S::min_gt(v, k)), o(S::max_leq(v, k)), o(S::max_lt(v, k))});
        std::set<int> s(v.begin(), v.end()); ev("near", v, k, std::vector<VI>{o(S::min_geq(s, k)), o(S::min_gt(s, k)), o(S::max_leq(s, k)), o(S::max_lt(s, k))});
        std::multiset<int> ms(v.begin(), v.end()); ev("near", v, k, std::vector<VI>{o(S::min_geq(ms, k)), o(S::min_gt(ms, k)), o(S::max_leq(ms, k)), o(S::max_lt(ms, k))});
        VI w = rvec(rng(0, 10), 0, 2); int d = rng(0, 2); pend("split", w, d); ev("split", w, d, S::split(w, d));
        std::string sw; for (int x : w) sw += char('a' + x); std::vector<VI> sp; for (auto& x : S::split(sw, char('a' + d))) sp.push_back(chars(x)); ev("split", chars(sw), (int)('a' + d), sp);
        { VI a = v; S::concat(a, w); ev("concat", v, w, a); ev("concat", v, w, S::concatenated(v, w)); VI b = w; pend("concat itself", b); S::concat(b, b); ev("concat", w, w, b); }
        { using namespace S; VI a = v; a += w; ev("concat", v, w, a); ev("concat", v, w, v + w); VI b = w; pend("+= itself", b); b += b; ev("concat", w, w, b); VI c = v; c += 7; ev("concat", v, VI{7}, c); ev("concat", v, VI{k}, v + k);
          int r = rng(0, 4); VI m = w; pend("repeat", m, r); m *= r; ev("repeat", w, r, m); VI n_ = w * r; ev("repeat", w, r, n_); }
        int fa = rng(-3, 3), fb = rng(-5, 5); ev("mapped", v, fa, fb, S::mapped_vec([&](int x) { return x * fa + fb; }, v)); { auto c = S::copied_vec<long long>(s); ev("mapped", VI(s.begin(), s.end()), 1, 0, c); }
        ll x = rng.coin(1, 3) ? rng(0, 3) : rng.coin(1, 3) ? (ll)(rng.next() >> 1) : rng(0, 100000); int base = rng(2, 16); pend("digits", wide(x), base); ev("digits", wide(x), base, S::digits(x, base), 0); ev("digits", wide(x), 10, S::digits(x), 0);
        { int wd = rng(0, 20); auto ds = [](const std::string& q) { VI r; for (char c : q) r.push_back(c - '0'); return r; }; ev("digits", wide(x), 2, ds(S::digits_str(x, wd)), wd); ev("digits", wide(x), 10, ds(S::digits_str<10>(x, wd)), wd); ev("digits", wide(x), 7, ds(S::digits_str<7>(x)), 0); }
        char c = 'a' + rng(0, 25), C = 'A' + rng(0, 25), D = '0' + rng(0, 9); ev("charmap", "fd", (int)D, S::charmap::fd(D)); ev("charmap", "fa", (int)c, S::charmap::fa(c)); ev("charmap", "fA", (int)C, S::charmap::fA(C)); ev("charmap", "faA", (int)c, S::charmap::faA(c)); ev("charmap", "faA", (int)C, S::charmap::faA(C));
    }
    finish();
}
template <class T> ll hs(const T& x) { return (ll)(std::hash<T>()(x) % 1000000007ull); }
void perms() {
    begin("util", 1);
    for (int t = 0; t < 12; ++t) {
        int n = rng(0, 8); VI a = rvec(n, 0, 9); S::Permutation p(rperm(n)), q(rperm(n)); pend("perm", (VI)p, (VI)q);
        ev("permute", (VI)p, a, p.permute(a), p.inv_permute(a)); ev("pmul", (VI)p, (VI)q, (VI)(p * q)); ev("pinv", (VI)p, (VI)p.inv()); { auto r = p; r *= q; ev("pmul", (VI)p, (VI)q, (VI)r); r = p; r *= r; ev("pmul", (VI)p, (VI)p, (VI)r); }
        ll k = rng.coin(1, 3) ? rng(0, 10) : rng.coin(1, 3) ? std::numeric_limits<ll>::max() - rng(0, 3) : (ll)(rng.next() >> 1); pend("ppow", (VI)p, wide(k)); ev("ppow", (VI)p, wide(k), (VI)p.pow(k));
        ev("pident", n, (VI)S::Permutation(n)); ev("pident", n, (VI)S::Permutation((std::size_t)n));
        ev("isort", a, (VI)S::Permutation::index_sort(a), true); ev("isort", a, (VI)S::Permutation::index_sort(a, std::greater<int>()), false);
        ev("isort", a, S::sorted_indices(n, [&](int i) { return a[i]; }), true); ev("isort", a, S::sorted_indices(n, [&](int i, int j) { return a[i] > a[j]; }), false);
        int m = rng(0, 20); S::Permutation b(rperm(m)); ull h = S::PermutationHash<ull>{}(b); pend("phash", (VI)b); ev("phash", (VI)b, uwide(h), (VI)S::PermutationHash<ull>::unhash(m, h));
        VI s = a; S::sort_unique_erase(s); ev("sortu", a, s);
        { int i = rng(0, 1000), j = rng(0, 1000); std::pair<int, int> x{i, j}, y{i, rng.coin(1, 2) ? j : j + 1}; ev("hash", VI{x.first, x.second}, VI{y.first, y.second}, hs(x), hs(y)); std::tuple<int, ll, char> u{i, j, 'a'}, v{i, y.second, 'a'}; ev("hash", VI{x.first, x.second}, VI{y.first, y.second}, hs(u), hs(v)); std::array<int, 3> c{i, j, 1}, d{i, y.second, 1}; ev("hash", VI{i, j, 1}, VI{i, y.second, 1}, hs(c), hs(d)); }
    }
    finish();
    int n = rng(0, 5), f = 1; for (int i = 2; i <= n; ++i) f *= i;
    begin("util", 2); for (int h = 0; h < f; ++h) { S::Permutation p = S::PermutationHash<int>::unhash(n, h); ev("punhash", n, wide(h), (VI)p, wide(S::PermutationHash<int>::hash(p))); } finish();
}
void grids() {
    begin("util", 3);
    for (int t = 0; t < 10; ++t) {
        int x = rng(-1, 4), y = rng(-1, 4), xl = rng(-2, 2), xr = xl + rng(0, 5), yl = rng(-2, 2), yr = yl + rng(0, 5);
        typedef std::vector<std::pair<int, int>> VP; auto col = [](auto&& c) { VP v; for (auto p : c) v.push_back(p); return v; };
        ev("adj", 4, x, y, VI{}, col(adjacent_four_cells(x, y)), (VP)adjacent_four_cells(x, y)); ev("adj", 8, x, y, VI{}, col(adjacent_eight_cells(x, y)), (VP)adjacent_eight_cells(x, y));
        ev("adj", 4, x, y, VI{xl, xr, yl, yr}, col(adjacent_four_cells(x, y, xl, xr, yl, yr)), (VP)adjacent_four_cells(x, y, xl, xr, yl, yr)); ev("adj", 8, x, y, VI{xl, xr, yl, yr}, col(adjacent_eight_cells(x, y, xl, xr, yl, yr)), (VP)adjacent_eight_cells(x, y, xl, xr, yl, yr));
        int h = rng(0, 4), w = rng(0, 4); ev("adj", 4, x, y, VI{0, h, 0, w}, col(adjacent_four_cells(x, y, h, w)), (VP)AdjacentFourCellsBounded(x, y, h, w)); ev("adj", 8, x, y, VI{0, h, 0, w}, col(adjacent_eight_cells(x, y, h, w)), (VP)AdjacentEightCellsBounded(x, y, h, w));
        ev("range", x, xl, xr, std::vector<bool>{in_range(x, xl, xr), out_range(x, xl, xr)}, std::vector<bool>{in_range(x, xr), out_range(x, xr)});
        { long long a = x, b = xl, c = xr; ev("range", x, xl, xr, std::vector<bool>{in_range(a, b, c), out_range(a, b, c)}, std::vector<bool>{in_range(a, c), out_range(a, c)}); }
        int n = rng(0, 4), m = rng(0, 4); std::vector<VI> A; std::vector<std::string> T; for (int i = 0; i < n; ++i) { A.push_back(rvec(m, 0, 9)); std::string s; for (int v : A.back()) s += char('0' + v); T.push_back(s); }
        auto cs = [](const std::vector<std::string>& v) { std::vector<VI> r; for (auto& s : v) r.push_back(chars(s)); return r; };
        ev("rot90", A, S::rot90(A)); ev("transpose", A, S::transpose(A)); ev("rot90", cs(T), cs(S::rot90(T))); ev("transpose", cs(T), cs(S::transpose(T)));
    }
    finish();
}
template <class T> W w_(T x) { return std::is_signed<T>::value ? wide(x) : uwide(x); }
void iteration() {
    begin("util", 4);
    for (int t = 0; t < 8; ++t) {
        int a = rng(0, 4), b = rng(0, 4), c = rng(1, 3); { std::vector<VI> q; for (auto& v : S::product_range(a, b)) q.push_back(VI(v.begin(), v.end())); ev("product", VI{a, b}, q); q.clear(); for (auto& v : S::product_range(a, (ll)c, b)) q.push_back(VI(v.begin(), v.end())); ev("product", VI{a, c, b}, q); q.clear(); for (auto& v : S::product_range(a)) q.push_back(VI(v.begin(), v.end())); ev("product", VI{a}, q); q.clear(); for (auto& v : S::product_range(c, a, 2, b)) q.push_back(VI(v.begin(), v.end())); ev("product", VI{c, a, 2, b}, q); }
        ull s = 0; int k = rng(0, 7); for (int i = 0; i < k; ++i) s |= 1ull << rng(0, 62);
        { unsigned u = (unsigned)(s >> 32 ^ s) & 0x7fffffff; u &= rng.next(); std::vector<W> q; if (__builtin_popcount(u) <= 8) { for (auto x : S::all_subset<unsigned>(u)) q.push_back(uwide(x)); ev("subsets", uwide(u), q); q.clear(); for (int x : S::all_subset<int>((int)u)) q.push_back(wide(x)); ev("subsets", uwide(u), q); } q.clear(); for (auto x : S::all_subset<ull>(s)) q.push_back(uwide(x)); ev("subsets", uwide(s), q); q.clear(); for (ll x : S::all_subset<ll>((ll)s)) q.push_back(wide(x)); ev("subsets", uwide(s), q);
          for (int j = 0; j <= __builtin_popcount(u) + 1 && j < 6; ++j) { q.clear(); pend("ksubsets", uwide(u), j); for (auto x : S::all_subset_k(u, j)) q.push_back(uwide(x)); ev("ksubsets", uwide(u), j, q); } for (int j = 0; j <= k + 1; ++j) { q.clear(); pend("ksubsets 64", uwide(s), j); for (auto x : S::all_subset_k_64(s, j)) q.push_back(uwide(x)); ev("ksubsets", uwide(s), j, q); } }
        { int n = rng(0, 7), j = rng(0, 7); std::vector<W> q; for (auto x : S::all_subset_k::nCk(n, j)) q.push_back(uwide(x)); ev("ksubsets", uwide((1ull << n) - 1), j, q); }
        if (t == 0) for (unsigned u : {0x7fffffffu, 0xfffffffeu, 0xbfffffffu}) for (int j : {0, 1, 2, 31, 30, 29}) { std::vector<W> q; pend("ksubsets", uwide(u), j); for (auto x : S::all_subset_k(u, j)) q.push_back(uwide(x)); ev("ksubsets", uwide(u), j, q); }
        if (t == 0) for (ull u : {0x7fffffffffffffffull, 0xfffffffffffffffeull}) for (int j : {0, 1, 62, 63}) { std::vector<W> q; pend("ksubsets 64", uwide(u), j); for (auto x : S::all_subset_k_64(u, j)) q.push_back(uwide(x)); ev("ksubsets", uwide(u), j, q); }
        { ull z = rng.next() & rng.next(); if (rng.coin(1, 5)) z = 0; if (rng.coin(1, 5)) z = ~0ull; VI q; for (auto x : S::all_setbit_64(z)) q.push_back((int)x); ev("setbits", uwide(z), q); q.clear(); for (auto x : S::all_setbit((unsigned)z)) q.push_back((int)x); ev("setbits", uwide((unsigned)z), q); }
        { int l = rng(-5, 5), r = l + rng(-2, 9), st = rng(1, 4); VI q; REP(i, l, r) q.push_back(i); ev("rep", l, r, 1, false, q); q.clear(); REP(i, l, r, st) q.push_back(i); ev("rep", l, r, st, false, q); q.clear(); RREP(i, l, r) q.push_back(i); ev("rep", l, r, 1, true, q); q.clear(); RREP(i, l, r, st) q.push_back(i); ev("rep", l, r, st, true, q); q.clear(); REP(i, a) q.push_back(i); ev("rep", 0, a, 1, false, q); q.clear(); RREP(i, a) q.push_back(i); ev("rep", 0, a, 1, true, q); q.clear(); int cnt = 0; LOOP(a) q.push_back(cnt++); ev("rep", 0, a, 1, false, q); q.clear(); REPINF(i, l, st) { if (i >= r) break; q.push_back(i); } ev("rep", l, r, st, false, q); }
        { int n = rng(1, 12); VI v = rvec(n, 0, 99); int sp = rng(1, 4), st = rng(0, n - 1), len = (n - 1 - st) / sp + 1; bool back = rng.coin(1, 3); if (back) { len = st / sp + 1; sp = -sp; } S::StepView<VI> view(v, st, sp, len); VI q; for (std::size_t i = 0; i < view.size(); ++i) q.push_back(view[i]); ev("step", v, st, sp, len, q);
          S::StepIterator<VI::iterator> it(v.begin() + st, sp), f = it; VI at, got; int pos = 0; for (int i = 0; i < 8; ++i) { int nx = rng(0, len - 1), d = nx - pos; switch (rng(0, 5)) { case 0: it += d; break; case 1: it -= -d; break; case 2: it = it + d; break; case 3: it = d + it; break; case 4: it = it - (-d); break; default: while (pos != nx) if (pos < nx) { if (rng.coin(1, 2)) ++it; else { auto o = it++; if (it - o != 1) got.push_back(-1); } ++pos; } else { if (rng.coin(1, 2)) --it; else it--; --pos; } } pos = nx; at.push_back(pos); got.push_back(rng.coin(1, 2) ? *it : f[pos]); if (it - f != pos) got.push_back(-1); }
          ev("stepit", v, st, sp, at, got, std::vector<bool>{it - f == pos, (it == f) == (pos == 0) && (it != f) == (pos != 0), back || ((it < f) == (pos < 0) && (f <= it) && (it > f) == (pos > 0) && (it >= f))}); }
        { int n1 = rng(1, 3), n2 = rng(1, 3); auto v = S::ndvec<int>(S::Dim(n1, n2), 5); VI fl; for (auto& r : v) for (int x : r) fl.push_back(x); ev("repeat", VI{5}, n1 * n2, fl); }
    }
    finish();
}
void search() {
    begin("util", 5);
    for (int t = 0; t < 10; ++t) {
        int l = rng(-20, 20), n = rng(1, 40); bool cx = rng.coin(1, 2); VI q(n); { int sl = -rng(0, 12), v = rng(-50, 50); for (auto& x : q) { x = v; v += sl; sl += rng.coin(1, 2) ? 0 : rng(0, 3); } if (!cx) for (auto& x : q) x = -x; }
        ll sc = rng.coin(1, 2) ? 1 : 10000000000ll; auto f = [&](int x) { return sc * q.at(x - l); }; pend("ternary", l, q); using tag = S::ternary_search_tag;
        int key = cx ? S::ternary_search_key<tag::Convex>(l, l + n - 1, f) : S::ternary_search_key<tag::Concave>(l, l + n - 1, f); ll val = cx ? S::ternary_search_value<tag::Convex>(l, l + n - 1, f) : S::ternary_search_value<tag::Concave>(l, l + n - 1, f); ev("ternary", cx, l, q, key, wide(val), wide(sc));
        { int c = rng(-1000000, 1000000); double lo = -2, hi = 3; auto g = [&](double x) { return (cx ? 1 : -1) * std::fabs(x - c * 1e-6); }; double k = cx ? S::ternary_search_key<tag::Convex>(lo, hi, 80, g) : S::ternary_search_key<tag::Concave>(lo, hi, 80, g); ev("ternaryr", (int)std::llround(k * 1e6), c); double v = cx ? S::ternary_search_value<tag::Convex>(lo, hi, 80, g) : S::ternary_search_value<tag::Concave>(lo, hi, 80, g); ev("ternaryr", (int)std::llround(v * 1e6), 0); }
        { ll th = rng.coin(1, 2) ? rng(-100, 100) : (ll)rng(-1000000000000000ll, 1000000000000000ll), lo = th - 1 - (rng.coin(1, 2) ? rng(0, 3) : rng(0, 1000000)), hi = th + (rng.coin(1, 2) ? rng(0, 3) : rng(0, 1000000)); auto g = [&](ll x) { return x >= th; }; ev("bsearch", wide(th), wide(S::binary_search(lo, hi, g))); ev("bsearch", wide(th), wide(S::binary_search_exponential(lo, g))); }
        { auto r = [&](auto lo, auto hi) { return (int)rng(lo, hi); }; int la = r(-6, 6), ra = la + r(-2, 6), lb = r(-6, 6), rb = lb + r(-2, 6), s = r(-14, 26); ev("sumsmall", la, ra, lb, rb, s, VI{S::sum_count(la, ra, lb, rb, s), S::sum_count_leq(la, ra, lb, rb, s), S::sum_count_lt(la, ra, lb, rb, s), S::sum_count_geq(la, ra, lb, rb, s), S::sum_count_gt(la, ra, lb, rb, s)});
          la = r(-1000000, 1000000), ra = la + r(-10, 1000000), lb = r(-1000000, 1000000), rb = lb + r(-10, 1000000), s = la + lb + r(-100, 2100000); pend("sumcount", la, ra, lb, rb, s); ev("sumcount", la, ra, lb, rb, s, std::vector<W>{wide(S::sum_count<int, ll>(la, ra, lb, rb, s)), wide(S::sum_count_leq<int, ll>(la, ra, lb, rb, s)), wide(S::sum_count_lt<int, ll>(la, ra, lb, rb, s)), wide(S::sum_count_geq<int, ll>(la, ra, lb, rb, s)), wide(S::sum_count_gt<int, ll>(la, ra, lb, rb, s))});
          { auto g = [&](int lo, int hi) { ll x = (ll)(rng.next() >> (64 - rng(lo, hi))); return rng.coin(1, 2) ? x : -x; }; ll A = g(1, 50), B = A + (rng.coin(1, 6) ? -1 : std::abs(g(25, 40))), C = g(1, 50), D = C + (rng.coin(1, 6) ? -1 : std::abs(g(5, 20))); if (rng.coin(1, 2)) std::swap(A, C), std::swap(B, D); ll Z = A + C + (rng.coin(1, 3) ? std::abs(g(1, 20)) : (ll)(rng.next() % (ull)std::max<ll>(1, B - A + D - C + 5)) - 2); pend("sumcount"); ev("sumcount", wide(A), wide(B), wide(C), wide(D), wide(Z), std::vector<W>{wide(S::sum_count(A, B, C, D, Z)), wide(S::sum_count_leq(A, B, C, D, Z)), wide(S::sum_count_lt(A, B, C, D, Z)), wide(S::sum_count_geq(A, B, C, D, Z)), wide(S::sum_count_gt(A, B, C, D, Z))}); }
          ll a = la, b = ra, c = lb, d = rb, e = s; ev("sumcount", la, ra, lb, rb, s, std::vector<W>{wide(S::sum_count(a, b, c, d, e)), wide(S::sum_count_leq(a, b, c, d, e)), wide(S::sum_count_lt(a, b, c, d, e)), wide(S::sum_count_geq(a, b, c, d, e)), wide(S::sum_count_gt(a, b, c, d, e))}); }
    }
    finish();
}
void arithmetic() {
    begin("util", 6);
    for (int t = 0; t < 10; ++t) {
        using namespace S; int m = rng(-9, 9), d = rng(1, 9) * (rng.coin(1, 2) ? 1 : -1);
        { std::pair<int, ll> x{(int)rng(-99, 99), rng(-99, 99)}, y{(int)rng(-99, 99), rng(-99, 99)}; auto v = [](const std::pair<int, ll>& p) { return VI{p.first, (int)p.second}; }; ev("tuple", v(x), v(y), m, std::vector<VI>{v(x + y), v(x - y), v(x * m), v(m * x)}); auto a = x, b = x, c = x; a += y; b -= y; c *= m; ev("tuple", v(x), v(y), m, std::vector<VI>{v(a), v(b), v(c), v(c)}); a = x; a += a; b = x; b -= b; ev("tuple", v(x), v(x), m, std::vector<VI>{v(a), v(b), v(c), v(c)}); }
        { typedef std::tuple<int, ll, short> T3; T3 x{(int)rng(-99, 99), rng(-99, 99), (short)rng(-99, 99)}, y{(int)rng(-99, 99), rng(-99, 99), (short)rng(-99, 99)}; auto v = [](const T3& p) { return VI{std::get<0>(p), (int)std::get<1>(p), std::get<2>(p)}; }; ev("tuple", v(x), v(y), m, std::vector<VI>{v(x + y), v(x - y), v(x * m), v(m * x)}); auto a = x, b = x, c = x; a += y; b -= y; c *= m; ev("tuple", v(x), v(y), m, std::vector<VI>{v(a), v(b), v(c), v(c)}); ev("tuplediv", v(x), d, v(x / d)); a = x; a /= d; ev("tuplediv", v(x), d, v(a)); }
        { int x = rng(-99, 99), y = d; namespace o = default_operator; namespace q = default_operator_noref; ev("ops", x, y, VI{o::add(x, y), o::sub(x, y), o::mul(x, y), o::div(x, y), o::mod(x, y), o::neg(x), o::zero<int>(), o::one<int>()}); ev("ops", x, y, VI{q::add(x, y), q::sub(x, y), q::mul(x, y), q::div(x, y), q::mod(x, y), q::neg(x), q::zero<int>(), q::one<int>()}); }
        { ll x = rng.coin(1, 2) ? rng(-30, 30) : (ll)rng(-1000000000000000ll, 1000000000000000ll), y = rng.coin(1, 2) ? d : (ll)rng(1, 100000000000ll) * (rng.coin(1, 2) ? 1 : -1); ev("fldcld", wide(x), wide(y), wide(fld(x, y)), wide(cld(x, y))); int a = (int)rng(-30, 30); ev("fldcld", wide(a), wide(d), wide(fld(a, d)), wide(cld(a, d))); }
        { int x = rng(-3, 3), y = rng(-3, 3), a = x, b = x; bool p = chmin(a, y), q = chmax(b, y); std::pair<bool, int> u{p, a}, v{q, b}; ev("chm", x, y, u, v); int n = rng(-9, 9); ev("powm1", n, pow_m1(n)); }
        { int v0 = rng(0, 50), a = rng(1, 6); const char* ops[] = {"++", "--", "+=", "-=", "*=", "/=", "%=", "=", "<<=", ">>=", "apply"}; for (auto o : ops) { int v = v0, cnt = 0; auto up = [&] { ++cnt; }; typedef UpdateProxyObject<int, decltype(up)> P; std::string s = o; if (s == "++") ++P(v, up); else if (s == "--") --P(v, up); else if (s == "+=") P(v, up) += a; else if (s == "-=") P(v, up) -= a; else if (s == "*=") P(v, up) *= a; else if (s == "/=") P(v, up) /= a; else if (s == "%=") P(v, up) %= a; else if (s == "=") P(v, up) = a; else if (s == "<<=") P(v, up) <<= a; else if (s == ">>=") P(v, up) >>= a; else P(v, up).apply([](int x) { return 3 * x + 1; }); ev("proxy", s, VI{v0, a}, v, cnt); } }
        { int which = rng(0, 2); std::variant<int, char, std::string> v; if (which == 0) v = 5; else if (which == 1) v = 'c'; else v = std::string("s"); VI ran; Match(v).with<int>([&](int) { ran.push_back(0); }).with<char>([&](char) { ran.push_back(1); }).otherwise([&] { ran.push_back(2); }); ev("match", VI{which}, ran); }
    }
    finish();
}
void compressor() {
    begin("comp", 0); typedef S::CoordinateCompressorBuilder<int> B; B b; VI init = rvec(rng(0, 6), -9, 9); int how = rng(0, 3);
    if (how == 1) { b = B(init); ev("push", init); } else if (how == 2) { b = B((int)init.size(), [&](int i) { return init[i]; }); ev("push", init); } else if (how == 3) { VI c = init; b = B(std::move(c)); ev("push", init); }
    for (int t = 0; t < 6; ++t) {
        VI v = rvec(rng(0, 4), -9, 9); switch (rng(0, 3)) { case 0: b.push(v); break; case 1: b.push(v.begin(), v.end()); break; case 2: for (int x : v) b.push(x); break; default: for (int x : v) b.emplace(x); } ev("push", v);
        auto c = b.build(); VI all; for (int i = 0; i < c.size(); ++i) all.push_back(c.decomp(i)); ev("size", c.size(), all);
        for (int k = 0; k < 4; ++k) { int x = rng(-11, 11), d = rng(50, 60); ev("ask", x, d, c.has_key(x), c.comp(x, d), c[x], VI{c.min_gt(x, d), c.min_geq(x, d), c.max_lt(x, d), c.max_leq(x, d)}, VI{c.min_gt_index(x), c.min_geq_index(x), c.max_lt_index(x), c.max_leq_index(x)}); }
    }
    finish();
    begin("comp", 1); VI v = rvec(rng(0, 8), -9, 9); ev("push", v); auto c = rng.coin(1, 2) ? B::build(v) : B::build((int)v.size(), [&](int i) { return v[i]; }); VI all; for (int i = 0; i < c.size(); ++i) all.push_back(c.decomp(i)); ev("size", c.size(), all); finish();
}
void rle() {
    begin("rle", 0); typedef S::RunLengthEncoder<VI> R; R r; VI v = rvec(rng(0, 8), 0, 1); if (rng.coin(2, 3)) { r = R(v); ev("init", v); }
    auto rd = [&] { std::vector<std::pair<int, ll>> q(r.begin(), r.end()); ev("read", q, r.length()); }; rd();
    for (int t = 0; t < 14; ++t) {
        int o = rng(0, 9);
        if (o <= 4) { int x = rng(0, 2), k = rng(1, 4); pend("push", x, k); if (k == 1) r.push_back(x); else r.push_back(x, k); ev("push", x, k); }
        else if (o <= 7) { int k = rng(0, 6); pend("pop", k); ll g = k == 1 ? r.pop_back() : r.pop_back(k); ev("pop", k, g); }
        else if (o == 8) { r.clear(); ev("clear"); }
        else { VI w = rvec(rng(0, 5), 0, 1); R z(w); if (rng.coin(1, 2)) { r.swap(z); } else r.swap(R(w)); ev("init", w); }
        rd();
    }
    finish();
    begin("rle", 1); std::string s; VI u; for (int i = rng(0, 9); i > 0; --i) { s += 'a' + rng(0, 1); u.push_back(s.back()); } S::RunLengthEncoder<std::string> q(s); ev("init", u); std::vector<std::pair<int, ll>> z; for (auto [c, k] : q) z.emplace_back(c, k); ev("read", z, q.length()); finish();
}
void rlew() {   // runs of up to 2^62 elements
    begin("rlew", 0); typedef S::RunLengthEncoder<VI> R; R r; auto big = [&] { return rng.coin(1, 3) ? rng(1, 5) : rng.coin(1, 2) ? (1ll << rng(29, 40)) + rng(-2, 2) : (1ll << rng(41, 55)) + rng(-9, 9); };
    for (int t = 0; t < 12; ++t) {
        if (rng.coin(3, 5)) { int x = rng(0, 2); ll k = big(); pend("push", x, wide(k)); r.push_back(x, k); ev("push", x, wide(k)); }
        else { ll k = rng.coin(1, 6) ? r.length() + rng(-2, 2) : rng.coin(1, 2) ? big() : (rng.coin(1, 2) ? 1 : r.length() / 2); if (k < 0) k = 0; pend("pop", wide(k)); ll g = r.pop_back(k); ev("pop", wide(k), wide(g)); }
        auto get = [](auto f, auto l) { std::vector<std::pair<int, W>> q; for (; f != l; ++f) q.emplace_back(f->first, wide(f->second)); return q; };
        std::vector<std::pair<int, W>> fb; if (r.begin() != r.end()) { fb.emplace_back(r.front().first, wide(r.front().second)); fb.emplace_back(r.back().first, wide(r.back().second)); }
        ev("read", get(r.begin(), r.end()), wide(r.length()), get(r.cbegin(), r.cend()), get(r.rbegin(), r.rend()), get(r.crbegin(), r.crend()), fb);
    }
    finish();
}
void loops() {   // the looping macros of the template
    begin("util", 9);
    for (int t = 0; t < 10; ++t) {
        int l = rng(-6, 6), r = l + rng(-2, 12), st = rng(1, 4), n = rng(-1, 7); VI a;
        pend("urep", l, r, st);
        REP(i, n) a.push_back(i); ev("urep", 0, n, 1, a); a.clear(); REP(i, l, r) a.push_back(i); ev("urep", l, r, 1, a); a.clear(); REP(i, l, r, st) a.push_back(i); ev("urep", l, r, st, a); a.clear();
        RREP(i, n) a.push_back(i); ev("drep", 0, n, 1, a); a.clear(); RREP(i, l, r) a.push_back(i); ev("drep", l, r, 1, a); a.clear(); RREP(i, l, r, st) a.push_back(i); ev("drep", l, r, st, a); a.clear();
        REPINF(i, l) { if ((int)a.size() == 9) break; a.push_back(i); } ev("repinf", l, 1, a); a.clear(); REPINF(i, l, st) { if ((int)a.size() == 9) break; a.push_back(i); } ev("repinf", l, st, a); a.clear();
        int c = 0; LOOP(n) ++c; ev("loop", n, c); ll L0 = (1ll << 40) + l; std::vector<ll> b; REP(i, L0, L0 + (r - l), st) b.push_back(i); for (auto& x : b) x -= (1ll << 40); ev("urep", l, r, st, b); b.clear(); RREP(i, L0, L0 + (r - l), (ll)st) b.push_back(i - (1ll << 40)); ev("drep", l, r, st, b);
        VI v = rvec(rng(0, 8), 0, 5), d = v; ev("sorted_idx", v, S::sorted_indices((int)v.size(), [&](int i) { return v[i]; }), 1); ev("sorted_idx", v, S::sorted_indices((int)v.size(), [&](int i, int j) { return v[i] > v[j]; }), -1);
        S::sort_unique_erase(d); ev("uniq", v, d); d = v; std::sort(d.begin(), d.end(), S::comparator<int>([&](int x) { return (x * 3) % 7; })); ev("bykey", v, d);
        { auto pq = S::priority_queue_with_comparator<int>([](int x, int y) { return x % 3 != y % 3 ? x % 3 < y % 3 : x < y; }); S::min_priority_queue<int> mn; S::max_priority_queue<int> mx; for (int x : v) pq.push(x), mn.push(x), mx.push(x); VI o, p, q; while (pq.size()) o.push_back(pq.top()), p.push_back(mn.top()), q.push_back(mx.top()), pq.pop(), mn.pop(), mx.pop(); ev("pq", v, o, p, q); }
        { int x = rng(0, 3), y = rng(0, 3), z = rng(0, 3), f = rng(-3, 3); ev("nd", x, y, z, f, S::ndvec<int>(S::Dim(x, y, z), f), S::ndvec<int>(S::Dim(x, y), f), S::ndvec<int>(S::Dim(x), f)); }
        { int x = rng(-5, 5), y = rng(-5, 5), p = x, q = x; bool u = S::chmin(p, y), w = S::chmax(q, y); ev("chm", x, y, std::make_pair(u, p), std::make_pair(w, q)); ev("m1", x, S::pow_m1(x)); }
    }
    finish();
}
template <bool EXT> void pool() {
    int cap = EXT ? rng(0, 3) : rng(1, 12); begin("pool", cap); S::ObjectPool<int, EXT> p = S::ObjectPool<int, EXT>(cap); std::map<int*, int> id; std::vector<int*> live; int v = 0;
    for (int t = 0; t < 40; ++t) {
        int o = rng(0, 9);
        if (o <= 4 && (EXT || (int)live.size() < cap)) { pend("alloc"); int* q = p.alloc(); *q = ++v; int i = id.emplace(q, (int)id.size()).first->second; live.push_back(q); ev("alloc", i, v); }
        else if (o <= 6 && !live.empty()) { int k = rng(0, live.size() - 1); pend("free"); p.free(live[k]); ev("free", id[live[k]]); live.erase(live.begin() + k); }
        else if (o == 7 && !live.empty()) { int* q = rng.pick(live); *q = ++v; ev("write", id[q], v); }
        else if (o == 8 && !live.empty()) { int* q = rng.pick(live); ev("read", id[q], *q); }
        else { if (rng.coin(1, 12)) { p.clear(); live.clear(); ev("clear"); } ev("size", p.size(), p.capacity()); }
    }
    for (int* q : live) ev("read", id[q], *q);
    finish();
}
struct Obj { int v; Obj(int v = -1) : v(v) {} };
void ptrs() {
    begin("pool", 0); typedef S::ptr32<Obj> P; P::dealloc_all(rng.coin(1, 2)); std::vector<P> live; int v = 0; if (rng.coin(1, 2)) P::reserve(5);
    { P z; P y = nullptr; ev("null", !z && z.is_null() && y == z && !z.is_not_null()); }
    for (int t = 0; t < 40; ++t) {
        int o = rng(0, 9);
        if (o <= 4) { P q = P::alloc(++v); live.push_back(q); ev("alloc", (int)q, v); ev("null", bool(q) && q.is_not_null() && !q.is_null() && q != P(nullptr)); }
        else if (o <= 6 && !live.empty()) { int k = rng(0, live.size() - 1); P::dealloc(live[k]); ev("free", (int)live[k]); live.erase(live.begin() + k); }
        else if (o == 7 && !live.empty()) { P q = rng.pick(live); q->v = ++v; ev("write", (int)q, v); }
        else if (o == 8 && !live.empty()) { P q = rng.pick(live); ev("read", (int)q, rng.coin(1, 2) ? (*q).v : q->v); }
        else if (rng.coin(1, 12)) { P::dealloc_all(rng.coin(1, 2)); live.clear(); ev("clear"); }
    }
    for (P q : live) ev("read", (int)q, q->v);
    for (int i = 0; i < 6 && !live.empty(); ++i) { P a = rng.pick(live), b = i % 2 ? a : rng.pick(live); ev("pcmp", (int)a, (int)b, std::vector<bool>{a == b, a != b, a < b, a <= b, a > b, a >= b}); }
    finish();
}
template <class Z> void zob(Z& z, int n) {
    begin("zob", 0); std::map<ull, int> id; id[0] = 0; std::set<int> s; ull h = z.empty_set(), h2 = 0; std::set<int> s2;
    auto out = [&](const std::set<int>& q, ull x) { int i = id.emplace(x, (int)id.size()).first->second; ev("hash", VI(q.begin(), q.end()), i); };
    out(s, h);
    for (int t = 0; t < 25; ++t) { int v = rng(0, n); switch (rng(0, 3)) { case 0: case 1: h = z.flip(h, v); if (!s.insert(v).second) s.erase(v); out(s, h); break; case 2: h2 = z.flip(h2, v); if (!s2.insert(v).second) s2.erase(v); out(s2, h2); break; default: { ull x = z.xor_set(h, h2); std::set<int> d; std::set_symmetric_difference(s.begin(), s.end(), s2.begin(), s2.end(), std::inserter(d, d.end())); out(d, x); out({v}, rng.coin(1, 2) ? z.sigleton_set(v) : z(v)); } } }
    finish();
}
void dv() {
    int d = rng(0, 1) ? rng(-9, 9) : 0; begin("dv", 0); const ll k = rng.coin(1, 2) ? 1 : 40000000003LL; auto z = [&](ll x) { return x % k ? 987654321 : (int)(x / k); }; S::default_vector<ll> v; if (d) { v.set_default_value(d * k); ev("default", d); } if (rng.coin(1, 3)) { VI q = rvec(rng(0, 4), 0, 9); std::vector<ll> q2; for (int x : q) q2.push_back(x * k); v.assign(q2.begin(), q2.end()); ev("init", q); }
    for (int t = 0; t < 15; ++t) {
        int i = rng(0, 8), x = rng(0, 99); const auto& c = v;
        switch (rng(0, 5)) { case 0: if (rng.coin(1, 2)) v[i] = x * k; else v.at(i) = x * k; ev("set", i, x); break; case 1: { ll g = v[i]; ev("ref", i, z(g)); break; } case 2: { int j = rng(-2, 9); ev("get", j, x, z(rng.coin(1, 3) ? c[j] : rng.coin(1, 2) ? c.at(j) : c.get_or_default(j)), z(c.get_or_default(j, x * k))); break; } case 3: v.resize(i); ev("resize", i); break; case 4: if (rng.coin(1, 3)) { v.set_default_value(x * k); ev("default", x); } break; default: ; }
        VI all; for (ll y : v) all.push_back(z(y)); ev("all", v.size(), all);
    }
    finish();
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    for (int t = 0; t < reps(25); ++t) { containers(); perms(); grids(); iteration(); search(); arithmetic(); }
    for (int t = 0; t < reps(60); ++t) {
        compressor(); rle(); rlew(); loops(); pool<false>(); pool<true>(); ptrs(); dv();
        { S::VecZobristHash<> z; zob(z, 6); S::VecZobristHash<> y(rng(0, 5)); zob(y, 6); S::ArrZobristHash<6> a; zob(a, 6); S::MapZobristHash<int> m; zob(m, 6); S::MapZobristHash<int> u(VI{0, 3, 5}); zob(u, 6); }
    }
}
