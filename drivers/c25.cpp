// Plane (integral and real) and space geometry.
#include "vt.hpp"
#include "library/integral_geom/geometry.hpp"
#include "library/integral_geom/closest_pair.hpp"
#include "library/integral_geom/convex_hull.hpp"
#include "library/integral_geom/convex_hull_inclusion.hpp"
#include "library/integral_geom/count_lattice_point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/sort_points_by_argument.hpp"
#include "library/geom/geometry.hpp"
#include "library/geom/closest_pair.hpp"
#include "library/geom/convex_hull.hpp"
#include "library/geom/segment_intersections.hpp"
#include "library/geom/geometry3d.hpp"
using namespace vt; namespace ig = suisen::integral_geometry; namespace rg = suisen::geometry; namespace sg = suisen::geometry3d;
typedef std::pair<ll, ll> P; typedef std::vector<P> VP; typedef std::vector<int> VI;
ig::Point ip(P p) { return ig::Point(p.first, p.second); }
// the length of the model's unit in the real plane and in space: figures are similar, answers are read back in units
long double U = 1;
rg::Point rp(P p) { return rg::Point(p.first * U, p.second * U); }
P back(const ig::Point& p) { return {p.x, p.y}; }
W mic(long double x) { if (!(std::fabs(x) < 1e12L)) return W{"987654321987654321"}; return wide((i128)llroundl(x * 1e6L)); }
W len(long double x) { return mic(x / U); } W sq(long double x) { return mic(x / (U * U)); }
std::pair<W, W> mp(const rg::Point& p) { return {len(p.real()), len(p.imag())}; }
std::vector<std::pair<W, W>> mps(const std::vector<rg::Point>& v) { std::vector<std::pair<W, W>> o; for (auto& p : v) o.push_back(mp(p)); return o; }
std::pair<std::pair<W, W>, W> mc(const rg::Circle& c) { return {mp(c.center), len(c.radius)}; }
std::vector<ig::Point> iv(const VP& v) { std::vector<ig::Point> o; for (auto& p : v) o.push_back(ip(p)); return o; }
std::vector<rg::Point> rv(const VP& v) { std::vector<rg::Point> o; for (auto& p : v) o.push_back(rp(p)); return o; }
P pt(ll c) { return {rng(-c, c), rng(-c, c)}; }
ll crossv(P a, P b, P c) { return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first); }
P differ(ll c, P a) { P b; do b = pt(c); while (b == a); return b; }
P along(P a, P b, ll c) { int k = rng(-3, 4); if (rng.coin(1, 2)) return pt(c); return {a.first + k * (b.first - a.first), a.second + k * (b.second - a.second)}; }   // often on the line through a and b
VP pts(int n, ll c) { VP v(n); int s = rng(0, 5); P a = pt(c > 100 ? c / 4 : c), d = pt(std::max<ll>(1, c > 100 ? c / 64 : c / 8)); int gw = rng(1, 5), gh = rng(1, 5); for (int i = 0; i < n; ++i) { v[i] = s == 5 ? P(a.first + rng(0, gw), a.second + rng(0, gh)) : s == 0 ? P(a.first + d.first * rng(0, 5), a.second) : s == 1 ? P(a.first + d.first * (i + 1), a.second + d.second * (i + 1)) : pt(s == 2 ? 2 : c); if (s == 4 && i && rng.coin(1, 4)) v[i] = v[rng(0, i - 1)]; } return v; }
VP distinct(VP v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); rng.shuffle(v); return v; }
bool collinear(const VP& v) { for (auto& p : v) for (auto& q : v) if (crossv(v[0], p, q)) return false; return true; }
// strict convex hull, counter-clockwise, made by the driver itself (used as an input, never as an expected value)
VP hull(VP v, bool keep) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); int n = v.size(); if (n < 3) return v; VP h; for (int t = 0; t < 2; ++t) { size_t b = h.size(); for (auto& p : v) { while (h.size() >= b + 2 && (keep ? crossv(h[h.size() - 2], h.back(), p) < 0 : crossv(h[h.size() - 2], h.back(), p) <= 0)) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(v.begin(), v.end()); } return h; }
VP convexpoly(ll c, bool keep) { for (;;) { VP v; for (int i = rng(3, 8); i--;) v.push_back(pt(c)); if (!collinear(v)) return hull(v, keep); } }
VP simple(ll c) {          // simple polygon, counter-clockwise
    int s = rng(0, 2); if (s == 0) return convexpoly(c, true);
    if (s == 1) { int w = rng(1, 4); VP p; p.push_back({0, 0}); p.push_back({w, 0}); for (int i = w; i-- > 0;) { int h = rng(1, 5); if (p.back() != P(i + 1, h)) p.push_back({i + 1, h}); p.push_back({i, h}); } P o = pt(3); for (auto& q : p) q.first += o.first, q.second += o.second; return p; }
    for (;;) { VP v; int n = rng(3, 8); for (int i = 0; i < n; ++i) v.push_back(differ(c, {0, 0})); std::sort(v.begin(), v.end(), [](P a, P b) { return std::atan2(a.second, a.first) < std::atan2(b.second, b.first); }); bool ok = true; int k = v.size(); for (int i = 0; i < k; ++i) { P a = v[i], b = v[(i + 1) % k]; if (crossv({0, 0}, a, b) <= 0) ok = false; } if (ok) return v; }
}
int inc(ig::Inclusion x) { return x == ig::Inclusion::OUT ? 0 : x == ig::Inclusion::ON ? 1 : 2; }
int inc(rg::Containment x) { return x == rg::Containment::OUT ? 0 : x == rg::Containment::ON ? 1 : 2; }

void integral() {
    begin("geo"); using namespace ig;
    for (int t = 0; t < 6; ++t) {
        ll c = t == 0 ? 1000000000 : t == 1 ? 2 : rng(1, 15); P a = pt(c), b = differ(c, a), d = pt(c), f = differ(c, d); if (c < 100) { d = along(a, b, c); f = along(a, b, c); while (f == d) f = pt(c + 1); if (rng.coin(1, 5)) { d = a; if (f == d) f = b; } if (rng.coin(1, 8)) { d = b, f = a; } }
        auto A = ip(a), B = ip(b), C = ip(d), F = ip(f); pend("isp", a, b, d, f);
        ev("isp", a, b, d, isp(A, B, C)); Segment s1(A, B), s2(C, F); Line l1(A, B), l2(C, F); Ray r1(A, B), r2(C, F);
        ev("pair2", a, b, d, f, std::vector<bool>{is_parallel(l1, s2), is_orthogonal(r1, l2), on_the_same_line(s1, r2), has_common_point(s1, s2)});
        ev("same", "line", a, b, d, f, l1 == l2); ev("same", "ray", a, b, d, f, r1 == r2); ev("same", "seg", a, b, d, f, s1 == s2);
        ev("on", "line", a, b, d, inc(contains(l1, C)) == 1); ev("on", "ray", a, b, d, inc(contains(r1, C)) == 1); ev("on", "seg", a, b, d, inc(contains(s1, C)) == 1);
        ev("cmps", a, d, std::vector<bool>{XY_COMPARATOR(A, C), XY_COMPARATOR_GREATER(A, C), YX_COMPARATOR(A, C), YX_COMPARATOR_GREATER(A, C), A == C, A != C});
        { P io = d; std::stringstream ss; ss << A; Point z; ss >> z; Point y = cartesian(A.x, A.y), w; w = d; std::pair<ll, ll> u = C; y.get<0>() += 0; ev("basic", a, d, std::vector<P>{back(z), P(std::as_const(y).get<0>(), std::as_const(y).get<1>()), back(conj(A)), u, back(w)}, VI{sgn(a.first), compare(a.first, d.first)}); ev("norm", a, mic(ig::abs(A)), arg(A) >= 0 ? 1 : -1); (void)io; }
        if (c <= 15) { int k = rng(1, 4); Point p1 = A, p2 = A, p3 = A, p4 = A; p1 += B; p2 -= B; p3 *= B; p4 += k; Point p5 = A; p5 -= k; Point p6 = A; p6 *= k; Point p7 = A; p7 /= k; ev("pops", a, b, k, std::vector<P>{back(A + B), back(A - B), back(A * B), back(-A), back(A + k), back(A - k), back(A * k), back(k - A), back(A / k), P(dot(A, B), det(A, B)), back(conj(A))}); ev("pops", a, b, k, std::vector<P>{back(p1), back(p2), back(p3), back(-(+A)), back(p4), back(p5), back(p6), back((ll)k - A), back(p7), P(dot(B, A), -det(B, A)), back(conj(A))}); }
        ll r = rng(1, std::min<ll>(c, 20)), s = rng(1, std::min<ll>(c, 20)); if (c > 100) r = rng(1, c), s = rng(1, c); if (!(a == d && r == s)) { P e2 = d; if (c <= 100 && rng.coin(1, 2)) e2 = {a.first + (rng.coin(1, 2) ? r + s : r - s), a.second}; if (!(e2 == a && r == s)) { Circle c1(A, r), c2(ip(e2), s); ev("tnumc", a, r, e2, s, tangent_num(c1, c2), has_common_point(c1, c2), has_cross_point(c1, c2)); } }
        ev("incircle", a, r, d, inc(contains(Circle(A, r), C))); P on = {a.first + r, a.second}; ev("incircle", a, r, on, inc(contains(Circle(A, r), ip(on))));
    }
    for (int t = 0; t < 3; ++t) {
        VP g = simple(7); ev("convex", g, is_convex(iv(g)), is_convex<false>(iv(g))); if (rng.coin(1, 2)) std::reverse(g.begin(), g.end()); std::rotate(g.begin(), g.begin() + rng(0, g.size() - 1), g.end());
        Polygon q = iv(g); ev("area2", g, wide(signed_area_doubled(q)), wide(area_doubled(q))); ev("area2", VP{g[0], g[1], g[2]}, wide(signed_area_doubled(q[0], q[1], q[2])), wide(area_doubled(q[0], q[1], q[2])));
        for (int i = 0; i < 12; ++i) { P p = rng.coin(1, 4) ? rng.pick(g) : pt(8); if (rng.coin(1, 3)) p.second = rng.pick(g).second; ev("where", g, p, inc(contains(q, ip(p)))); }
        ev("lattice", g, count_lattice_points(g)); if (rng.coin(1, 4)) { VP h{pt(5)}; ev("lattice", h, count_lattice_points(h)); h.push_back(pt(5)); ev("lattice", h, count_lattice_points(h)); }
    }
    finish();
}
void sets(int t) {
    begin("geo"); using namespace ig; ll c = t % 5 == 0 ? 1000000000 : t % 5 == 1 ? 99 : rng(1, 12); int n = t % 13 == 0 ? 1 : t % 13 == 1 ? 2 : rng(3, t % 3 == 0 ? 40 : t % 3 == 1 ? 25 : 12);
    VP v = pts(n, c); VP dv = distinct(v); bool plain = dv.size() == v.size() || !collinear(v);
    const VP& hv = plain ? v : dv; pend("convex_hull", hv); ev("hull", hv, convex_hull(hv)); ev("hull", hv, rg::convex_hull(rv(hv))); const ll KB = 40000000003LL; auto far = [&](VP w) { for (auto& x : w) x.first *= KB, x.second *= KB; return w; }; const bool small = c < 100000; if (small) { pend("far hull", hv); ev("hull", hv, (convex_hull<P, __int128_t>(far(hv)))); } if (t % 11 == 0) { ev("hull", VP(), convex_hull(VP())); ev("hull", VP(), rg::convex_hull({})); }
    { VP g = hull(v, rng.coin(1, 2)); if (g.size() > 2) { if (rng.coin(1, 2)) std::reverse(g.begin(), g.end()); Polygon z = iv(g); ev("area2", g, wide(signed_area_doubled(z)), wide(area_doubled(z))); ev("area2", VP{g[0], g[1], g[2]}, wide(signed_area_doubled(z[0], z[1], z[2])), wide(area_doubled(z[0], z[1], z[2]))); } }
    pend("closest", v); auto [p, q] = closest_pair(iv(v)); ev("closest", v, back(p), back(q)); if (c < 100) { const long double f = t % 4 == 0 ? 4294967296.0L : 1; auto z = rv(v); for (auto& w : z) w *= f; auto [x, y] = rg::closest_pair(z); ev("closest", v, P(llroundl(x.real() / f), llroundl(x.imag() / f)), P(llroundl(y.real() / f), llroundl(y.imag() / f))); }
    pend("farthest", v); auto [f, g] = farthest_pair(v); ev("farthest", v, f, g);
    { VP h = hull(v, false); pend("convex_diameter", h); if (h.size() > 1) { auto [i, j] = convex_diameter(iv(h)); auto d2 = rg::convex_diameter(rv(h)); ev("diam", h, i, j, mic(std::sqrt((long double)square_abs(ip(h[i]) - ip(h[j]))))); if (c < 100) ev("diam", h, std::get<0>(d2), std::get<1>(d2), mic(std::get<2>(d2))); } }
    VP h = hull(v, rng.coin(1, 2)); if (rng.coin(1, 4) && collinear(v)) h = hull(v, false); if (h.size() > 2 && collinear(h)) h = {h.front(), h.back()}; std::rotate(h.begin(), h.begin() + rng(0, h.size() - 1), h.end()); if (rng.coin(1, 5)) h.push_back(h[0]);
    pend("ConvexHullInclusion", h); ConvexHullInclusion<P> in(h); ConvexHullInclusion<std::pair<int, int>> in2(std::vector<std::pair<int, int>>(h.begin(), h.end())); VP hh = h; if (hh.size() > 1 && hh.back() == hh[0]) hh.pop_back(); ConvexHullInclusion<P> in3(small ? far(h) : h);
    for (int i = 0; i < 12; ++i) { P p = rng.coin(1, 3) ? rng.pick(hh) : pt(c); if (c < 100) { if (rng.coin(1, 3)) p.first = rng.pick(hh).first; if (rng.coin(1, 4)) { P a = rng.pick(hh), b = rng.pick(hh); p = {(a.first + b.first) / 2, (a.second + b.second) / 2}; } } ev("wherehull", hh, p, inc(rng.coin(1, 2) ? in(p) : in(p.first, p.second))); ev("wherehull", hh, p, inc(in2(p))); if (small) { P z(p.first * KB, p.second * KB); ev("wherehull", hh, p, inc(in3(z))); } }
    VP s = v; for (auto& x : s) if (rng.coin(1, 6)) x = {rng(0, 1) ? 0 : x.first, 0}; VP so = s; pend("sort_points_by_argument", s); sort_points_by_argument(so); ev("argsort", s, so); { std::vector<std::pair<int, int>> si(s.begin(), s.end()); sort_points_by_argument(si); ev("argsort", s, VP(si.begin(), si.end())); } { auto w = iv(s); sort_points_by_argument(w); VP o; for (auto& x : w) o.push_back(back(x)); ev("argsort", s, o); }
    std::vector<std::pair<ll, P>> ver; std::vector<std::pair<P, ll>> hor; for (int i = rng(0, 8); i--;) ver.emplace_back(rng(-c, c), pt(c)); for (int i = rng(0, 8); i--;) hor.emplace_back(pt(c), rng(-c, c)); pend("segment_intersections"); ev("gridmeets", ver, hor, rg::segment_intersections(ver, hor));
    finish();
}
// well spread points (closest pairs across every dividing line) and hulls with many vertices on a side
void spread(int t) {
    begin("geo"); using namespace ig; int n = 2 + t % 40; VP v(n); for (auto& p : v) p = pt(600); pend("closest", v); auto [p, q] = closest_pair(iv(v)); ev("closest", v, back(p), back(q)); auto [x, y] = rg::closest_pair(rv(v)); ev("closest", v, P(llroundl(x.real()), llroundl(x.imag())), P(llroundl(y.real()), llroundl(y.imag())));
    int w = rng(1, 6), h = rng(1, 6); VP b; for (int i = 0; i < w; ++i) b.push_back({i, 0}); for (int i = 0; i < h; ++i) b.push_back({w, i}); for (int i = w; i > 0; --i) b.push_back({i, h}); for (int i = h; i > 0; --i) b.push_back({0, i});
    VP g; for (auto& z : b) { bool corner = (z.first == 0 || z.first == w) && (z.second == 0 || z.second == h); if (corner ? !rng.coin(1, 8) : rng.coin(2, 3)) g.push_back(z); } if (g.size() < 3 || collinear(g)) g = b; std::rotate(g.begin(), g.begin() + rng(0, g.size() - 1), g.end()); P o = pt(5); for (auto& z : g) z.first += o.first, z.second += o.second;
    pend("ConvexHullInclusion", g); ConvexHullInclusion<P> in(g); for (int i = -1; i <= w + 1; ++i) for (int j = -1; j <= h + 1; ++j) { P z(o.first + i, o.second + j); ev("wherehull", g, z, inc(in(z))); }
    ev("where", g, o, inc(contains(iv(g), ip(o)))); ev("lattice", g, count_lattice_points(g)); rng.shuffle(g); pend("hull", g); ev("hull", g, convex_hull(g)); ev("hull", g, rg::convex_hull(rv(g))); auto [f1, f2] = farthest_pair(g); ev("farthest", g, f1, f2);
    finish();
}
void real() {
    begin("geo"); using namespace rg; { static const long double us[] = {1, 0.25L, 0.125L, 8}; U = us[rng(0, 3)]; }
    for (int t = 0; t < 4; ++t) {
        ll c = t == 0 ? 2 : rng(1, 12); P a = pt(c), b = differ(c, a), d = along(a, b, c), f = along(a, b, c); while (f == d) f = pt(c + 1); if (rng.coin(1, 5)) { d = a; if (f == d) f = b; } if (rng.coin(1, 8)) { d = b, f = a; }
        auto A = rp(a), B = rp(b), C = rp(d), F = rp(f); Segment s1(A, B), s2(C, F); Line l1(A, B), l2(C, F); Ray r1(A, B), r2(C, F); pend("real", a, b, d, f);
        ev("isp", a, b, d, isp(A, B, C)); ev("pair2", a, b, d, f, std::vector<bool>{is_parallel(l1, s2), is_orthogonal(r1, l2), on_the_same_line(s1, r2), has_common_point(s1, s2)});
        ev("same", "line", a, b, d, f, equals(l1, l2)); ev("same", "ray", a, b, d, f, equals(r1, r2)); ev("same", "seg", a, b, d, f, equals(s1, s2));
        ev("on", "line", a, b, d, inc(contains(l1, C)) == 1); ev("on", "ray", a, b, d, inc(contains(r1, C)) == 1); ev("on", "seg", a, b, d, inc(contains(s1, C)) == 1);
        ev("cmps", a, d, std::vector<bool>{XY_COMPARATOR(A, C), XY_COMPARATOR_GREATER(A, C), YX_COMPARATOR(A, C), YX_COMPARATOR_GREATER(A, C), A == C, A != C});
        { std::stringstream ss; rg::operator<<(ss, A); Point z; rg::operator>>(ss, z); auto pb = [](const Point& p) { return P(llroundl(p.real() / U), llroundl(p.imag() / U)); }; ev("basic", a, d, std::vector<P>{pb(z), pb(cartesian(a.first * U, a.second * U)), pb(rg::conj(A)), pb(C), pb(C)}, VI{sgn(a.first * U), compare(a.first * U, d.first * U)}); ev("norm", a, len(rg::abs(A)), rg::arg(A) >= 0 ? 1 : -1);
          long double k = rng(1, 4), ku = k * U; ev("rops", a, (int)k, std::vector<P>{pb(rg::operator+(A, ku)), pb(rg::operator-(A, ku)), pb(rg::operator*(A, k)), pb(rg::operator+(ku, A)), pb(rg::operator-(ku, A)), pb(rg::operator*(k, A))}); { rg::Point h(a.first * 0.5L, a.second * 0.5L); ev("reals", a, d, std::vector<bool>{equals(a.first * 0.5L, d.first * 0.5L), equals(h, rg::Point(d.first * 0.5L, d.second * 0.5L)), equals(a.first * 1.5L, d.second * 1.5L)}, VI{compare(a.first * 0.5L, d.first * 0.5L), sgn(a.first * 0.25L)}); } const long double h = rng.coin(1, 2) ? 1 : 0.5L; Point q1 = rg::operator/(Point(A.real() * h, A.imag() * h), k * h); ev("rdiv", a, (int)k, mp(q1)); if (a != P(0, 0)) { Point q2 = rg::operator/(k * U * U, A); ev("rinv", a, (int)k, mp(q2)); } }
        ev("dist", "line", a, b, d, sq(square_distance(l1, C)), len(distance(C, l1))); ev("dist", "ray", a, b, d, sq(square_distance(r1, C)), len(distance(C, r1))); ev("dist", "seg", a, b, d, sq(square_distance(C, s1)), len(distance(s1, C)));
        { auto pb = [](const Point& p) { return P(llroundl(p.real() / U), llroundl(p.imag() / U)); }; std::vector<P> got; auto take = [&](const auto& x) { auto [p, q] = x; got.push_back(pb(p)), got.push_back(pb(q)); auto y = x; auto& [u, v] = y; std::swap(u, v); got.push_back(pb(y.a)), got.push_back(pb(y.b)); }; take(l1), take(r1), take(s1); ev("parts", a, b, got); }
        ev("proj", a, b, d, mp(projection(C, l1))); ev("refl", a, b, d, mp(reflection(C, s1))); ev("dist", "line", a, b, d, sq(square_distance(C, l1)), len(distance(l1, C))); ev("dist", "ray", a, b, d, sq(square_distance(C, r1)), len(distance(r1, C))); ev("dist", "seg", a, b, d, sq(square_distance(s1, C)), len(distance(C, s1)));
        ev("segdist", a, b, d, f, sq(square_distance(s1, s2)), len(distance(s1, s2))); auto cp = common_point(s1, s2); std::vector<std::pair<W, W>> o; if (cp.index() == 1) o = {mp(std::get<1>(cp))}; if (cp.index() == 2) o = {mp(std::get<2>(cp).a), mp(std::get<2>(cp).b)}; ev("segmeet", a, b, d, f, o);
        int x = rng(-4, 4), y = rng(-4, 4), z = rng(-9, 9); if (x || y) { const long double h = std::vector<long double>{1, 0.5L, 0.25L, -1.5L}[rng(0, 3)]; Line l(x * h, y * h, z * U * h); ev("linecoef", x, y, z, mp(l.a), mp(l.b)); }
        ll r = rng(1, 8), s = rng(1, 8); P e2 = d; int how = rng(0, 4); if (how == 0) e2 = {a.first + r + s, a.second}; if (how == 1) e2 = {a.first, a.second + r - s}; if (how == 2) r = 5, s = rng(1, 9), e2 = {a.first + 3, a.second - 4}; Circle c1(A, r * U), c2(rp(e2), s * U);
        if (e2 != a) { ev("tnum", a, r, e2, s, tangent_num(c1, c2)); ev("cc", a, r, e2, s, mps(common_point(c1, c2))); std::vector<std::pair<std::pair<W, W>, std::pair<W, W>>> ls; for (auto& l : common_tangent(c1, c2)) ls.push_back({mp(l.a), mp(l.b)}); ev("ct", a, r, e2, s, ls); }
        if (t == 0 || rng.coin(1, 3)) { pend("area", a, r, e2, s); ev("areacc", a, r, e2, s, sq(intersection_area(c1, c2))); }
        { Circle cc(C, r * U); ev("cl", d, r, a, b, mps(common_point(cc, l1))); ev("cs", d, r, a, b, mps(common_point(cc, s1))); P g = {d.first + (rng.coin(1, 2) ? r : -r), rng(-5, 5)}, h = {g.first, rng(-5, 5)}; if (g != h) { ev("cl", d, r, g, h, mps(common_point(cc, Line(rp(g), rp(h))))); ev("cs", d, r, g, h, mps(common_point(cc, Segment(rp(g), rp(h))))); } ev("incircle", d, r, a, inc(contains(cc, A))); P on = {d.first, d.second - r}; ev("incircle", d, r, on, inc(contains(cc, rp(on)))); ev("tan", d, r, on, mps(tangent_to_circle(cc, rp(on)))); ev("tan", d, r, a, mps(tangent_to_circle(cc, A))); }
        P k = pt(c); if (std::llabs(crossv(a, b, k)) >= 1) { auto K = rp(k); auto [i1, i2, i3] = pIabc(A, B, K); ev("tri", a, b, k, mp(pG(A, B, K)), mp(pH(A, B, K)), mc(pO(A, B, K)), mc(pI(A, B, K)), mc(i1), mc(i2), mc(i3)); }
        if (a != P(0, 0)) ev("polar", a, mp(polar(abs(A), arg(A))), len(abs(A)), mp(rot(A, PI / 2)));
    }
    for (int t = 0; t < 2; ++t) {
        VP g = simple(7); ev("convex", g, is_convex(rv(g)), is_convex<false>(rv(g))); P o = pt(6); int r = rng(1, 6); { VP h = convexpoly(6, false); pend("polygon circle", h, o, r); if (rng.coin(1, 6)) o = h[0]; ev("areapc", h, o, r, sq(intersection_area(rv(h), Circle(rp(o), r * U)))); }
        { VP g1(g.begin(), g.begin() + 3), g2 = g; g2.erase(g2.begin() + 1); Circle ci(rp(o), r * U); ev("additive", sq(intersection_area(rv(g1), ci)), sq(g2.size() > 2 ? intersection_area(rv(g2), ci) : 0), sq(intersection_area(rv(g), ci))); }
        if (rng.coin(1, 2)) std::reverse(g.begin(), g.end()); auto q = rv(g); ev("areaU", g, sq(signed_area(q)), sq(area(q))); ev("areaU", VP{g[0], g[1], g[2]}, sq(signed_area(q[0], q[1], q[2])), sq(area(q[0], q[1], q[2])));
        for (int i = 0; i < 8; ++i) { P p = rng.coin(1, 4) ? rng.pick(g) : pt(8); if (rng.coin(1, 3)) p.second = rng.pick(g).second; ev("where", g, p, inc(contains(q, rp(p)))); }
        VP h = convexpoly(8, rng.coin(1, 2)); P a = rng.coin(1, 3) ? rng.pick(h) : pt(8), b = rng.coin(1, 3) ? rng.pick(h) : pt(8); if (a != b) ev("cut", h, a, b, mps(convex_cut(rv(h), Line(rp(a), rp(b)))), mps(convex_cut(rv(h), Line(rp(b), rp(a)))));
    }
    finish(); U = 1;
}
typedef std::array<int, 3> Q; sg::Point sp(const Q& q) { return {q[0] * U, q[1] * U, q[2] * U}; }
std::vector<W> m3(const sg::Point& p) { return {len(p[0]), len(p[1]), len(p[2])}; } VI i3(const sg::Point& p, long double d = 1) { VI o; for (auto x : p) o.push_back((int)llroundl(x / U / d * 1e6L)); return o; }
template <class A, class B> void kd(const char* ka, const char* kb, Q a, Q b, Q c, Q d) { const A l(sp(a), sp(b)); const B m(sp(c), sp(d)); pend("dist", ka, kb, a, b, c, d); ev("kdist", ka, a, b, kb, c, d, len(sg::dist(l, m))); }
template <class A> void one(const char* k, Q a, Q b, Q p, Q c, Q d, bool par, const std::array<Q, 3>& tr, const sg::Plane& pl) {
    const A l(sp(a), sp(b)), m(sp(c), sp(d)); pend("3d", k, a, b, p, c, d, tr); ev("ptdist", k, a, b, p, len(sg::dist(l, sp(p))), sg::on(l, sp(p))); ev("proj", a, b, p, m3(sg::projection(l, sp(p))));
    auto out = [](const std::optional<sg::Point>& x) { std::vector<std::vector<W>> o; if (x) o.push_back(m3(*x)); return o; };
    if (!par) ev("cross", k, a, b, c, d, out(sg::cross_point(l, m))); ev("plk", tr, k, a, b, len(sg::dist(pl, l)), out(sg::cross_point(pl, l)), sg::is_parallel(pl, l), sg::is_orthogonal(pl, l));
    kd<A, sg::Line>(k, "line", a, b, c, d); kd<A, sg::Ray>(k, "ray", a, b, c, d); kd<A, sg::Segment>(k, "seg", a, b, c, d);
}
void space() {
    begin("geo3"); { static const long double us[] = {1, 0.25L, 0.125L, 8}; U = us[rng(0, 3)]; }
    for (int t = 0; t < 3; ++t) {
        int c = t == 0 ? 1 : rng(1, 6); auto q = [&] { return Q{(int)rng(-c, c), (int)rng(-c, c), (int)rng(-c, c)}; }; auto ne = [&](Q a) { Q b; do b = q(); while (b == a); return b; }; auto on = [&](Q a, Q b) { int k = rng(-1, 2); Q o; for (int i = 0; i < 3; ++i) o[i] = a[i] + k * (b[i] - a[i]); return rng.coin(1, 2) ? o : q(); };
        Q a = q(), b = ne(a), p = on(a, b), cc = on(a, b), d = ne(cc); if (rng.coin(1, 4)) for (int i = 0; i < 3; ++i) d[i] = cc[i] + (b[i] - a[i]) * (rng.coin(1, 2) ? 1 : -1);
        auto cr = [](Q a, Q b, Q c, Q d) { Q u, v; for (int i = 0; i < 3; ++i) u[i] = b[i] - a[i], v[i] = d[i] - c[i]; return Q{u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]}; }; if (d == cc) continue;
        std::array<Q, 3> tr; do { tr = {q(), q(), q()}; if (rng.coin(1, 3)) tr[0] = a; if (rng.coin(1, 6)) tr[1] = b; } while (cr(tr[0], tr[1], tr[0], tr[2]) == Q{0, 0, 0});
        sg::Plane pl(sp(tr[0]), sp(tr[1]), sp(tr[2])); if (rng.coin(1, 3)) { Q n = cr(tr[0], tr[1], tr[0], tr[2]); long double x = n[0], y = n[1], z = n[2], w = -(x * tr[0][0] + y * tr[0][1] + z * tr[0][2]); w *= U; const long double h = std::vector<long double>{1, 0.5L, 0.25L, 1.5L}[rng(0, 3)]; x *= h, y *= h, z *= h, w *= h; pl = sg::Plane(x, y, z, w); }
        bool par = cr(a, b, cc, d) == Q{0, 0, 0}; one<sg::Line>("line", a, b, p, cc, d, par, tr, pl); one<sg::Ray>("ray", a, b, p, cc, d, par, tr, pl); one<sg::Segment>("seg", a, b, p, cc, d, par, tr, pl);
        ev("rel", a, b, cc, d, sg::is_parallel(sg::Line(sp(a), sp(b)), sg::Line(sp(cc), sp(d))), sg::is_orthogonal(sg::Line(sp(a), sp(b)), sg::Line(sp(cc), sp(d))));
        ev("pldist", tr, p, len(sg::dist(pl, sp(p))), sg::on(pl, sp(p))); ev("plproj", tr, p, m3(sg::projection(pl, sp(p))));
        for (int i = 0; i < 3; ++i) { Q x = q(); int k = rng(-1, 3), m = rng(-1, 3); for (int j = 0; j < 3; ++j) if (i) x[j] = tr[0][j] + k * (tr[1][j] - tr[0][j]) / (k == 2 ? 2 : 1) + (i > 1 ? m * (tr[2][j] - tr[0][j]) : 0); ev("ontri", tr, x, sg::on_triangle({sp(tr[0]), sp(tr[1]), sp(tr[2])}, sp(x))); }
        auto A = sp(a), B = sp(b); using namespace sg; int k = rng(-3, 3); ev("pops", a, b, k, std::vector<VI>{i3(A + B), i3(A - B), i3(A * B, U), i3(A * (long double)k), i3(-A)}, (int)llroundl(inner_product(A, B) / (U * U) * 1e6L)); ev("pops", a, b, k, std::vector<VI>{i3(+(B + A)), i3(-(B - A)), i3(-(B * A), U), i3((long double)k * A), i3(rng.coin(1, 2) ? A / (long double)-1 : A / (long double)-0.5L * 0.5L)}, (int)llroundl(inner_product(B, A) / (U * U) * 1e6L));
    }
    finish(); U = 1;
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int i = 0; i < reps(50); ++i) { integral(); real(); space(); }
    for (int i = 0; i < reps(400); ++i) sets(i);
    for (int i = 0; i < reps(200); ++i) spread(i);
    { begin("geo"); int n = rng(46400, 47000), m = rng(46400, 47000); std::vector<std::pair<ll, P>> ver; std::vector<std::pair<P, ll>> hor; for (int i = 0; i < n; ++i) ver.emplace_back(i, P(-1, m)); for (int i = 0; i < m; ++i) hor.emplace_back(P(n, -1), i); pend("segment_intersections", n, m); ev("gridfull", n, m, wide(rg::segment_intersections(ver, hor))); finish(); }   // every pair meets
}
