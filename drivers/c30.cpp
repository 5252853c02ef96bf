// C30: text streams, expression parsing, nimbers, affine maps, small template helpers
#include "vt.hpp"
#include "library/template.hpp"
#include "library/util/container_utils.hpp"
#include "library/icpc/parsing.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/type_traits/operator.hpp"
namespace S = suisen; namespace P = suisen::parsing;
using vt::ll; using vt::ull; using vt::i128; using vt::u128; using vt::rng; using vt::ev; using vt::pend; using vt::begin; using vt::finish; using vt::reps; using vt::wide; using vt::uwide; using vt::W;
typedef std::vector<int> VI; typedef std::vector<W> VW;
VI codes(const std::string& s) { VI v; for (char c : s) v.push_back((int)(signed char)c); return v; }
// ---- values crossing into the specification as tagged trees
namespace vt { struct J { std::string s; }; } using vt::J;
namespace vt { inline void put(std::string& o, const J& j) { o += j.s; } }
template <class T> std::enable_if_t<std::is_integral<T>::value || std::is_same<T, i128>::value || std::is_same<T, u128>::value, J> tag(const T& x) { J j; j.s = "[\"i\","; vt::put(j.s, std::is_same<T, u128>::value ? uwide((u128)x) : wide((i128)x)); j.s += "]"; return j; }
J tag(char c) { J j; j.s = "[\"c\","; vt::put(j.s, (int)c); j.s += "]"; return j; }
J tag(const std::string& s) { J j; j.s = "[\"s\","; vt::put(j.s, codes(s)); j.s += "]"; return j; }
J tag(const char* s) { return tag(std::string(s)); }
template <class A, class B> J tag(const std::pair<A, B>&); template <class... A> J tag(const std::tuple<A...>&); template <class T, size_t N> J tag(const std::array<T, N>&); template <class T> J tag(const std::set<T>&); template <class T> J tag(const std::vector<T>&);
J listed(const std::vector<J>& v) { J j; j.s = "[\"l\",["; for (size_t i = 0; i < v.size(); ++i) j.s += (i ? "," : "") + v[i].s; j.s += "]]"; return j; }
template <class A, class B> J tag(const std::pair<A, B>& p) { return listed({tag(p.first), tag(p.second)}); }
template <class... A> J tag(const std::tuple<A...>& t) { std::vector<J> v; std::apply([&](const auto&... x) { (v.push_back(tag(x)), ...); }, t); return listed(v); }
template <class C> J tagc(const C& c) { std::vector<J> v; for (const auto& x : c) v.push_back(tag(x)); return listed(v); }
template <class T> J tag(const std::vector<T>& c) { return tagc(c); }
template <class T> J tag(const std::set<T>& c) { return tagc(c); }
template <class T, size_t N> J tag(const std::array<T, N>& c) { return tagc(c); }
i128 big(int how) { switch (how) { case 0: return rng(-20, 20); case 1: return (ll)rng.next(); case 2: return ((i128)(ll)rng.next() << 64) | rng.next(); case 3: return (i128)((u128)1 << 127); case 4: return (i128)(~(u128)0 >> 1); default: return (i128)rng(-1000000, 1000000) * (i128)1000000000000LL; } }
u128 ubig(int how) { switch (how) { case 0: return rng(0, 20); case 1: return rng.next(); case 2: return ((u128)rng.next() << 64) | rng.next(); case 3: return ~(u128)0; case 4: return (u128)1 << 64; default: return (u128)rng(0, 1000000) * (u128)1000000000000LL; } }
std::string word() { std::string s; for (int n = rng(1, 6); n--; ) s += (char)rng(33, 126); return s; }
VI rvec(int n, int lo, int hi) { VI v(n); for (auto& x : v) x = rng(lo, hi); return v; }
// ---- output
template <class O> void outs(O& os, std::function<std::string()> text, std::function<void(int)> global) {
    begin("out", 0);
    for (int t = 0; t < 12; ++t) {
        int c = rng(0, 13), i = rng(-99, 99); i128 b = big(rng(0, 5)); u128 u = ubig(rng(0, 5)); std::string w = word(); VI v = rvec(rng(0, 4), -50, 50); char ch = rng(33, 126); pend("output", c, wide(b));
        auto put = [&](const auto& x) { os << x; ev("put", std::vector<J>{tag(x)}); };
        auto pr = [&](const auto&... x) { os.print(x...); ev("print", std::vector<J>{tag(x)...}); };
        auto pa = [&](const auto& x) { std::string sep, end; for (int k = rng(0, 2); k--; ) sep += (char)rng(32, 126); for (int k = rng(0, 2); k--; ) end += (char)rng(32, 126); std::vector<J> q; for (const auto& y : x) q.push_back(tag(y)); if (rng.coin(1, 3)) { os.print_all(x); ev("printall", q, VI{32}, VI{10}); } else if (rng.coin(1, 3)) { os.print_all(x, sep); ev("printall", q, codes(sep), VI{10}); } else { os.print_all(x, sep, end); ev("printall", q, codes(sep), codes(end)); } };
        switch (c) {
            case 0: put(b); break; case 1: put(u); break; case 2: put(i); put(ch); put(w); break;
            case 3: pr(); break; case 4: pr(i); pr(b, u, w); break; case 5: pr(w, ch, v, std::make_pair(i, b)); break;
            case 6: put(std::make_pair(w, v)); break; case 7: put(std::make_tuple(i, b, ch, u)); put(std::make_tuple(i)); break;
            case 8: { std::vector<VI> m; for (int k = rng(0, 3); k--; ) m.push_back(rvec(rng(0, 3), 0, 9)); put(m); pa(m); break; }
            case 9: pa(v); break; case 10: { std::vector<i128> q; for (int k = rng(0, 3); k--; ) q.push_back(big(rng(0, 5))); pa(q); put(q); break; }
            case 11: { std::set<int> s(v.begin(), v.end()); pa(s); put(s); break; } case 12: { std::array<int, 3> a{i, 1, -i}; put(a); std::vector<std::pair<int, i128>> q; for (int k = rng(0, 3); k--; ) q.push_back({rng(0, 9), big(rng(0, 5))}); pa(q); break; }
            default: if (global) global(0); else { std::vector<std::string> q; for (int k = rng(0, 3); k--; ) q.push_back(word()); pa(q); put((ll)rng.next()); put((ull)rng.next()); }
        }
        ev("text", codes(text()));
    }
    finish();
}
void output() {
    { S::io::OutputStream os{std::ostringstream{}}; outs(os, [&] { return os.get_stream().str(); }, nullptr); }
    { std::ostringstream o; S::io::OutputStream os{o}; outs(os, [&] { return o.str(); }, nullptr); }
    { std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); outs(S::io::cout, [&] { return o.str(); }, [&](int) { int a = rng(0, 9); std::string w = word(); VI v = rvec(rng(0, 3), 0, 9); S::print(a, w); ev("print", std::vector<J>{tag(a), tag(w)}); S::print_all(v); std::vector<J> q; for (int x : v) q.push_back(tag(x)); ev("printall", q, VI{32}, VI{10}); S::print_all(v, ",", "!"); ev("printall", q, VI{','}, VI{'!'}); S::print(); ev("print", std::vector<J>{}); }); std::cout.rdbuf(old); }
    begin("txt", 0);
    for (int t = 0; t < 5; ++t) { std::vector<i128> q; std::vector<J> k; for (int n = rng(0, 4); n--; ) { q.push_back(big(rng(0, 5))); k.push_back(tag(q.back())); } std::string sep = word().substr(0, rng(0, 2)), end = word().substr(0, rng(0, 2)); pend("join"); ev("join", k, codes(sep), codes(end), codes(S::join(q, sep, end))); }
    for (int t = 0; t < 8; ++t) { W w = wide(big(rng(0, 5))); pend("stoi128", w); ev("stoi", codes(w.s), wide(S::stoi128(w.s))); W u = uwide(ubig(rng(0, 5))); pend("stou128", u); ev("stoi", codes(u.s), uwide(S::stou128(u.s))); }
    finish();
}
// ---- input
struct Text { std::string s; void gap() { do s += " \n\t \r"[rng(0, 4)]; while (rng.coin(1, 3)); } };
template <class I> void ins(I& is, std::function<void(const std::string&)> feed, bool global) {
    begin("in", 0); std::string kinds; Text x; if (rng.coin(1, 2)) x.gap();
    std::vector<int> plan;
    for (int t = 0; t < 14; ++t) {
        int c = rng(0, 9); plan.push_back(c);
        auto i = [&] { x.s += std::to_string(rng(-999, 999)); x.gap(); }; auto b = [&] { x.s += wide(big(rng(0, 5))).s; x.gap(); }; auto u = [&] { x.s += uwide(ubig(rng(0, 5))).s; x.gap(); }; auto w = [&] { x.s += word(); x.gap(); }; auto ch = [&] { x.s += (char)rng(33, 126); if (rng.coin(1, 2)) x.gap(); };
        switch (c) { case 0: b(); break; case 1: u(); break; case 2: i(); break; case 3: w(); break; case 4: ch(); x.gap(); break; case 5: i(), b(); break; case 6: ch(), w(), i(), u(); break; case 7: i(), i(), i(); break; case 8: i(), b(), i(), b(); break; default: i(), b(), w(); }
    }
    feed(x.s); ev("text", codes(x.s));
    auto rd = [&](std::vector<const char*> k, std::vector<J> v) { ev("read", k, v); };
    auto n = [](i128 v) { J j; vt::put(j.s, wide(v)); return j; }; auto un = [](u128 v) { J j; vt::put(j.s, uwide(v)); return j; }; auto st = [](const std::string& s) { J j; vt::put(j.s, codes(s)); return j; }; auto cc = [](char c) { J j; vt::put(j.s, (int)c); return j; };
    for (int c : plan) {
        pend("input", c); bool via = rng.coin(1, 2);
        switch (c) {
            case 0: { i128 v; if (via) is >> v; else v = (i128)is.read(); rd({"int"}, {n(v)}); break; }
            case 1: { u128 v; if (via) is >> v; else is.read(v); rd({"int"}, {un(v)}); break; }
            case 2: { int v; if (global && via) { v = S::read(); } else if (via) v = is.read(); else is >> v; rd({"int"}, {n(v)}); break; }
            case 3: { std::string s; if (via) is >> s; else s = std::string(is.read()); rd({"str"}, {st(s)}); break; }
            case 4: { char h; is >> h; rd({"char"}, {cc(h)}); break; }
            case 5: { std::pair<int, i128> p; if (global && via) S::read(p); else if (via) is.read(p); else is >> p; rd({"int", "int"}, {n(p.first), n(p.second)}); break; }
            case 6: { std::tuple<char, std::string, ll, u128> p; is >> p; rd({"char", "str", "int", "int"}, {cc(std::get<0>(p)), st(std::get<1>(p)), n(std::get<2>(p)), un(std::get<3>(p))}); break; }
            case 7: { if (via) { VI v(3); is >> v; rd({"int", "int", "int"}, {n(v[0]), n(v[1]), n(v[2])}); } else { std::array<ll, 3> v; is.read(v); rd({"int", "int", "int"}, {n(v[0]), n(v[1]), n(v[2])}); } break; }
            case 8: { std::vector<std::pair<int, i128>> v(2); is >> v; rd({"int", "int", "int", "int"}, {n(v[0].first), n(v[0].second), n(v[1].first), n(v[1].second)}); break; }
            default: { int a; i128 b; std::string s; if (global && via) S::read(a, b, s); else if (via) is.read(a, b, s); else is >> a >> b >> s; rd({"int", "int", "str"}, {n(a), n(b), st(s)}); }
        }
    }
    finish();
}
void input() {
    { S::io::InputStream is{std::istringstream{}}; ins(is, [&](const std::string& s) { is.get_stream().str(s); }, false); }
    { std::istringstream i; S::io::InputStream is{i}; ins(is, [&](const std::string& s) { i.str(s); }, false); }
    { std::istringstream i; auto* old = std::cin.rdbuf(i.rdbuf()); std::cin.clear(); ins(S::io::cin, [&](const std::string& s) { i.str(s); }, true); std::cin.rdbuf(old); std::cin.clear(); }
}
// ---- expressions (generated along the grammar, with their value so that overflow and division by zero are avoided)
typedef std::pair<std::string, i128> SV; const i128 LIM = (i128)1 << 61;
SV gexpr(int d, bool div); 
SV gfactor(int d, bool div) { std::string s; bool neg = false; while (rng.coin(1, 5)) s += '-', neg = !neg; SV r; if (d > 0 && rng.coin(1, 2)) { r = gexpr(d - 1, div); r.first = "(" + r.first + ")"; } else { ll v = rng.coin(1, 20) ? (ll)(rng.next() >> 3) : rng(0, rng.coin(1, 2) ? 9 : 300); r = {std::string(rng.coin(1, 12) ? rng(1, 3) : 0, '0') + std::to_string(v), v}; } return {s + r.first, neg ? -r.second : r.second}; }
SV gterm(int d, bool div) { SV r = gfactor(d, div); for (int k = rng(0, 2); k--; ) { SV f = gfactor(d, div); if (div && rng.coin(1, 2) && f.second != 0) r = {r.first + "/" + f.first, r.second / f.second}; else { i128 v; if (__builtin_mul_overflow(r.second, f.second, &v) || v > LIM || v < -LIM) continue; r = {r.first + "*" + f.first, v}; } } return r; }
SV gexpr(int d, bool div) { SV r = gterm(d, div); for (int k = rng(0, 3); k--; ) { SV f = gterm(d, div); bool sub = rng.coin(1, 2); i128 v = sub ? r.second - f.second : r.second + f.second; if (v > LIM || v < -LIM) continue; r = {r.first + (sub ? "-" : "+") + f.first, v}; } return r; }
typedef std::tuple<bool, W, int> Res;
template <class F> Res attempt(const std::string& s, int i, F f) { P::State it = s.begin() + i; try { ll v = f(it); return Res{true, wide(v), (int)(it - s.begin())}; } catch (const P::ParseError&) { return Res{false, wide(0), 0}; } }
void parse() {
    std::ostringstream sink; auto* old = std::cerr.rdbuf(sink.rdbuf());
    begin("txt", 0);
    for (int t = 0; t < 14; ++t) { std::string s = gexpr(rng(0, 3), true).first; int i = 0; if (rng.coin(1, 4)) { std::string pre = word(); i = pre.size(); s = pre + s; } if (rng.coin(1, 3)) s += rng.coin(1, 2) ? "=" : ")x+1"; pend("expr", s, i); ev("expr", codes(s), i, attempt(s, i, P::normal_expression::parse)); }
    for (int t = 0; t < 14; ++t) {   // damaged texts: no division, no large numbers
        std::string s; for (int k = rng(0, 9); k--; ) s += "0123()()+-*--==)("[rng(0, 16)]; if (rng.coin(1, 2)) { s = std::to_string(rng(0, 99)); for (int k = rng(0, 4); k--; ) s += std::string(1, "+-*"[rng(0, 2)]) + (rng.coin(1, 4) ? "(" : "") + std::to_string(rng(0, 99)) + (rng.coin(1, 4) ? ")" : ""); if (s.size() && rng.coin(1, 2)) s.erase(rng(0, (int)s.size() - 1), 1); }
        pend("damaged", s); ev("expr", codes(s), 0, attempt(s, 0, P::normal_expression::parse)); int i = rng(0, (int)s.size()); ev("nonneg", codes(s), i, attempt(s, i, P::nonnegative_number)); ev("number", codes(s), i, attempt(s, i, P::number));
        char c = rng.coin(1, 2) && i < (int)s.size() ? s[i] : "()+-*0123"[rng(0, 8)], d = rng(c, c + 5);
        { P::State it = s.begin() + i; bool ok = true; try { P::consume(it, c); } catch (const P::ParseError&) { ok = false; } ev("consume", codes(s), i, (int)c, std::make_pair(ok, (int)(it - s.begin()))); }
        { P::State it = s.begin() + i; bool a = true, b = true; try { P::assert_range(it, c, d); } catch (const P::ParseError&) { a = false; } try { P::assert_exact(it, c); } catch (const P::ParseError&) { b = false; } ev("class", codes(s), i, (int)c, (int)d, std::make_tuple(P::in(it, c, d), P::is(it, c), a, b)); }
    }
    { ll v = rng(0, 9) ? (ll)(rng.next() >> 1) : 9223372036854775807LL; std::string s = std::to_string(v) + "z"; ev("nonneg", codes(s), 0, attempt(s, 0, P::nonnegative_number)); s = "-" + s; ev("number", codes(s), 0, attempt(s, 0, P::number)); }
    finish(); std::cerr.rdbuf(old);
}
// ---- nimbers
template <class N> void nim(int bits, int muls) {
    begin("txt", 0); typedef N T; auto g = [&](int b) -> ull { ull m = b >= 64 ? ~0ULL : (1ULL << b) - 1; switch (rng(0, 7)) { case 0: return rng(0, 3) & m; case 1: return m; case 2: return (1ULL << rng(0, b - 1)); case 3: return rng.next() & rng.next() & rng.next() & m; default: return rng.next() & m; } };
    for (int t = 0; t < muls; ++t) {
        int ba = rng.coin(1, 2) ? bits : 1 << rng(0, __builtin_ctz(bits)), bb = rng.coin(1, 2) ? bits : 1 << rng(0, __builtin_ctz(bits)); ull a = g(ba), b = g(bb); T x(a), y(b); pend("nim", wide(a), wide(b), bits);
        { T z = x; z *= y; ev("nmul", uwide(a), uwide(b), uwide(rng.coin(1, 2) ? z.val() : (x * y).val())); }
        if (b) { T z = x; z /= y; ev("ndiv", uwide(a), uwide(b), uwide(rng.coin(1, 2) ? z.val() : (x / y).val())); if (rng.coin(1, 3)) ev("ndiv", uwide(1), uwide(b), uwide(y.inv().val())); }
        { T z = x, w = x; z += y; w -= y; std::vector<W> v; for (T q : {x + y, x - y, z, w}) v.push_back(uwide(q.val())); ev("nadd", uwide(a), uwide(b), v); }
        ev("ncmp", uwide(a), uwide(b), std::make_tuple(x < y, x <= y, x > y, x >= y, x == y, x != y)); ev("nneg", uwide(a), VW{uwide((+x).val()), uwide((-x).val()), uwide((uint64_t)x), uwide((bool)x ? a : 0), uwide((T::one() * x).val()), uwide((T::zero() + x).val())});
        if (rng.coin(1, 4)) { int k = rng(0, bits > 16 ? 9 : 300); ev("npow", uwide(a), k, uwide(x.pow(k).val())); }
        std::stringstream ss; ss << x; std::string txt = ss.str(); T r; ss >> r; ev("stream", VW{uwide(a)}, codes(txt), VW{uwide(r.val())});
    }
    finish();
}
void nimtable() { begin("txt", 0); for (int a = 0; a < 16; ++a) for (int b = 0; b < 16; ++b) ev("nmul", uwide(a), uwide(b), uwide((S::nimber4_t(a) * S::nimber4_t(b)).val())); for (int a = 0; a < 256; ++a) { int b = rng(0, 255); ev("nmul", uwide(a), uwide(b), uwide((S::nimber8_t(a) * S::nimber8_t(b)).val())); } finish(); }
// ---- affine maps
typedef S::Affine<ll> A; typedef S::AffineClamp<ll> C;
VW co(const A& f) { return {wide(f.a), wide(f.b)}; } VW co4(const C& f) { return {wide(f.a), wide(f.b), wide(f.l), wide(f.r)}; }
void affine() {
    begin("txt", 0);
    for (int t = 0; t < 20; ++t) {
        ll m = rng.coin(1, 2) ? 4 : 30000; A f(rng(-m, m), rng(-m, m)), g(rng(-m, m), rng(-m, m)); if (rng.coin(1, 4)) g.a = f.a; if (rng.coin(1, 4)) g.b = f.b; ll x = rng(-m, m), c = rng(-m, m); pend("affine");
        A h = f.compose(g), h2 = A::compose(f, g); ev("aff", co(f), co(g), wide(x), VW{wide(f(x)), wide(h(x)), wide(h2.affine<i128>(x)), wide(A::id()(x))}, co(h)); ev("aff", co(f), co(A{}), wide(x), VW{wide(f.affine(x)), wide(f.compose(A::id())(x)), wide(A::id().compose(f)(x)), wide(x)}, co(f));
        A i = f, d = f, pi = f, pd = f, pf = f, mf = f, pc = f, mc = f; ++i; --d; A i0 = pi++, d0 = pd--; pf += g; mf -= g; pc += c; mc -= c;
        bool e = rng.coin(1, 2); ev("affops", co(f), co(g), wide(c), std::vector<VW>{co(e ? f + g : pf), co(e ? f - g : mf), co(e ? f + c : pc), co(e ? f - c : mc), co(-f), co(+f), co(e ? i : pi), co(e ? d : pd), co(i0), co(d0)}, std::make_tuple(f == g, f != g, f < g, f <= g, f > g, f >= g), [&] { std::pair<ll, ll> p = f; return VW{wide(p.first), wide(p.second)}; }(), [&] { std::tuple<ll, ll> p = f; return VW{wide(std::get<0>(p)), wide(std::get<1>(p))}; }());
        auto mk = [&] { ll l = rng(-m, m), r = rng(-m, m); if (l > r) std::swap(l, r); A q(rng.coin(1, 6) ? 0 : rng(-m, m), rng(-m, m)); switch (rng(0, 3)) { case 0: return C(q.a, q.b, l); case 1: return C(q.a, q.b); case 2: return C(q, l, r); default: return C(q.a, q.b, l, r); } };
        C p = mk(), q = mk(); if (rng.coin(1, 8)) q = C(1, 0, C::neg_inf, rng(-m, m)); ll y = rng(-2 * m, 2 * m); pend("clamp");
        ev("clamp", co4(p), co4(q), wide(y), VW{wide(p(y)), wide(p.compose(q)(y)), wide(C::compose(p, q).affine_clamp(y)), wide(C::id()(y))});
        { C r = mk(); C lft = p.compose(q).compose(r), rgt = p.compose(q.compose(r)); ll z = r(y); ev("clamp", co4(p), co4(q), wide(z), VW{wide(p(z)), wide(lft(y)), wide(rgt(y)), wide(z)}); }
        { std::stringstream ss; ss << f; std::string txt = ss.str(); A k; ss >> k; ev("stream", co(f), codes(txt), co(k)); } { std::stringstream ss; ss << p; std::string txt = ss.str(); C k; ss >> k; ev("stream", co4(p), codes(txt), co4(k)); }
        { std::tuple<ll, ll, ll, ll> tp = p; ev("stream", co4(p), codes([&] { std::ostringstream o; o << std::get<0>(tp) << ' ' << std::get<1>(tp) << ' ' << std::get<2>(tp) << ' ' << std::get<3>(tp); return o.str(); }()), co4(p)); }
    }
    finish();
}
struct Noop {};
void helpers() {
    begin("txt", 0);
    for (int t = 0; t < 6; ++t) {
        VI v = rvec(rng(0, 9), -5, 5); int n = v.size(); ev("sortidx", v, S::sorted_indices(n, [&](int i) { return v[i]; }), true); ev("sortidx", v, S::sorted_indices(n, [&](int i, int j) { return v[i] > v[j]; }), false); ev("sortidx", v, S::sorted_indices(n, S::comparator<int>([&](int i) { return v[i]; }, std::greater<>())), false);
        int a = rng(0, 3), b = rng(0, 3), c = rng(0, 3), x = rng(-3, 3); ev("ndvec", VI{a, b, c}, x, S::ndvec<int>(S::Dim{a, b, c}, x)); ev("ndvec", VI{a, b, c}, 0, S::ndvec<int>(S::Dim(a, b, c)));
        auto drain = [](auto& q) { VI r; while (q.size()) r.push_back(q.top()), q.pop(); return r; }; { S::min_priority_queue<int> q; for (int y : v) q.push(y); ev("pq", v, drain(q), true); } { S::max_priority_queue<int> q; for (int y : v) q.push(y); ev("pq", v, drain(q), false); } { auto q = S::priority_queue_with_comparator<int>([](int i, int j) { return i > j; }); for (int y : v) q.push(y); ev("pq", v, drain(q), true); }
    }
    auto width = [](auto x) { typedef decltype(x) T; ev("width", (int)sizeof(T) * 8, S::bitnum_v<T>, (int)sizeof(S::safely_multipliable_t<T>) * 8); static_assert(S::is_nbit_v<T, sizeof(T) * 8>, ""); };
    width((short)0); width((unsigned short)0); width((signed char)0); width(0); width(0u); width(0ll); width(0ull); width(0l);
    ev("trait", "vector", std::make_tuple(S::is_iterable_v<VI>, S::is_readable_v<VI>, S::is_writable_v<VI>)); ev("trait", "set", std::make_tuple(S::is_iterable_v<std::set<int>>, S::is_readable_v<std::set<int>>, S::is_writable_v<std::set<int>>)); ev("trait", "string", std::make_tuple(S::is_iterable_v<std::string>, S::is_readable_v<std::string>, S::is_writable_v<std::string>));
    ev("trait", "int", std::make_tuple(S::is_iterable_v<int>, S::is_readable_v<int>, S::is_writable_v<int>)); ev("trait", "char", std::make_tuple(S::is_iterable_v<char>, S::is_readable_v<char>, S::is_writable_v<char>)); ev("trait", "int128", std::make_tuple(S::is_iterable_v<i128>, S::is_readable_v<i128>, S::is_writable_v<i128>)); ev("trait", "pair", std::make_tuple(S::is_iterable_v<std::pair<int, int>>, S::is_readable_v<std::pair<int, int>>, S::is_writable_v<std::pair<int, int>>));
    finish();
}
int main(int argc, char** argv) {
    vt::init(argc, argv);
    for (int t = 0; t < reps(30); ++t) { output(); input(); parse(); affine(); helpers(); }
    nimtable();
    for (int t = 0; t < reps(8); ++t) { nim<S::nimber64_t>(64, 8); nim<S::nimber>(64, 8); nim<S::nimber32_t>(32, 8); nim<S::nimber16_t>(16, 10); nim<S::nimber8_t>(8, 20); nim<S::nimber4_t>(4, 20); nim<S::nimber2_t>(2, 10); nim<S::nimber1_t>(1, 6); }
}
