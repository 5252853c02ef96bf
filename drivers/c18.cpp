// Strings: matching, periods, palindromes, runs, automata, tries, hashes.
#include "vt.hpp"
#include "alg.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/manacher.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/run_enumerate.hpp"
#include "library/string/substring_set.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
using namespace vt; using namespace suisen;
typedef std::vector<int> VI;
int X = 1;   // scale of the lengths
// strings with structure: periodic pieces, powers, palindromes, Fibonacci words, noise
VI word(int n, int k) {
    VI s; int kind = rng(0, 5);
    if (kind == 0) for (int i = 0; i < n; ++i) s.push_back(rng(0, k - 1));
    else if (kind == 1) { int p = rng(1, std::max(1, n / 2)); for (int i = 0; i < n; ++i) s.push_back(i < p ? rng(0, k - 1) : s[i - p]); if (n && rng.coin(1, 2)) s[rng(0, n - 1)] = rng(0, k - 1); }
    else if (kind == 2) { VI a{0}, b{0, std::min(1, k - 1)}; while ((int)b.size() < n) { VI c = b; c.insert(c.end(), a.begin(), a.end()); a = b; b = c; } b.resize(n); s = b; if (rng.coin(1, 2)) std::reverse(s.begin(), s.end()); }
    else if (kind == 3) { for (int i = 0; i < (n + 1) / 2; ++i) s.push_back(rng(0, k - 1)); while ((int)s.size() < n) s.push_back(s[n - 1 - s.size()]); }
    else if (kind == 4) { while ((int)s.size() < n) { int c = rng(0, k - 1), m = rng(1, 4); while (m-- && (int)s.size() < n) s.push_back(c); } }
    else { while ((int)s.size() < n) { if (s.empty() || rng.coin(1, 2)) s.push_back(rng(0, k - 1)); else { int l = rng(0, (int)s.size() - 1), r = rng(l + 1, (int)s.size()); for (int i = l; i < r && (int)s.size() < n; ++i) s.push_back(s[i]); } } }
    return s;
}
VI piece(const VI& s, int k) { int n = s.size(); if (n && rng.coin(2, 3)) { int l = rng(0, n), r = rng(l, n); VI t(s.begin() + l, s.begin() + r); if (t.size() && rng.coin(1, 4)) t[rng(0, (int)t.size() - 1)] = rng(0, k); return t; } return word(rng(0, 4), k + 1); }
std::string str(const VI& s, char base = 'a') { std::string r; for (int x : s) r += char(base + x); return r; }
VI codes(const std::string& s, char base = 'a') { VI r; for (char c : s) r.push_back(c - base); return r; }
void basic(const VI& s, int k) {
    using namespace morris_pratt;
    std::string z = str(s);
    pend("mp", s); if (rng.coin(1, 2)) ev("mp", s, suisen::morris_pratt::morris_pratt(s)); else ev("mp", s, suisen::morris_pratt::morris_pratt(z));
    if (s.size()) for (bool f : {true, false}) { pend("periods", s, f); ev("periods", s, f, all_periods(s.begin(), s.end(), f)); pend("minp", s, f); if (rng.coin(1, 2)) ev("minp", s, f, min_period(s, f)); else ev("minp", s, f, codes(min_period(z, f))); }
    for (int i = 0; i < 2; ++i) { VI p = piece(s, k); if (p.empty()) p = {(int)rng(0, k)}; pend("match", p, s); if (rng.coin(1, 2)) { MatcherMP<VI> m(p); ev("match", p, s, rng.coin(1, 2) ? m(s) : m.enumerate_occurences(s)); } else { MatcherMP<std::string> m(str(p, '\0')); ev("match", p, s, m(str(s, '\0'))); } }
    { int n = s.size(); pend("manacher", s); VI a, b, c; auto rec = [&](const Manacher& m) { for (int i = 0; i <= 2 * n; ++i) a.push_back(m[i]); for (int i = 0; i < n; ++i) b.push_back(m.odd_length(i)); for (int i = 0; i <= n; ++i) c.push_back(m.even_length(i)); }; if (rng.coin(1, 2)) rec(Manacher(s, rng(-1, 2))); else rec(Manacher(z, '$')); ev("manacher", s, a, b, c); }
    { pend("runs", s); std::vector<std::array<int, 3>> o; if (rng.coin(1, 2)) { VI t = s; for (auto& r : run_enumerate(t)) o.push_back({r.period, r.l, r.r}); } else { std::string t = z; for (auto& r : run_enumerate(t)) o.push_back({r.period, r.l, r.r}); } ev("runs", s, o); }
    { std::vector<Run> u; for (int i = 0; i < 4; ++i) u.emplace_back(rng(1, 2), rng(0, 1), rng(2, 3)); std::vector<std::tuple<int, int, int, int, int, int, bool, bool, bool, bool, bool, bool>> q; for (auto& a : u) for (auto& b : u) q.emplace_back(a.period, a.l, a.r, b.period, b.l, b.r, a < b, a <= b, a > b, a >= b, a == b, a != b); ev("runcmp", q); }
}
template <class C> void cmpq(const VI& s, const C& c) {
    int n = s.size(); std::vector<std::tuple<int, int, int, int, int, int, bool, bool, bool>> q;
    for (int i = 0; i < 12; ++i) { int a = rng(0, n), b = rng(a, n), x = rng(0, n), y = rng(x, n); if (rng.coin(1, 3) && a < n) { x = rng(0, n - 1); y = std::min<int>(n, x + b - a); } pend("cmp", s, a, b, x, y); auto u = c.substr(a, b), v = c.substr(std::make_pair(x, y)); int l = i % 3 == 0 ? c.lcp(a, b, x, y) : i % 3 == 1 ? c.lcp({a, b}, {x, y}) : u.lcp(v); int r = i % 2 ? c(a, b, x, y) : i % 4 == 0 ? c.compare({a, b}, {x, y}) : c({a, b}, {x, y}); q.emplace_back(a, b, x, y, l, r, i % 2 ? u == v : !(u != v), i % 2 ? u < v : !(u >= v), i % 2 ? u <= v : !(u > v)); }
    ev("cmp", s, q);
}
typedef modint2p61m1 M61;
const unsigned PR = 1000000007; unsigned long long fa(unsigned long long a, unsigned long long b) { return (a + b) % PR; } unsigned long long fz() { return 0; } unsigned long long fn(unsigned long long a) { return (PR - a) % PR; } unsigned long long fm(unsigned long long a, unsigned long long b) { return a * b % PR; } unsigned long long fo() { return 1; }
using RF = RollingHashField<unsigned long long, 2, fa, fz, fn, fm, fo>;
template <class H> void hashq(const VI& s, H& h, bool pos = false) {
    int n = s.size();
    // where every character is given a positive value, words of different length are told apart as well
    if (pos) { std::vector<std::tuple<int, int, int, int, bool>> w; for (int i = 0; i < 8; ++i) { auto [a, b] = alg::range(n); auto [x, y] = alg::range(n); if (i < 2 && a < b) x = a, y = b - 1; w.emplace_back(a, b, x, y, h(a, b) == h(x, y)); } ev("heq", s, w); } std::vector<std::tuple<int, int, int, int, bool>> q; std::vector<std::tuple<int, int, int, int, int, int, bool>> c;
    for (int i = 0; i < 12; ++i) { int len = rng(0, n), a = rng(0, n - len), b = rng(0, n - len); pend("heq", s, a, b, len); q.emplace_back(a, a + len, b, b + len, h(a, a + len) == h(b, b + len)); int m = rng(0, len); int x = rng(0, n - m), y = rng(0, n - (len - m)); pend("hcat", s, x, y); bool r; if constexpr (std::is_same_v<H, RF>) r = RF::concat(h(x, x + m), h(y, y + len - m), len - m) == h(a, a + len); else r = h.concat(h(x, x + m), y, y + len - m) == h(a, a + len); c.emplace_back(x, x + m, y, y + len - m, a, a + len, r); }
    ev("heq", s, q); ev("hcat", s, c);
}
void hashes(const VI& s, int k) {
    { auto h = RollingHash<1>(s); hashq(s, h); } { auto h = RollingHash<2>(s); hashq(s, h); }
    { auto h = RollingHash<1>::from_lowercase_alphabet(str(s)); hashq(s, h, true); auto g = RollingHash<1>::from_uppercase_alphabet(str(s, 'A')); hashq(s, g, true); auto d = RollingHash<1>::from_digit(str(s, '0')); hashq(s, d, true); auto e = RollingHash<1>::from_alphabet(str(s, 'Y')); if (k <= 2) hashq(s, e, true);
      std::string mx; for (int x : s) mx += x ? 'a' : 'A'; auto m = RollingHash<1>::from_alphabet(mx); VI bin; for (int x : s) bin.push_back(x ? 1 : 0); hashq(bin, m, true);
      VI t = piece(s, k); auto o = RollingHash<1>(t); auto p = RollingHash<1>(s); int n = t.size(), l = s.size() >= t.size() ? rng(0, (int)s.size() - n) : -1; if (l >= 0) { pend("hcross"); ev("hcross", t, VI(s.begin() + l, s.begin() + l + n), o(0, n) == p(l, l + n)); } }
    { RollingHash<2>::set_bases({M61(rng(1000, 1 << 30)), M61(rng.next() >> 4 | 1024)}); auto h = RollingHash<2>(s); hashq(s, h); }
    { RF::set_bases({(unsigned long long)rng(1000, 1000000000), (unsigned long long)rng(1000, 1000000000)}); std::array<std::function<unsigned long long(int)>, 2> f{[](int x) { return (unsigned long long)x + 1; }, [](int x) { return (unsigned long long)x * 77 + 5; }}; auto h = RF::create(s, f); hashq(s, h, true);
      int n = s.size(); std::vector<std::array<int, 3>> q; for (int i = 0; i < 8; ++i) { int a = rng(0, n), b = rng(0, n); pend("hlcp", s, a, b); q.push_back({a, b, h.lcp(a, b)}); } ev("hlcp", s, q); }
}
void strs() {
    begin("str", 0); int k = rng(1, 3), n = X > 1 ? rng(20, 14 * X) : rng(0, 14); VI s = word(n, k); basic(s, k);
    if (n) { cmpq(s, CompareSubstring<>(s)); cmpq(s, CompareSubstring<>(str(s))); cmpq(s, CompareSubstring<>(s, 3)); }
    hashes(s, k); finish();
}
void tiny() { for (int n = 0; n <= 6; ++n) for (int m = 0; m < (1 << n); ++m) { begin("str", 0); VI s; for (int i = 0; i < n; ++i) s.push_back(m >> i & 1); basic(s, 2); finish(); } }
struct TN : ArrayTrieNode<4, 1> { int cnt = 0; };
struct TP : ArrayTrieNodeWithParentLink<4, 1> { using ArrayTrieNodeWithParentLink<4, 1>::ArrayTrieNodeWithParentLink; int cnt = 0; };
template <bool O> struct TM : MapTrieNode<int, O> { int cnt = 0; };
std::vector<VI> pats(int k) { std::vector<VI> p; int m = rng(0, 6 * X); VI base = word(rng(0, 8 * X), k); while (m--) { VI t = rng.coin(1, 6) && p.size() ? rng.pick(p) : rng.coin(1, 8) ? VI{} : piece(base, k - 1); for (auto& x : t) x = std::min(x, k - 1); p.push_back(t); } return p; }
template <class A> void aho(bool rebuild) {
    begin("pat", std::vector<VI>{}); int k = rng(1, 3); A a; int ph = rebuild ? rng(1, 3) : 1; std::vector<VI> all;
    while (ph--) { for (auto& p : pats(k)) { ev("add", p); pend("add", p); a.add(p); all.push_back(p); } pend("build"); a.build();
        if constexpr (!std::is_same_v<A, AhoCorasick<int>>) ev("states", a.state_num());
        for (int i = 0; i < 3; ++i) { VI t = word(rng(0, 9 * X), k); if (all.size() && rng.coin(1, 2)) { VI x = rng.pick(all), y = rng.pick(all); t = x; t.insert(t.end(), y.begin(), y.end()); } pend("feed", t); VI c; int s = a.init_state(); c.push_back(a.count_suffix_matching(s)); for (int x : t) { s = a.next_state(s, x); c.push_back(a.count_suffix_matching(s)); } ev("feed", t, c); } }
    finish();
}
void ahoc() { begin("pat", std::vector<VI>{}); AhoCorasick<char> a; for (auto& p : pats(3)) { ev("add", p); a.add(str(p)); } a.build(); AhoCorasick<char> b = a; for (int i = 0; i < 3; ++i) { VI t = word(rng(0, 9 * X), 4); VI c; int s = b.init_state(); c.push_back(b.count_suffix_matching(s)); for (int x : t) { s = b.next_state(s, 'a' + x); c.push_back(b.count_suffix_matching(s)); } ev("feed", t, c); } finish(); }
template <class T, class Child> void trie(Child child) {
    begin("pat", std::vector<VI>{}); T t; if (rng.coin(1, 2)) t.reserve(rng(0, 30)); std::vector<VI> all;
    for (int ph = 0; ph < 2; ++ph) { for (auto p : pats(3)) { all.push_back(p); ev("add", p); pend("add", p); VI q = p; for (auto& x : q) ++x; 
            if (rng.coin(1, 2) || p.empty()) ++t.add(q).cnt; else { int m = rng(0, (int)p.size()); VI a(q.begin(), q.begin() + m), b(q.begin() + m, q.end()); auto& nd = t.add(a); int id = &nd - &t[0]; ++t.add(b, id).cnt; } }
        ev("states", t.nodes.size());
        for (int i = 0; i < 6; ++i) { VI q = all.size() && rng.coin(2, 3) ? rng.pick(all) : word(rng(0, 4), 3); if (q.size() && rng.coin(1, 2)) q.resize(rng(0, (int)q.size())); int cur = 0; for (int x : q) if (cur >= 0) cur = child(t, cur, x + 1); ev("walk", q, cur >= 0, cur >= 0 ? t[cur].cnt : 0); }
        if constexpr (std::is_same_v<T, ArrayTrie<TP>>) { std::vector<bool> ok; for (int i = 1; i < (int)t.nodes.size(); ++i) ok.push_back(t[t[i].par][t[i].key] == i); ev("links", ok); } }
    finish();
}
template <class T> std::vector<std::pair<int, int>> kids(const T& c) { std::vector<std::pair<int, int>> r; for (int i = 0; i < (int)c.size(); ++i) if (c[i] != typename T::value_type(-1)) r.push_back({i, (int)c[i]}); return r; }
inline std::vector<std::pair<int, int>> kids(const std::map<int, int>& c) { return std::vector<std::pair<int, int>>(c.begin(), c.end()); }
inline std::vector<std::pair<int, int>> kids(const std::map<char, int>& c) { std::vector<std::pair<int, int>> r; for (auto [a, b] : c) r.push_back({a, b}); return r; }
template <class T, class V> void pal(int lo, int hi) {
    begin("pal", VI{}); int k = rng(1, 3); VI s0 = word(rng(lo, hi), k); T t = rng.coin(1, 2) ? T() : T(V(s0.begin(), s0.end())); VI s; bool pre = t.node_num() > 2;
    auto cont = [&](int i) { auto x = t.get_palindrome(i); return VI(x.begin(), x.end()); };
    auto dump = [&] { pend("dump"); std::vector<std::tuple<VI, int, int, int, int, int, std::vector<std::pair<int, int>>>> o; auto f = t.frequency_table(); auto p = t.parents(); for (int i = 0; i < t.node_num(); ++i) o.emplace_back(cont(i), t.length(i), i >= 2 ? t.first_occurence(i) : 0, t.suffix_link(i), i >= 2 ? f[i] : 0, p[i], kids(t.children(i))); ev("dump", o); };
    if (pre) { begin("pal", s0); dump(); }
    int ph = rng(1, 3); while (ph--) { VI more = word(rng(lo / 2, hi), k); if (rng.coin(1, 3)) { for (int x : more) { pend("add", x); int i = t.add(x); ev("add", x, cont(i)); } } else { for (int x : more) { int i = t.add(x); ev("add", x, cont(i)); } } dump(); if (rng.coin(1, 4)) t.shrink_to_fit(); if (rng.coin(1, 2)) { pend("clear"); t.clear(); ev("clear"); dump(); } }
    finish();
}
template <class T> T conv(const VI& s) { if constexpr (std::is_same_v<T, std::string>) return str(s); else return s; }
template <class T> VI back(const T& s) { if constexpr (std::is_same_v<T, std::string>) return codes(s); else return s; }
template <class C> void sam() {
    int k = rng(1, 3); VI s = word(rng(0, 9 * X), k); begin("sam", s); using S = std::conditional_t<std::is_same_v<C, char>, std::string, VI>; SuffixAutomaton<C> a(conv<S>(s));
    for (int ph = 0; ph < 2; ++ph) {
        long long d = 1; for (size_t i = 1; i < a.nodes.size(); ++i) d += a.nodes[i].len - a.nodes[a.nodes[i].link].len; ev("distinct", d);
        auto cnt = a.substring_counter(); auto occ = a.occurrence_enumerator(); auto fst = a.first_occurence_searcher();
        for (int i = 0; i < 5; ++i) { VI p = piece(s, k); S q = conv<S>(p); pend("occ", p); ev("occ", p, a.accept(q), cnt.count(q), fst.first_occurrence(q), occ.enumerate_all_occurrence(q)); }
        for (int i = 0; i < 2; ++i) { VI t = piece(s, k), u = piece(s, k); t.insert(t.end(), u.begin(), u.end()); pend("lcs", t); auto [x, y, l] = a.longest_common_substring(conv<S>(t)); ev("lcs", t, x, y, l); }
        for (int x : word(rng(0, 4 * X), k)) { s.push_back(x); ev("append", x); S one = conv<S>(VI{x}); if (rng.coin(1, 2)) a.append(one[0]); else a += one[0]; }
    }
    finish();
}
template <class C> void sset() {
    int k = rng(1, 3); VI s = word(rng(0, 5 * X + 2), k); using S = std::conditional_t<std::is_same_v<C, char>, std::string, VI>; if (rng.coin(1, 6)) s.clear(); begin("sam", s); SubstringSet<C> a = s.empty() ? SubstringSet<C>() : SubstringSet<C>(conv<S>(s));
    for (int ph = 0; ph < 2; ++ph) {
        std::vector<VI> all; pend("all"); int m = rng(0, 3); ll N = a.size(); if (m == 0) for (ll i = 0; i < N; ++i) all.push_back(back(a[i])); else if (m == 1) for (ll i = 0; i < N; ++i) all.push_back(back(a.kth_element(i))); else if (m == 2) for (auto it = a.begin(); it != a.end(); ++it) all.push_back(back(*it)); else { for (auto it = a.rbegin(); it != a.rend(); ++it) all.push_back(back(*it)); std::reverse(all.begin(), all.end()); } ev("all", all);
        for (int i = 0; i < 4; ++i) { VI p = piece(s, k); S t = conv<S>(p); pend("rank", p); ll lt = a.count_lt(t), le = a.count_leq(t), gt = a.count_gt(t), ge = a.count_geq(t); typedef std::pair<bool, VI> O; auto f = a.find(t); ll at = f - a.begin(); bool lb = a.lower_bound(t) - a.begin() == lt && a.upper_bound(t) - a.begin() == le; 
            ev("rank", p, N, a.contains(t), lb ? lt : -1, le, gt, ge, at, lt < N ? O(true, back(a.min_geq(t))) : O(false, {}), le < N ? O(true, back(a.min_gt(t))) : O(false, {}), lt > 0 ? O(true, back(a.max_lt(t))) : O(false, {}), le > 0 ? O(true, back(a.max_leq(t))) : O(false, {})); VI r = piece(s, k); ev("crange", p, r, a.count_range(t, conv<S>(r))); }
        if (N) for (int i = 0; i < 3; ++i) { ll x = rng(0, (int)N - 1), y = rng.coin(1, 4) ? x : rng(0, (int)N - 1); pend("iter", x, y); auto p = a.begin(), q = a.end(); p += x; q -= N - y; auto u = p; int w = rng(0, 3); if (w == 0) u = q; else if (w == 1) u = p + (y - x); else if (w == 2) u = a.cbegin() - (-y); else { for (ll j = x; j < y; ++j) ++u; for (ll j = y; j < x; ++j) --u; } auto r = a.rbegin(); r += x; ev("iter", x, y, back(*p), back(*u), back(*r), p - u, std::vector<bool>{p == u, p != u, p < u, p <= u, p > u, p >= u}); }
        s = word(rng(0, 5 * X + 2), k); pend("build"); a.build(conv<S>(s)); ev("build", s);
    }
    finish();
}
template <size_t B> void dyn() {
    using D = DynamicRollingHash<B>; int k = rng(1, 3); VI s[2] = {word(rng(0, 8 * X), k), word(rng(0, 8 * X), k)}; for (auto& x : s) for (auto& y : x) ++y; begin("ed", s[0], s[1]); D d[2] = {s[0].empty() ? D() : D(s[0]), s[1].empty() ? D() : D(s[1])};
    for (int q = 0; q < 20 * X; ++q) { int w = rng(0, 1), n = s[w].size(), op = rng(0, 7); int v = rng(1, k);
        if (op == 0 && n) { int p = rng(0, n - 1); ev("set", w + 1, p, v); pend("set"); d[w].set(p, v); s[w][p] = v; }
        else if (op <= 2) { int p = rng(0, n); ev("ins", w + 1, p, v); pend("ins", p); if (p == n && rng.coin(1, 2)) d[w].push_back(v); else if (p == 0 && rng.coin(1, 2)) d[w].push_front(v); else d[w].insert(p, v); s[w].insert(s[w].begin() + p, v); }
        else if (op == 3 && n) { int p = rng(0, n - 1); if (rng.coin(1, 4)) p = 0; else if (rng.coin(1, 4)) p = n - 1; ev("del", w + 1, p); pend("del", p); if (p == n - 1 && rng.coin(1, 2)) d[w].pop_back(); else if (p == 0 && rng.coin(1, 2)) d[w].pop_front(); else d[w].erase(p); s[w].erase(s[w].begin() + p); }
        else { std::vector<std::tuple<int, int, int, int, int, int, bool>> o; for (int i = 0; i < (B == 1 ? 1 : 4); ++i) { int u = rng(0, 1), x = rng(0, 1); int len = rng(0, std::min(s[u].size(), s[x].size())); int a = rng(0, (int)s[u].size() - len), b = rng(0, (int)s[x].size() - len); pend("eq", u, a, x, b, len); bool e = s[u].empty() || s[x].empty() ? true : d[u](a, a + len) == d[x](b, b + len); o.emplace_back(u + 1, a, a + len, x + 1, b, b + len, e); } ev("eq", o); } }
    finish();
}
void runs(int p, int q) { begin("str", 0); pend("runs", p, q); SubstringSet<char> s(std::string(p, 'a') + std::string(q, 'b')); ev("ab", p, q, wide(s.size()), wide(s.count_lt("b")), wide(s.count_geq("b"))); finish(); }
int main(int argc, char** argv) {
    init(argc, argv); DynamicRollingHash<1>::init_pool(1 << 20); DynamicRollingHash<2>::init_pool(1 << 20); tiny(); runs(50000, 46000); runs(3, 4);
    auto arr = [](auto& t, int i, int c) { return t[i][c - 1]; }; auto mpc = [](auto& t, int i, int c) { const auto& n = t[i]; return n[c]; };
    auto round = [&] {
        strs(); aho<AhoCorasick<int>>(true); aho<AhoCorasickArray<3, 0>>(false); ahoc(); trie<ArrayTrie<TN>>(arr); trie<ArrayTrie<TP>>(arr); trie<MapTrie<TM<true>>>(mpc); trie<MapTrie<TM<false>>>(mpc);
        pal<PalindromicTree<int>, VI>(8 * (X - 1), 8 * X); pal<PalindromicTree<char, std::string>, std::string>(8 * (X - 1), 8 * X); pal<PalindromicTreeVec<int>, VI>(8 * (X - 1), 8 * X); pal<PalindromicTreeArr<int, 3>, VI>(8 * (X - 1), 8 * X); pal<PalindromicTreeVec<char, std::string>, std::string>(8 * (X - 1), 8 * X); pal<PalindromicTreeArr<unsigned char, 3>, std::vector<unsigned char>>(8 * (X - 1), 8 * X);
        sam<char>(); sam<int>(); sset<char>(); sset<int>(); dyn<1>(); dyn<2>(); dyn<2>();
    };
    for (int i = 0; i < reps(110); ++i) round();
    for (int i = 0; i < reps(8); ++i) { X = 2 + i % 4; round(); } X = 10; for (int i = 0; i < reps(2); ++i) { begin("str", 0); VI s = word(rng(130, 300), rng(1, 3)); cmpq(s, CompareSubstring<>(s)); hashes(s, 3); finish(); aho<AhoCorasick<int>>(true); aho<AhoCorasickArray<3, 0>>(false); dyn<2>(); trie<ArrayTrie<TP>>(arr); trie<MapTrie<TM<false>>>(mpc); }
}
