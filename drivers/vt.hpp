// Recording side of the conformance harness: a driver executes the real code and writes one JSON
// line per session ({"k": machine, "p": parameters, "ev": [[op, args..., result], ...]}).
// The TLA+ trace specification decides whether each session is a behaviour of the specification.
#ifndef VT_HPP
#define VT_HPP
#include <bits/stdc++.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>

namespace vt {
typedef long long ll;
typedef unsigned long long ull;
typedef __int128 i128;
typedef unsigned __int128 u128;

struct Rng {
    ull s;
    static ull mix(ull z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    explicit Rng(ull seed = 1) : s(mix(seed - 1) + 0x9E3779B97F4A7C15ULL + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }   // distinct seeds: unrelated streams
    ull next() { return mix(s += 0x9E3779B97F4A7C15ULL); }
    ll operator()(ll lo, ll hi) { return lo + (ll)(next() % (ull)(hi - lo + 1)); }  // inclusive
    bool coin(int num, int den) { return (*this)(1, den) <= num; }
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class V> auto& pick(V& v) { return v[(*this)(0, (ll)v.size() - 1)]; }
    template <class V> void shuffle(V& v) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[(*this)(0, i)]); }
};

// Wide integers cross into the specification as decimal strings (TLC integers are 32 bits).
struct W { std::string s; };
inline W wide(i128 x) {
    if (x == 0) return W{"0"};
    bool neg = x < 0; std::string r; u128 y = neg ? -(u128)x : (u128)x;
    while (y) { r += char('0' + (int)(y % 10)); y /= 10; }
    if (neg) r += '-';
    std::reverse(r.begin(), r.end()); return W{r};
}
inline W uwide(u128 y) { if (y == 0) return W{"0"}; std::string r; while (y) { r += char('0' + (int)(y % 10)); y /= 10; } std::reverse(r.begin(), r.end()); return W{r}; }

inline std::string cur;            // session being recorded
inline std::string pending;        // operation in flight (shown if the code crashes)
inline int out_fd = 1;
inline int ev_count = 0, ev_open = 0;
inline int timeout_s = 60;      // processor seconds of one session, so that a busy machine does not look like a hang

inline void put(std::string& o, const W& w) { o += '"'; o += w.s; o += '"'; }
inline void put(std::string& o, bool b) { o += b ? "true" : "false"; }
template <class T> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value> put(std::string& o, T x) {
    // out-of-range values become sentinels, so a wrong result is a mismatch and not a parse problem
    i128 y = x; const i128 M = 2147483646;
    if (y > M) { o += "2147483647"; return; }
    if (y < -M) { o += "-2147483647"; return; }
    o += std::to_string((long long)y);
}
inline void put(std::string& o, const std::string& s) {
    o += '"';
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; }
    o += '"';
}
inline void put(std::string& o, const char* s) { put(o, std::string(s)); }
template <class A, class B> void put(std::string& o, const std::pair<A, B>& p);
template <class T, size_t N> void put(std::string& o, const std::array<T, N>& v);
template <class T> void put(std::string& o, const std::set<T>& v);
template <class... A> void put(std::string& o, const std::tuple<A...>& t);
template <class T> void put(std::string& o, const std::vector<T>& v) { o += '['; bool f = true; for (const auto& x : v) { if (!f) o += ','; f = false; put(o, static_cast<const T&>(x)); } o += ']'; }
inline void put(std::string& o, const std::vector<bool>& v) { o += '['; bool f = true; for (bool x : v) { if (!f) o += ','; f = false; put(o, x); } o += ']'; }
template <class T, size_t N> void put(std::string& o, const std::array<T, N>& v) { o += '['; bool f = true; for (const auto& x : v) { if (!f) o += ','; f = false; put(o, x); } o += ']'; }
template <class T> void put(std::string& o, const std::set<T>& v) { o += '['; bool f = true; for (const auto& x : v) { if (!f) o += ','; f = false; put(o, x); } o += ']'; }
template <class A, class B> void put(std::string& o, const std::pair<A, B>& p) { o += '['; put(o, p.first); o += ','; put(o, p.second); o += ']'; }
template <class... A> void put(std::string& o, const std::tuple<A...>& t) { o += '['; bool f = true; std::apply([&](const auto&... x) { ((o += (f ? "" : ","), f = false, put(o, x)), ...); }, t); o += ']'; }

inline void arm() { struct itimerval it {}; it.it_value.tv_sec = timeout_s; setitimer(ITIMER_PROF, &it, nullptr); }
inline void disarm() { struct itimerval it {}; setitimer(ITIMER_PROF, &it, nullptr); }
inline void wr(const char* p, size_t n) { while (n) { ssize_t k = ::write(out_fd, p, n); if (k <= 0) _exit(70); p += k; n -= k; } }
// A crash or hang of the code under test is an event no specification action allows.
inline void on_signal(int sig) {
    if (ev_open) {
        std::string o;
        if (ev_count) o += ',';
        o += sig == SIGPROF ? "[\"hang\"" : "[\"crash\"";
        o += ",";  put(o, (int)sig); o += ","; put(o, pending.substr(0, 300)); o += "]]}\n";
        wr(cur.data(), cur.size()); wr(o.data(), o.size());
        _exit(0);
    }
    _exit(71);
}
inline void open_out(const char* path) {
    out_fd = ::open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
    static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) { struct sigaction a {}; a.sa_handler = on_signal; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
}
template <class... A> void begin(const char* k, const A&... p) {
    cur.clear(); cur += "{\"k\":"; put(cur, k); cur += ",\"p\":"; put(cur, std::make_tuple(p...)); cur += ",\"ev\":["; ev_count = 0; ev_open = 1; pending.clear(); arm();
}
inline void finish() { disarm(); ev_open = 0; cur += "]}\n"; wr(cur.data(), cur.size()); cur.clear(); }
template <class... A> void pend(const A&... a) { pending.clear(); ((put(pending, a), pending += ' '), ...); }
template <class... A> void ev(const char* op, const A&... a) {
    if (ev_count++) cur += ',';
    cur += '['; put(cur, op); ((cur += ',', put(cur, a)), ...); cur += ']'; pending.clear();
}
struct Args { ull seed = 1; bool thorough = false; std::string script; int scale = 1; };
inline Args args;
inline Rng rng;
// usage of every driver: driver OUT SEED TIER [SCRIPT]
inline void init(int argc, char** argv) {
    if (argc < 4) { fprintf(stderr, "usage: driver OUT SEED TIER [SCRIPT]\n"); _exit(2); }
    open_out(argv[1]); args.seed = strtoull(argv[2], nullptr, 10); args.thorough = std::string(argv[3]) == "thorough"; args.scale = args.thorough ? 8 : 1;
    if (argc > 4) args.script = argv[4];
    rng = Rng(args.seed);
}
// behaviours generated by TLC from the specification: one per line, a list of calls (nested lists flattened)
typedef std::vector<std::string> Call;
inline std::vector<std::vector<Call>> script() {
    std::vector<std::vector<Call>> r; if (args.script.empty()) return r;
    std::ifstream f(args.script); std::string line;
    while (std::getline(f, line)) {
        r.emplace_back(); int depth = 0; std::string tok; 
        auto flush = [&] { if (!tok.empty()) r.back().back().push_back(tok), tok.clear(); };
        for (char c : line) {
            if (c == '[') { if (++depth == 2) r.back().emplace_back(); }
            else if (c == ']') { if (depth >= 2) flush(); --depth; }
            else if (c == ',') { if (depth >= 2) flush(); }
            else if (c != '"' && c != ' ') tok += c;
        }
    }
    return r;
}
inline int num(const Call& c, int i) { return std::atoi(c.at(i).c_str()); }
inline int reps(int quick) { return quick * args.scale; }
}
#endif
