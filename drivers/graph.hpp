// random graphs of assorted shapes
#ifndef DGRAPH_HPP
#define DGRAPH_HPP
#include "vt.hpp"
namespace dgraph {
using vt::rng; typedef std::vector<int> VI; typedef std::pair<int, int> PII; typedef std::vector<PII> E;
inline int X = 1;      // scale of the graphs
inline int size(int mx) { return X > 1 ? rng(mx, mx * X) : rng.coin(1, 6) ? rng(1, 3) : rng(2, mx); }
// arbitrary edges; loops and parallel edges only if asked for
inline E edges(int n, int m, bool loops, bool multi) {
    E e; std::set<PII> seen;
    for (int t = 0; t < 4 * m + 4 && (int)e.size() < m; ++t) { int u = rng(0, n - 1), v = rng(0, n - 1); if (!loops && u == v) continue; if (!multi && !seen.insert({std::min(u, v), std::max(u, v)}).second) continue; e.push_back({u, v}); }
    return e;
}
// undirected shapes: trees with extra edges, cycles, cliques, disjoint unions, paths of blocks
inline E shape(int n, bool loops = false, bool multi = false) {
    E e; VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab); auto add = [&](int a, int b) { e.push_back({lab[a], lab[b]}); };
    switch (rng(0, 7)) {
        case 0: for (int i = 1; i < n; ++i) add(i, rng(0, i - 1)); break;
        case 1: for (int i = 0; i < n && n > 2; ++i) add(i, (i + 1) % n); break;
        case 2: for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (rng.coin(4, 5)) add(i, j); break;
        case 3: for (int i = 1; i < n; ++i) { add(i, std::max<int>(0, i - (int)rng(1, 2))); if (i >= 2 && rng.coin(1, 2)) add(i, i - 2); } break;
        case 4: { int h = rng(0, n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if ((i < h) == (j < h) && rng.coin(1, 2)) add(i, j); } break;
        case 5: { int c = 0; for (int i = 0; i + 1 < n;) { int k = std::min<int>(n - 1, i + rng(1, 3)); for (int j = i; j < k; ++j) add(j, j + 1); if (k - i >= 2) add(i, k); i = rng.coin(1, 5) ? k + 1 : k; ++c; } } break;
        case 6: break;
        default: { auto q = edges(n, rng(0, 2 * n), loops, multi); e = q; }
    }
    std::set<PII> s; E r; for (auto [a, b] : e) { if (a == b && !loops) continue; if (!multi && !s.insert({std::min(a, b), std::max(a, b)}).second) continue; if (rng.coin(1, 2)) std::swap(a, b); r.push_back({a, b}); }
    if (multi && !r.empty() && rng.coin(1, 2)) for (int i = rng(1, 3); i--;) r.push_back(r[rng(0, (int)r.size() - 1)]);
    if (loops && rng.coin(1, 2)) { int v = rng(0, n - 1); r.push_back({v, v}); }
    rng.shuffle(r); return r;
}
inline std::vector<VI> undirected(int n, const E& e) { std::vector<VI> g(n); for (auto [a, b] : e) { g[a].push_back(b); if (a != b) g[b].push_back(a); } for (auto& x : g) rng.shuffle(x); return g; }
}
#endif
