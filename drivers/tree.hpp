// random trees of assorted shapes, randomly relabelled
#ifndef DTREE_HPP
#define DTREE_HPP
#include "vt.hpp"
namespace dtree {
using vt::rng; typedef std::vector<int> VI; typedef std::vector<std::pair<int, int>> E;
inline E edges(int n) {
    int shape = rng(0, 5); E e; VI lab(n); std::iota(lab.begin(), lab.end(), 0); rng.shuffle(lab);
    for (int i = 1; i < n; ++i) {
        int p;
        switch (shape) { case 0: p = i - 1; break; case 1: p = 0; break; case 2: p = (i - 1) / 2; break; case 3: p = i % 2 ? i - 1 : std::max(0, i - 2); break; case 4: p = std::max<int>(0, i - (int)rng(1, 3)); break; default: p = rng(0, i - 1); }
        int a = lab[i], b = lab[p]; if (rng.coin(1, 2)) std::swap(a, b); e.push_back({a, b});
    }
    rng.shuffle(e); return e;
}
inline std::vector<VI> adj(int n, const E& e) { std::vector<VI> g(n); for (auto [a, b] : e) g[a].push_back(b), g[b].push_back(a); for (auto& x : g) rng.shuffle(x); return g; }
inline int X = 1;      // scale of the trees
inline int size(int mx) { return X > 1 ? rng(mx, mx * X) : rng.coin(1, 5) ? rng(1, 4) : rng(2, mx); }
}
#endif
