// C28: zero-suppressed decision diagrams
#include "vt.hpp"
#include "library/datastructure/ZDD.hpp"
using namespace vt; using namespace suisen;
typedef std::vector<int> VI;
void walk(ZDD f, VI& cur, std::vector<VI>& out) {
    if (f.is_terminal0()) return;
    if (f.is_terminal1()) { out.push_back(cur); return; }
    walk(f[0], cur, out); cur.push_back(f.top()); walk(f[1], cur, out); cur.pop_back();
}
int main(int argc, char** argv) {
    init(argc, argv);
    int levels = 0;
    for (int t = 0; t < reps(400); ++t) {
        int n = rng(1, 6); while (levels < n) { int l = ZDD::new_level(); ++levels; begin("zlev", 0); ev("lev", l, levels); finish(); }
        begin("zdd", n); std::array<ZDD, 6> f; for (auto& x : f) x = ZDD::terminal0();
        auto full = [&](int i) { std::vector<VI> q; VI c; walk(f[i], c, q); ev("list", i, q); };
        auto seed = [&](int i) {   // a random family, built set by set
            ZDD z = ZDD::terminal0(); ev("zero", i); f[i] = z; int m = rng(0, 6);
            for (int k = 0; k < m; ++k) {
                ZDD s = ZDD::terminal1(); f[5] = s; ev("one", 5);
                for (int v = 1; v <= n; ++v) if (rng.coin(1, 2)) { f[5] = ZDD::change(f[5], v); ev("change", 5, 5, v); }
                f[i] = f[i] + f[5]; ev("or", i, i, 5);
            }
            full(i);
        };
        for (int k = 0; k < 40; ++k) {
            int i = rng(0, 4), a = rng(0, 4), b = rng(0, 4), v = rng(1, n); if (rng.coin(1, 10)) a = 5;
            switch (rng(0, 21)) {
            case 0: case 1: case 2: seed(i); break;
            case 3: if (rng.coin(1, 2)) { f[i] = ZDD::terminal0(); ev("zero", i); } else { f[i] = ZDD::terminal1(); ev("one", i); } break;
            case 4: case 5: pend("and", i, a, b); f[i] = f[a] & f[b]; ev("and", i, a, b); break;
            case 6: case 7: pend("or", i, a, b); f[i] = f[a] + f[b]; ev("or", i, a, b); break;
            case 8: case 9: pend("diff", i, a, b); f[i] = f[a] - f[b]; ev("diff", i, a, b); break;
            case 10: case 11: pend("xor", i, a, b); f[i] = f[a] ^ f[b]; ev("xor", i, a, b); break;
            case 12: pend("change", i, a, v); f[i] = ZDD::change(f[a], v); ev("change", i, a, v); break;
            case 13: pend("onset0", i, a, v); f[i] = ZDD::onset0(f[a], v); ev("onset0", i, a, v); break;
            case 14: pend("onset1", i, a, v); f[i] = ZDD::onset1(f[a], v); ev("onset1", i, a, v); break;
            case 15: pend("offset", i, a, v); f[i] = ZDD::offset(f[a], v); ev("offset", i, a, v); break;
            case 16: case 17: pend("restrict", i, a, b); f[i] = ZDD::restrict(f[a], f[b]); ev("restrict", i, a, b); break;
            case 18: case 19: pend("permit", i, a, b); f[i] = ZDD::permit(f[a], f[b]); ev("permit", i, a, b); break;
            case 20: if (f[a].top()) { int c = rng(0, 1); f[i] = f[a][c]; ev("child", i, a, c); } break;
            default: { int t0 = std::max(f[a].top(), f[b].top()); if (t0 < n) { int w = rng(t0 + 1, n); pend("node", i, a, b, w); f[i] = ZDD::create_zdd(f[a], f[b], w); ev("node", i, a, b, w); } }
            }
            full(i); pend("queries", i);
            ev("card", i, rng.coin(1, 2) ? (ll)ZDD::card<ll>(f[i]) : (ll)ZDD::card<int>(f[i])); ev("len", i, ZDD::len(f[i]) < 0 ? -1 : ZDD::len(f[i]));
            auto q = ZDD::max_len_item(f[i]); ev("longest", i, q.has_value(), q.has_value() ? *q : VI{});
            ev("top", i, (int)f[i].top(), f[i].is_terminal0(), f[i].is_terminal1()); ev("size", i, ZDD::size(f[i]));
        }
        finish();
    }
}
