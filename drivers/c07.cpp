// C07: priority queues, aggregating queues, sliding windows, Cartesian trees
#include "vt.hpp"
#include "alg.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
#include "library/datastructure/cartesian_tree.hpp"
using namespace vt; using namespace alg; using namespace suisen;
typedef std::vector<int> VI;
struct Cmp { int d = 1; bool operator()(int a, int b) const { return a / d < b / d; } };   // stateful: elements with equal a / d tie
int val(int d) { return d == 1 ? (rng.coin(1, 2) ? rng(0, 5) : rv()) : rng(0, 5) * d + rng(0, d - 1); }
VI vals(int n, int d) { VI v(n); for (auto& x : v) x = val(d); return v; }
VI sorted(VI v) { std::sort(v.begin(), v.end()); return v; }
template <class H_, bool MIN> void heap1(H_ h, const VI& init, int d, int len) {
    begin("pq", d, sorted(init));
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 9), bias = (i / 20) % 2;
        if (o <= (bias ? 2 : 5)) { int v = val(d); pend("push", v); if (rng.coin(1, 2)) h.push(v); else h.emplace(v); ev("push", v); }
        else if (o <= 7) { if (h.size()) { pend("pop"); int v = h.pop(); ev(MIN ? "popmin" : "popmax", v); } }
        else if (o == 8) { if (h.size()) ev(MIN ? "min" : "max", h.top()); ev("size", h.size(), h.empty()); }
        else { VI q(h.data().begin(), h.data().end()); ev("dump", q, false); if (rng.coin(1, 10)) { h.clear(); ev("clear"); } if (rng.coin(1, 4)) { H_ g(h); h = g; } if (rng.coin(1, 6)) { rng.shuffle(h.data()); h.construct_heap(); } }
    }
    while (h.size()) { int v = h.pop(); ev(MIN ? "popmin" : "popmax", v); }
    finish();
}
template <class H_> void heap2(H_ h0, const VI& init, int d, int len) {
    begin("pq", d, sorted(init)); auto h = std::make_unique<H_>(h0);
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 9), bias = (i / 20) % 2;
        if (o <= (bias ? 2 : 5)) { int v = val(d); pend("push", v); if (rng.coin(1, 2)) h->push(v); else h->emplace(v); ev("push", v); }
        else if (o <= 7) { if (h->size()) { if (rng.coin(1, 2)) { pend("popmin"); int v = h->pop_min(); ev("popmin", v); if (h->size() && rng.coin(1, 2)) ev("max", h->max()); } else { pend("popmax"); int v = h->pop_max(); ev("popmax", v); if (h->size() && rng.coin(1, 2)) ev("min", h->min()); } } }
        else if (o == 8) { if (h->size()) { if (rng.coin(1, 2)) { ev("min", h->min()); ev("max", h->max()); } else { ev("max", h->max()); ev("min", h->min()); } if constexpr (!std::is_same_v<H_, IntervalHeap<int, Cmp>> && !std::is_same_v<H_, IntervalHeap<int>>) { ev("max", std::as_const(*h).top()); if (rng.coin(1, 2)) { pend("popmax"); int v = h->pop(); ev("popmax", v); } } } ev("size", h->size(), h->empty()); }
        else {
            if constexpr (std::is_same_v<H_, IntervalHeap<int, Cmp>> || std::is_same_v<H_, IntervalHeap<int>>) { VI q(h->data().begin(), h->data().end()); ev("dump", q, false); }
            else ev("dump", h->dump_sorted(), true);
            if (rng.coin(1, 3)) { auto g = std::make_unique<H_>(*h); h = std::move(g); }
        }
    }
    int mode = rng(0, 2);   // drain from either end, or from both
    while (h->size()) { if (rng.coin(1, 4)) ev("max", h->max()); if (mode == 1 || (mode == 0 && rng.coin(1, 2))) { int v = h->pop_min(); ev("popmin", v); } else { int v = h->pop_max(); ev("popmax", v); } }
    finish();
}
// the same queues with 64-bit elements, read back in units of K
template <class H_> struct Big2 { H_ h; void push(int v) { h.push(v * K); } void emplace(int v) { h.emplace(v * K); } int pop_min() { return dn(h.pop_min()); } int pop_max() { return dn(h.pop_max()); } int min() { return dn(h.min()); } int max() { return dn(h.max()); }
    int top() const { return dn(const_cast<H_&>(h).max()); } int pop() { return dn(h.pop_max()); } int size() const { return h.size(); } bool empty() const { return h.empty(); }
    VI dump_sorted() { VI r; if constexpr (std::is_same_v<H_, IntervalHeap<ll>>) { for (ll x : h.data()) r.push_back(dn(x)); std::sort(r.begin(), r.end()); } else for (ll x : h.dump_sorted()) r.push_back(dn(x)); return r; } };
template <class H_> struct Big1 { H_ h; VI d; void push(int v) { h.push(v * K); } void emplace(int v) { h.emplace(v * K); } int pop() { return dn(h.pop()); } int top() { return dn(h.top()); } int size() const { return h.size(); } bool empty() const { return h.empty(); } void clear() { h.clear(); } void construct_heap() {}
    VI& data() { d.clear(); for (ll x : h.data()) d.push_back(dn(x)); return d; } };
template <bool FIRST> void psum(int len) {
    const ll kk = rng.coin(1, 3) ? K : 1; auto dn = [&](ll x) { return kk > 1 ? alg::dn(x) : (int)x; };
    int k = rng(0, 6); begin("psum", k, VI{}, FIRST); std::conditional_t<FIRST, MaximumPrioritySum<ll>, MinimumPrioritySum<ll>> s(k); VI cur_; int hi = rng.coin(1, 2) ? 6 : 1000;
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 9);
        if (o <= 3) { int v = rng(0, hi) - hi / 3; pend("ins", v); s.insert(v * kk); cur_.push_back(v); ev("ins", v); }
        else if (o <= 6 && !cur_.empty()) { int j = rng(0, cur_.size() - 1), v = cur_[j]; pend("era", v); s.erase(v * kk); cur_.erase(cur_.begin() + j); ev("era", v); }
        else if (o == 7) { int nk = rng(0, 8); if (rng.coin(1, 3)) { s.incr_k(); nk = k + 1; } else if (k && rng.coin(1, 2)) { s.decr_k(); nk = k - 1; } else s.set_k(nk); k = nk; ev("setk", k); }
        ev("sum", dn(s.get_sum()), s.get_k(), s.size());
    }
    finish();
}
H qappend(H a, int v) { return op(a, one(v)); }
H qmerge(H l, H r) { return op(toggle(l), r); }
H qappendL(H a, ll v) { return op(a, one(dn(v))); }
int un(ll x) { return dn(x); } int un(int x) { return x; } int un(const H& h) { return h.h; }
template <class Q, bool DEQ, class VT = int> void agg(int n0, int len) {
    const VT k = std::is_same_v<VT, ll> ? (VT)K : (VT)1;
    VI init = rvec(n0); begin("agg"); cur = "{\"k\":\"agg\",\"p\":"; put(cur, init); cur += ",\"ev\":["; pend("construct");
    Q q = [&] { if constexpr (DEQ) { auto l = lift(init); return n0 == 0 ? Q() : rng.coin(1, 2) ? Q(l) : Q(l.begin(), l.end()); } else { std::vector<VT> l; for (int x : init) l.push_back(x * k); return n0 == 0 ? Q() : rng.coin(1, 2) ? Q(l) : Q(l.begin(), l.end()); } }();
    int mode = rng(0, 3);
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 11), x = rv(), n = q.size();
        if (i % 30 == 0) mode = rng(0, 3);
        bool front = DEQ && (mode == 0 ? true : mode == 1 ? false : rng.coin(1, 2));
        if (o <= 3) { pend("push", x); if (front) { if constexpr (DEQ) q.push_front(one(x)); ev("pushf", x); } else { if constexpr (DEQ) q.push_back(one(x)); else q.push_back(x * k); ev("pushb", x); } }
        else if (o <= 6) { if (n) { bool b = DEQ && (mode == 2 ? front : !front && rng.coin(1, 2)); pend("pop", b); if (b) { if constexpr (DEQ) q.pop_back(); ev("popb"); } else { q.pop_front(); ev("popf"); } } }
        else if (o == 7) { if (n) ev("ends", un(q.front()), un(q.back())); ev("size", q.size()); }
        else if (o == 8) { if (n) { int j = rng(0, n - 1); pend("at", j); ev("at", j, un(q[j])); } }
        else if (o == 9) { VI d; for (auto& v : q) d.push_back(un(v)); if (rng.coin(1, 2)) { d.clear(); for (auto it = q.cbegin(); it != q.cend(); it++) d.push_back(un(*it)); } else if (rng.coin(1, 2)) { d.clear(); auto it = q.end(); while (it != q.begin()) { --it; d.push_back(un(*it)); } std::reverse(d.begin(), d.end()); } ev("dump", d); if (rng.coin(1, 12)) { q.clear(); q.shrink_to_fit(); ev("clear"); } }
        else if (o == 10 && n) { int a = rng(0, n), b = rng(0, n - 1), d = b - a; pend("it", a, d); auto it = q.begin() + a, j = it; int w = rng(0, 6); if (w == 0) j = it + d; else if (w == 1) j = it - (-d); else if (w == 2) j = d + it; else if (w == 3) j += d; else if (w == 4) j -= -d; else if (w == 5) { for (int t = 0; t < std::abs(d); ++t) { auto k = d > 0 ? j++ : j--; ev("it", a, int(k - it), a + int(k - it) < n ? un(*k) : -1, k - it, std::make_tuple(k < it, k <= it, k > it, k >= it, k == it)); } } else for (int t = 0; t < std::abs(d); ++t) { if (d > 0) ++j; else --j; }
            ev("it", a, d, rng.coin(1, 2) ? un(*j) : un(it[d]), j - it, std::make_tuple(j < it, j <= it, j > it, j >= it, j == it)); }
        else ev("prod", out(q.prod()));
    }
    finish();
}
template <class T, class C, bool MN, bool LM> void win(int n, int len) {
    const T k = std::is_same_v<T, ll> ? (T)K : (T)1; auto out = [&](T x) { return std::is_same_v<T, ll> ? dn(x) : (int)x; };
    VI a(n); int hi = rng(1, 8); for (auto& x : a) x = rng(0, hi); begin("win", a, 0, 0, MN, LM); int l = 0, r = 0;
    sliding_window_minimum<T, C> w(n, [&](int i) { return a[i] * k; });
    for (int i = 0; i < len; ++i) {
        int o = rng(0, 4);
        if (o == 0 && r < n) { if (rng.coin(1, 2)) { w.proc_right(); ++r; } else { int t = std::min<int>(n, r + rng(0, 4)); w.proc_right(t); r = t; } ev("right", r); }
        else if (o == 1 && l < r) { if (rng.coin(1, 2)) { w.proc_left(); ++l; } else { int t = std::min<int>(r, l + rng(0, 3)); w.proc_left(t); l = t; } ev("left", l); }
        else if (o == 2) { int nr = std::min<int>(n, r + rng(0, 2)), nl = std::min<int>(nr, l + rng(0, 2)); w.proc(nl, nr); ev("right", nr); ev("left", nl); l = nl, r = nr; }
        if (l < r) { pend("q"); ev("q", VI{w.get_left(), w.get_right(), w.get_window_size()}, w.arg_query(), out(w.query())); }
    }
    finish();
}
template <class B, bool MN> void cart(int n) {
    VI a(n); int hi = rng(1, 10); for (auto& x : a) x = rng(0, hi); begin("cart"); std::vector<ll> w = up(a); bool wide_ = rng.coin(1, 3); for (auto& x : w) x += 5; B b = wide_ ? B(w) : B(a); VI par; for (int i = 0; i < n; ++i) par.push_back(rng.coin(1, 2) ? b.parent(i) : b[i]);
    auto t = rng.coin(1, 2) ? b.build() : wide_ ? B::build(w) : B::build(a); ev("cart", a, MN, par, t.root, static_cast<std::vector<std::array<int, 2>>&>(t), t.ranges());
    if (n == 0) { CartesianTree z; ev("cart", a, MN, par, z.root, static_cast<std::vector<std::array<int, 2>>&>(z), z.ranges()); }
    finish();
}
// behaviours generated from the specification (Gen_C07)
template <class H_> void pq_calls(H_& p, const std::vector<Call>& h) {
    for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; pend(c[0]); if (c[0] == "push") { p.push(num(c, 1)); ev("push", num(c, 1)); } else if (c[0] == "popmin") { int v = p.pop_min(); ev("popmin", v); } else { int v = p.pop_max(); ev("popmax", v); } if (p.size()) { ev("min", p.min()); ev("max", p.max()); } }
    ev("size", p.size(), p.empty()); bool lo = h.size() % 2; while (p.size()) { int v = lo ? p.pop_min() : p.pop_max(); ev(lo ? "popmin" : "popmax", v); }
}
void replay() {
    int line = 0;
    for (auto& h : script()) { ++line;
        if (h[0][0] == "pq") { begin("pq", 1, VI{}); if (line % 2) { IntervalHeap<int> p; pq_calls(p, h); } else { DoubleEndedPriorityQueue<int> p; pq_calls(p, h); } finish(); }
        else {
            begin("agg"); DequeAggregation<H, op, e> q;
            for (size_t i = 1; i < h.size(); ++i) { auto& c = h[i]; pend(c[0]); if (c[0] == "pushb") { q.push_back(one(num(c, 1))); ev("pushb", num(c, 1)); } else if (c[0] == "pushf") { q.push_front(one(num(c, 1))); ev("pushf", num(c, 1)); } else if (c[0] == "popb") { q.pop_back(); ev("popb"); } else { q.pop_front(); ev("popf"); } ev("prod", out(q.prod())); }
            VI d; for (auto& v : q) d.push_back(un(v)); ev("dump", d); finish();
            bool fifo = true; for (size_t i = 1; i < h.size(); ++i) fifo = fifo && (h[i][0] == "pushb" || h[i][0] == "popf");
            if (fifo) { begin("agg"); QueueAggregation<int, H, e, qappend, H, qmerge> w; for (size_t i = 1; i < h.size(); ++i) { if (h[i][0] == "pushb") { w.push_back(num(h[i], 1)); ev("pushb", num(h[i], 1)); } else { w.pop_front(); ev("popf"); } ev("prod", out(w.prod())); } finish(); }
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    replay();
    for (int t = 0; t < reps(50); ++t) {
        int n0 = t % 10 == 9 ? rng(100, 140) : rng.coin(1, 3) ? 0 : rng(0, 40), len = rng(20, 150);
        VI i1 = vals(n0, 1), i3 = vals(n0, 10), none; Cmp c{10};
        using MinB = MinBinaryHeap<int>; using MaxB = MaxBinaryHeap<int>; using MinC = MinBinaryHeap<int, Cmp>; using MaxC = MaxBinaryHeap<int, Cmp>;
        heap1<MinB, true>(n0 == 0 ? MinB() : rng.coin(1, 2) ? MinB(i1) : MinB(i1.begin(), i1.end()), i1, 1, len);
        heap1<MaxB, false>(n0 == 0 ? MaxB() : MaxB(i1), i1, 1, len);
        heap1<MinC, true>(n0 == 0 ? MinC(c) : rng.coin(1, 2) ? MinC(i3, c) : MinC(i3.begin(), i3.end(), c), i3, 10, len);
        heap1<MaxC, false>(n0 == 0 ? MaxC(c) : MaxC(i3.begin(), i3.end(), c), i3, 10, len);
        heap1<MinPriorityQueue<int>, true>(MinPriorityQueue<int>(i1), i1, 1, len);
        heap1<MaxPriorityQueue<int>, false>(MaxPriorityQueue<int>(i1), i1, 1, len);
        heap2(IntervalHeap<int>(), none, 1, len); heap2(IntervalHeap<int, Cmp>(c), none, 10, len);
        using DE = DoubleEndedPriorityQueue<int>; using DC = DoubleEndedPriorityQueue<int, Cmp>;
        heap2(n0 == 0 ? DE() : rng.coin(1, 2) ? DE(i1) : DE(i1.begin(), i1.end()), i1, 1, len);
        heap2(n0 == 0 ? DC(c) : rng.coin(1, 2) ? DC(i3, c) : DC(i3.begin(), i3.end(), c), i3, 10, len);
        psum<true>(len); psum<false>(len);
        agg<QueueAggregation<int, H, e, qappend, H, qmerge>, false>(rng.coin(1, 2) ? 0 : rng(0, 20), len);
        if (rng.coin(1, 2)) agg<QueueAggregation<ll, H, e, qappendL, H, qmerge>, false, ll>(rng.coin(1, 2) ? 0 : rng(0, 20), len);
        agg<DequeAggregation<H, op, e>, true>(rng.coin(1, 2) ? 0 : rng(0, 20), len * 2);
        int n = t % 10 == 9 ? rng(80, 150) : rng(1, 40);
        win<int, prioritizing_mode::left_most_min<int>, true, true>(n, 60); win<int, prioritizing_mode::right_most_min<int>, true, false>(n, 60);
        win<int, prioritizing_mode::left_most_max<int>, false, true>(n, 60); win<int, prioritizing_mode::right_most_max<int>, false, false>(n, 60);
        if (t % 3 == 0) { win<ll, prioritizing_mode::left_most_min<ll>, true, true>(n, 60); win<ll, prioritizing_mode::right_most_min<ll>, true, false>(n, 60);
        win<ll, prioritizing_mode::left_most_max<ll>, false, true>(n, 60); win<ll, prioritizing_mode::right_most_max<ll>, false, false>(n, 60); }
        if (t % 3 == 0) { heap1<Big1<MinBinaryHeap<ll>>, true>({}, none, 1, len); heap1<Big1<MaxBinaryHeap<ll>>, false>({}, none, 1, len); heap1<Big1<MinPriorityQueue<ll>>, true>({}, none, 1, len); heap1<Big1<MaxPriorityQueue<ll>>, false>({}, none, 1, len); heap2(Big2<IntervalHeap<ll>>{}, none, 1, len); heap2(Big2<DoubleEndedPriorityQueue<ll>>{}, none, 1, len); }
        cart<MinCartesianTreeBuilder, true>(rng(0, 14)); cart<MaxCartesianTreeBuilder, false>(rng(0, 14)); if (t % 10 == 9) cart<MinCartesianTreeBuilder, true>(rng(30, 60)), cart<MaxCartesianTreeBuilder, false>(rng(30, 60));
    }
}
