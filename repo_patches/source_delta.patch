From b82c449253c19c3e003c3fec6608696543ed7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:38 +0000
Subject: [PATCH 001/168] fix: SegmentTree::max_right/min_left use the identity
 element e(), not the function e (did not compile)

---
 library/datastructure/segment_tree/segment_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..2898f7a 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -50,10 +50,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +74,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From 2ffa3250eb75ba9d5319d5f7c699c1dbc5095903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 002/168] fix: LazySegmentTree::suffix_prod queries [l, n), not
 [l, m) (assertion failure unless n is a power of two)

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..90af0f9 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -44,7 +44,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
-- 
2.43.0


From 76e1d6e675087edfa091db0736c126d47cedcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:26 +0000
Subject: [PATCH 003/168] fix: LazySegmentTree::min_left pushes the ancestors
 of leaf r-1 (stale folds, and out-of-bounds push when r is the capacity)

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 90af0f9..611fef0 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -86,7 +86,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From 84f31210178c34550a425428a18ab6b23efd9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:21 +0000
Subject: [PATCH 004/168] fix: CompressedSegmentTree<K>=2>::set recomputes
 inner nodes from both children (points sharing trailing coordinates were
 lost)

---
 .../segment_tree/compressed_segment_tree.hpp        | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 36b7ea5..8524e40 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -18,6 +18,7 @@ namespace suisen {
                 return xs.size();
             }
             int operator()(const value_type& x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
+            bool contains(const value_type& x) const { return std::binary_search(xs.begin(), xs.end(), x); }
         private:
             std::vector<value_type> xs;
         };
@@ -61,7 +62,14 @@ namespace suisen {
             return data[comp(p[0]) + n].get(tail(p));
         }
         void set(const point_type& p, const value_type& val) {
-            for (int i = comp(p[0]) + n; i; i >>= 1) data[i].set(tail(p), val);
+            const auto t = tail(p);
+            int i = comp(p[0]) + n;
+            data[i].set(t, val);
+            while (i >>= 1) data[i].set(t, op(data[2 * i + 0].get_or_identity(t), data[2 * i + 1].get_or_identity(t)));
+        }
+        // value at p, or the identity if p is not one of the registered points
+        value_type get_or_identity(const point_type& p) const {
+            return comp.contains(p[0]) ? data[comp(p[0]) + n].get_or_identity(tail(p)) : e();
         }
         void apply(const point_type& p, const value_type& val) {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
@@ -112,6 +120,9 @@ namespace suisen {
         value_type get(const point_type &i) const {
             return data[comp(i) + n];
         }
+        value_type get_or_identity(const point_type &i) const {
+            return comp.contains(i) ? data[comp(i) + n] : e();
+        }
 
         void set(const point_type& p, const value_type& val) {
             int i = comp(p) + n;
-- 
2.43.0


From 5033c3560dadfe3d057994eb5f1f856720455561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 005/168] fix: FenwickTreePrefix(vector) propagates in
 ascending order (prefix queries missed elements)

---
 library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
index 934baf4..04ff3dc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
@@ -9,7 +9,7 @@ namespace suisen {
         FenwickTreePrefix() : FenwickTreePrefix(0) {}
         explicit FenwickTreePrefix(int n) : _n(n), _dat(_n + 1, e()) {}
         FenwickTreePrefix(const std::vector<T> &dat) : _n(dat.size()), _dat(_n + 1, e()) {
-            for (int i = _n; i > 0; --i) {
+            for (int i = 1; i <= _n; ++i) {
                 _dat[i] = op(_dat[i], dat[i - 1]);
                 if (int p = i + (-i & i); p <= _n) _dat[p] = op(_dat[p], _dat[i]);
             }
-- 
2.43.0


From 798760090f6e208d8cfd2aa7bf7a1a30f0922332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 006/168] fix: default-constructed CumulativeSum is the empty
 sequence (its length was uninitialised)

---
 library/util/cumulative_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/cumulative_sum.hpp b/library/util/cumulative_sum.hpp
index db9cff4..c2e1674 100644
--- a/library/util/cumulative_sum.hpp
+++ b/library/util/cumulative_sum.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum {
-        CumulativeSum() = default;
+        CumulativeSum() : CumulativeSum(std::vector<T>{}) {}
         CumulativeSum(const std::vector<T> &a) : n(a.size()), s(n + 1, zero()) {
             for (size_t i = 0; i < n; ++i) s[i + 1] = add(a[i], s[i]);
         }
-- 
2.43.0


From 451a2e6327396e453fd9d6c85d6e16a60a22c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 007/168] fix: StepSum::sum for a residue k beyond the end of
 the sequence (out-of-bounds read)

---
 library/util/step_sum.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/step_sum.hpp b/library/util/step_sum.hpp
index f9a82aa..62b0bcc 100644
--- a/library/util/step_sum.hpp
+++ b/library/util/step_sum.hpp
@@ -19,8 +19,9 @@ namespace suisen {
         }
         // sum A_i for i = k (mod step) and i in [l, r)
         value_type sum(int k, int l, int r) const {
-            if (r <= k or r <= l or l >= _n) return 0;
-            const int t = _br.quo(std::min(_n, r) - 1 - k);
+            r = std::min(_n, r);
+            if (r <= k or r <= l) return 0;
+            const int t = _br.quo(r - 1 - k);
             T ans = _sum[t * _step + k];
             if (l > k) {
                 const int s = _br.quo(l - 1 - k);
-- 
2.43.0


From cbd11eddd87c8d83152e2e19992e03830eb65dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:53 +0000
Subject: [PATCH 008/168] fix: fenwick_tree_2d_sparse.hpp has its own include
 guard (it hid segment_tree_2d_sparse.hpp and vice versa)

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
-- 
2.43.0


From 9e9aecfed6a0e24e036afa59772a7543f40165a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:53 +0000
Subject: [PATCH 009/168] fix: MapFenwickTree::sum looks nodes up instead of
 calling operator[] on a const map, with index_t indices (did not compile)

---
 .../datastructure/fenwick_tree/fenwick_tree.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree.hpp b/library/datastructure/fenwick_tree/fenwick_tree.hpp
index 3e39a3d..8931403 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <map>
+#include <type_traits>
 #include <unordered_map>
 
 namespace suisen {
@@ -22,9 +23,9 @@ namespace suisen {
             T sum(index_t l, index_t r) const {
                 return sum(r) - sum(l);
             }
-            auto operator[](int i) {
+            auto operator[](index_t i) {
                 struct {
-                    int i;
+                    index_t i;
                     FenwickTreeBase& ft;
                     operator T() const { return ft.sum(i, i + 1); }
                     auto& operator++() { return *this += 1; }
@@ -38,7 +39,7 @@ namespace suisen {
                 } obj{ i, *this };
                 return obj;
             }
-            T operator()(int l, int r) const { return sum(l, r); }
+            T operator()(index_t l, index_t r) const { return sum(l, r); }
 
             Container& get_internal_container() { return data; }
         protected:
@@ -47,9 +48,15 @@ namespace suisen {
             template <typename ...Args>
             FenwickTreeBase(index_t n, Args &&...args) : n(n), data(std::forward<Args>(args)...) {}
         private:
-            T sum(int r) const {
+            T sum(index_t r) const {
                 T s{};
-                for (; r; r -= r & -r) s += data[r - 1];
+                for (; r; r -= r & -r) {
+                    if constexpr (std::is_same_v<Container, std::vector<T>>) {
+                        s += data[r - 1];
+                    } else if (auto it = data.find(r - 1); it != data.end()) {
+                        s += it->second;
+                    }
+                }
                 return s;
             }
         };
-- 
2.43.0


From 39bbce76732c7a34de422527187057181692fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:05 +0000
Subject: [PATCH 010/168] fix: union_find_lazy.hpp has its own include guard
 (it hid union_find_component_sum.hpp and vice versa)

---
 library/datastructure/union_find/union_find_lazy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
-- 
2.43.0


From 8034713f3aa61de7b6dc5d4cc21b5148eb42d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 011/168] fix: PersistentArray::dump returns each element, not
 copies of element 0

---
 library/datastructure/persistent_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/persistent_array.hpp b/library/datastructure/persistent_array.hpp
index 7be4f0f..3c7b31c 100644
--- a/library/datastructure/persistent_array.hpp
+++ b/library/datastructure/persistent_array.hpp
@@ -59,7 +59,7 @@ namespace suisen {
                 std::vector<value_type> res;
                 auto dfs = [&](auto dfs, node_pointer_type cur, int id, int p) -> void {
                     if (int(res.size()) <= id) res.resize(id + 1);
-                    res[id] = node->_val;
+                    res[id] = cur->_val;
                     int np = p << lg_ary, nid = id + p;
                     for (int d = 1; d < 1 << lg_ary; ++d, nid += p) {
                         if (cur->_ch[d]) dfs(dfs, cur->_ch[d], nid, np);
-- 
2.43.0


From 0d2c475574c88d43ccca0bddd6632b96d9c38f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 012/168] fix: PersistentUnionFind::root does not compress
 paths in nodes shared with other versions (old versions saw later merges)

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..349c0fa 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,12 +19,8 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
-            while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
-            }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
+            // no path compression: nodes of _dat are shared with other versions
+            for (int p; (p = _dat.get(x)) >= 0;) x = p;
             return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
-- 
2.43.0


From 82428fc89e6a109a789a2fecd7fd397f6c642e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 013/168] fix: PersistentFenwickTree(vector) stores the initial
 values (they were ignored, and recycled nodes kept stale sums)

---
 .../datastructure/fenwick_tree/persistent_fenwick_tree.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..3fa240e 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -33,7 +33,7 @@ namespace suisen {
                 auto rec = [&](auto rec, int p, int id) -> node_pointer_type {
                     if (p == 0) return nullptr;
                     const int np = p >> 1;
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type{});
                     res->_ch[0] = rec(rec, np, id - np);
                     if (id + 1 <= n) res->_ch[1] = rec(rec, np, id + np);
                     if (id <= n) nodes[id] = res;
@@ -41,6 +41,7 @@ namespace suisen {
                 };
                 node_pointer_type res = rec(rec, p, p);
                 for (int i = 1; i <= n; ++i) {
+                    nodes[i]->_dat += dat[i - 1];
                     int par = i + (i & -i);
                     if (par <= n) nodes[par]->_dat += nodes[i]->_dat;
                 }
@@ -108,8 +109,7 @@ namespace suisen {
         PersistentFenwickTree(int p, node_pointer_type root) : _p(p), _root(root) {}
 
         static constexpr int floor_pow2(int n) {
-            int x = 31 - __builtin_clz(n);
-            return x < 0 ? 0 : 1 << x;
+            return n == 0 ? 0 : 1 << (31 - __builtin_clz(n));
         }
     };
 }
-- 
2.43.0


From 837c411b834a423788ab10d90f1ad6cebc037792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 014/168] fix: PersistentLazySegmentTree::dump lists the
 elements only, with pending operators composed outermost first

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..9779dea 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -194,8 +194,8 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        operator_type g = composition(f, cur->_laz);
+                        rec(rec, cur->_ch[0], g), rec(rec, cur->_ch[1], g);
                     }
                 };
                 rec(rec, node, id());
-- 
2.43.0


From 028842fdf4fbb5cd653ba49a77d37946f3fd5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 015/168] fix: PersistentLazySegmentTree::apply(i, f) and the
 compile-time-predicate searches compile

---
 .../segment_tree/persistent_lazy_segment_tree.hpp           | 6 +++---
 .../datastructure/segment_tree/persistent_segment_tree.hpp  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 9779dea..895fc0c 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -247,7 +247,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..ec53449 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From c113196131226ab9ffe346c9fb8266ec2dda3934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 016/168] fix: persistent segment trees: recycled leaves lose
 their old children (wrong dump after clear_pool), empty sequences do not
 recurse forever

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 .../datastructure/segment_tree/persistent_segment_tree.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 895fc0c..1429415 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -52,7 +52,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type{});
                     if (r - l == 1) {
                         res->_dat = dat[l];
                         res->_laz = id();
@@ -64,7 +64,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.empty() ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index ec53449..fdd7d40 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -37,7 +37,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type{});
                     if (r - l == 1) {
                         res->_dat = dat[l];
                     } else {
@@ -47,7 +47,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.empty() ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
-- 
2.43.0


From df204bd67a9d073e31649697a95c387d54f22eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 017/168] fix: persistent red-black trees never write to nodes
 shared with other versions

---
 .../bbst/persistent_red_black_tree_base.hpp         |  3 +++
 library/datastructure/bbst/red_black_tree_base.hpp  | 13 ++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/bbst/persistent_red_black_tree_base.hpp b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
index 1687ca3..5b35617 100644
--- a/library/datastructure/bbst/persistent_red_black_tree_base.hpp
+++ b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
@@ -49,6 +49,9 @@ namespace suisen::bbst::internal {
             if (not node) return node;
             return &(*base_type::create_leaf() = *node);
         }
+        static tree_type push(tree_type node) {
+            return clone(node);
+        }
     };
 }
 
diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..659b252 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -45,7 +45,8 @@ namespace suisen::bbst::internal {
                 tree_type c = l->_ch[1] = merge<false>(l->_ch[1], r);
                 if (l->_col == BLACK and c->_col == RED and color(c->_ch[1]) == RED) {
                     std::swap(l->_col, c->_col);
-                    if (std::exchange(l->_ch[0]->_col, BLACK) == BLACK) return rotate(l, 1);
+                    if (l->_ch[0]->_col == BLACK) return rotate(l, 1);
+                    l->_ch[0] = node_type::clone(l->_ch[0]), l->_ch[0]->_col = BLACK;
                 }
                 res = node_type::update(l);
             } else if (hr > hl) {
@@ -53,7 +54,8 @@ namespace suisen::bbst::internal {
                 tree_type c = r->_ch[0] = merge<false>(l, r->_ch[0]);
                 if (r->_col == BLACK and c->_col == RED and color(c->_ch[0]) == RED) {
                     std::swap(r->_col, c->_col);
-                    if (std::exchange(r->_ch[1]->_col, BLACK) == BLACK) return rotate(r, 0);
+                    if (r->_ch[1]->_col == BLACK) return rotate(r, 0);
+                    r->_ch[1] = node_type::clone(r->_ch[1]), r->_ch[1]->_col = BLACK;
                 }
                 res = node_type::update(r);
             } else {
@@ -74,8 +76,8 @@ namespace suisen::bbst::internal {
 
             free_node(node);
 
-            if (color(l) == RED) l->_col = BLACK;
-            if (color(r) == RED) r->_col = BLACK;
+            if (color(l) == RED) l = node_type::clone(l), l->_col = BLACK;
+            if (color(r) == RED) r = node_type::clone(r), r->_col = BLACK;
 
             size_type szl = size(l);
             tree_type m;
@@ -106,7 +108,7 @@ namespace suisen::bbst::internal {
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
             value_type erased_value = tm->_val;
-            free_node(tm);
+            free_node(node_type::clone(tm));
             return { merge(tl, tr) , erased_value };
         }
         static std::pair<tree_type, value_type> pop_front(tree_type node) { return erase(node, 0); }
@@ -115,6 +117,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::clone(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
-- 
2.43.0


From 13063d4de55a2c8a9037b772c01d4e57ac8347aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 018/168] fix: RedBlackTreeNodeBase::set compiles

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 659b252..0aaed00 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -122,7 +122,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
-- 
2.43.0


From fefa305484a094a6b8a5d074c97e4c22bcb50659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:37 +0000
Subject: [PATCH 019/168] fix: reversible treaps: erase_lower_bound and
 erase_upper_bound compile

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..d99fb54 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From ddb2e91f8c7a504a2d37f7128ad1cacfb51c84ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:37 +0000
Subject: [PATCH 020/168] fix: reversible treaps: erase_binary_search never
 erases a later element when the first match is to be kept

---
 .../bbst/reversible_implicit_treap_base.hpp          | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index d99fb54..1632570 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -309,14 +309,20 @@ namespace suisen::internal::implicit_treap {
         // returns { node, optional(position, value) }
         template <typename Predicate, typename RemovePredicate>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search(node_pointer t, const Predicate& f, const RemovePredicate& g) {
+            bool found = false;
+            return erase_binary_search_impl(t, f, g, found);
+        }
+        // found: whether there is an element that satisfies the condition f
+        template <typename Predicate, typename RemovePredicate>
+        static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search_impl(node_pointer t, const Predicate& f, const RemovePredicate& g, bool& found) {
             if (not t) return { empty_node(), std::nullopt };
             node_type::push(t);
             if (f(value(t))) {
-                auto [c0, erased] = erase_binary_search(child0(t), f, g);
+                auto [c0, erased] = erase_binary_search_impl(child0(t), f, g, found);
                 if (erased) {
                     set_child0(t, c0);
                     return { node_type::update(t), std::move(erased) };
-                } else if (g(value(t))) {
+                } else if (not std::exchange(found, true) and g(value(t))) {
                     node_pointer::dealloc(t);
                     std::pair<size_type, value_type> erased_entry{ safe_size(child0(t)), std::move(value(t)) };
                     return { merge(child0(t), child1(t)), std::move(erased_entry) };
@@ -324,7 +330,7 @@ namespace suisen::internal::implicit_treap {
                     return { t, std::nullopt };
                 }
             } else {
-                auto [c1, erased] = erase_binary_search(child1(t), f, g);
+                auto [c1, erased] = erase_binary_search_impl(child1(t), f, g, found);
                 if (erased) {
                     set_child1(t, c1);
                     size_type& pos = erased->first;
-- 
2.43.0


From 5d1fad1a19dc6a5a0f9c20cf090052ff89a14ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:37 +0000
Subject: [PATCH 021/168] fix: DynamicSequence::reverse_all compiles

---
 library/datastructure/dynamic_sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..8a71d3b 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -209,7 +209,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
-- 
2.43.0


From 0c5a298fdeceec09719f7df4d5ab69a54d15eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:37 +0000
Subject: [PATCH 022/168] fix: SortableSegmentTree::pop_front/pop_back return
 the removed entry (undefined behaviour)

---
 library/datastructure/segment_tree/sortable_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..45be4fd 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -665,8 +665,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
-- 
2.43.0


From c01f6f35a0346304c349659de173584c385a146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:37 +0000
Subject: [PATCH 023/168] fix: SortableSegmentTree::concat compiles and takes
 over the nodes of its argument

---
 library/datastructure/segment_tree/sortable_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 45be4fd..60d3f45 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -674,8 +674,8 @@ namespace suisen {
             _root = root_l;
             return SortableSegmentTree{ root_r };
         }
-        void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+        void concat(SortableSegmentTree&& tr) {
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From 219e87e772ada765f3f55cf0c085d6100f64fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:01 +0000
Subject: [PATCH 024/168] fix: reversible treaps toggle the stored products
 when a reversal is pushed down (wrong products for non-commutative
 operations)

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 1632570..c251f4b 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                node_type::reverse_all(child0(t));
+                node_type::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From 4618dd200af124c6d3b3d543429d31f229b97b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:58 +0000
Subject: [PATCH 025/168] fix: SortableSegmentTree::max_right/min_left inside a
 block sorted in descending order

---
 .../segment_tree/sortable_segment_tree.hpp    | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 60d3f45..dc317e9 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -242,39 +242,43 @@ namespace suisen {
             }
 
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> max_right(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> max_right(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type r = 0;
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(s, safe_sum(child0(t))); f(nxt_s)) {
+                    inner_node_pointer tl = rev ? child1(t) : child0(t), tr = rev ? child0(t) : child1(t);
+                    value_type sum_l = rev ? toggle(safe_sum(tl)) : safe_sum(tl);
+                    if (value_type nxt_s = op(s, sum_l); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        r += safe_size(child0(t));
-                        if (nxt_s = op(s, value(t)); f(nxt_s)) {
+                        r += safe_size(tl);
+                        if (nxt_s = op(s, rev ? toggle(value(t)) : value(t)); f(nxt_s)) {
                             s = std::move(nxt_s);
                             r += 1;
-                            t = child1(t);
+                            t = tr;
                         } else break;
                     } else {
-                        t = child0(t);
+                        t = tl;
                     }
                 }
                 return { r, s };
             }
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> min_left(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> min_left(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type l = safe_size(t);
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(safe_sum(child1(t)), s); f(nxt_s)) {
+                    inner_node_pointer tl = rev ? child1(t) : child0(t), tr = rev ? child0(t) : child1(t);
+                    value_type sum_r = rev ? toggle(safe_sum(tr)) : safe_sum(tr);
+                    if (value_type nxt_s = op(sum_r, s); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        l -= safe_size(child1(t));
-                        if (nxt_s = op(value(t), s); f(nxt_s)) {
+                        l -= safe_size(tr);
+                        if (nxt_s = op(rev ? toggle(value(t)) : value(t), s); f(nxt_s)) {
                             s = std::move(nxt_s);
                             l -= 1;
-                            t = child0(t);
+                            t = tl;
                         } else break;
                     } else {
-                        t = child1(t);
+                        t = tr;
                     }
                 }
                 return { l, s };
@@ -541,7 +545,7 @@ namespace suisen {
                             t = child1(t);
                         } else {
                             size_type r_inner;
-                            std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            std::tie(r_inner, s) = inner_node::max_right(inner(t), reversed(t), f, s);
                             r += r_inner;
                             break;
                         }
@@ -572,7 +576,7 @@ namespace suisen {
                             t = child0(t);
                         } else {
                             size_type l_inner;
-                            std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            std::tie(l_inner, s) = inner_node::min_left(inner(t), reversed(t), f, s);
                             l -= inner_size(t) - l_inner;
                             break;
                         }
-- 
2.43.0


From e729076fbba2381f57245e7a62b26c56a74934fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 026/168] fix: splay_tree_map.hpp includes <tuple> (did not
 compile on its own)

---
 library/datastructure/splay_tree_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..a2ebce6 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <tuple>
 #include <vector>
 #include <utility>
 
-- 
2.43.0


From aaa4f3e863726d376ca8bd8f90921e11a306aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 027/168] fix: splay tree maps: erase_index compiles

---
 library/datastructure/splay_tree_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index a2ebce6..7969a9e 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -207,7 +207,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
-- 
2.43.0


From 491e497c0179aa23a2ee473b64ba0a8a75356561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 028/168] fix: splay tree maps: get_or_default compiles and
 keeps the splayed root

---
 library/datastructure/splay_tree_map.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 7969a9e..6c630cd 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -223,10 +223,9 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static std::pair<node_ptr_t, Val> get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
-        node = new_root;
-        return found ? new_root->val : default_value;
+        return { new_root, found ? new_root->val : default_value };
     }
 };
 
-- 
2.43.0


From feda02668b643d288a2e0513e5bb383a1b5404cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 029/168] fix: RangeFoldableMap/LazyEvalMap::operator()(l, r)
 compiles

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..2ac8d79 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..00778cf 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From 72db88c2a6db348acaee7ccbdbadd1cce6b3e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 030/168] fix: SplayTreeMap/LazyEvalMap::merge accepts two
 empty maps

---
 library/datastructure/lazy_eval_map.hpp  | 2 +-
 library/datastructure/splay_tree_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 2ac8d79..bd98296 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -149,7 +149,7 @@ class LazyEvalMap {
             return LazyEvalMap(r);
         }
         void merge(LazyEvalMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 6c630cd..5fd399b 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -309,7 +309,7 @@ class SplayTreeMap {
             return SplayTreeMap<Key, Val>(r);
         }
         void merge(SplayTreeMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From 8b12cae97a249e42ca17a3ad7a7ff4bec0c952c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 031/168] fix: RangeSet::in_the_same_range compiles

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From 7e86f3f1a0e3535f6e669fe818652e193c4e6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 032/168] fix: RangeSetRangeComposite(n, val) gives the
 position set its universe (assertion failure)

---
 library/range_query/range_set_range_composite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_set_range_composite.hpp b/library/range_query/range_set_range_composite.hpp
index 91f1193..da7b92c 100644
--- a/library/range_query/range_set_range_composite.hpp
+++ b/library/range_query/range_set_range_composite.hpp
@@ -9,10 +9,11 @@ namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct RangeSetRangeComposite {
         RangeSetRangeComposite() : RangeSetRangeComposite(0) {}
-        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()) {
+        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()), _pos(_n + 1) {
+            _pos.insert(_n);
+            if (_n == 0) return;
             _pos.insert(0), _vs[0] = val;
             _seg.set(0, _pow(0, n));
-            _pos.insert(_n);
         }
         explicit RangeSetRangeComposite(const std::vector<T>& a) : _n(a.size()), _seg(a), _vs(a), _pos(_n + 1, true) {}
 
-- 
2.43.0


From d03c8c3f4569b3c13420db33ee792727bf24730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:22 +0000
Subject: [PATCH 033/168] fix: fenwick_tree_set::max_leq on an empty universe
 (out-of-bounds read)

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 63dad3e..82ad048 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -127,8 +127,8 @@ namespace suisen {
         // O(log n).
         // Max element <= `v` or `-1` if not exists
         int max_leq(int v) const {
-            if (v < 0) return -1;
             v = std::min(v, _n - 1);
+            if (v < 0) return -1;
             const auto [t, u] = index(v);
             const int lz = (WORD - 1) - u;
             if (const uint64_t bits = _bs[t] << lz >> lz) {
-- 
2.43.0


From 522db28555e912998c415c9ce551f252e156a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 034/168] fix: BinaryHeap::pop of the last element does not
 touch the empty array

---
 library/datastructure/heap/binary_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/heap/binary_heap.hpp b/library/datastructure/heap/binary_heap.hpp
index 26d84b3..af561be 100644
--- a/library/datastructure/heap/binary_heap.hpp
+++ b/library/datastructure/heap/binary_heap.hpp
@@ -66,7 +66,7 @@ namespace suisen {
                 std::swap(_dat.front(), _dat.back());
                 value_type res = std::move(_dat.back());
                 _dat.pop_back();
-                heapify_down(0);
+                if (_dat.size()) heapify_down(0);
                 return res;
             }
 
-- 
2.43.0


From ebaec4504f606a828a8e0672999058f856e2afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 035/168] fix: priority_queue.hpp names the existing heaps (did
 not compile)

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..758c1a5 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = suisen::MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = suisen::MaxBinaryHeap<T>;
 } // namespace suisen
 
 
-- 
2.43.0


From e66ae9f02ebbac69b02ca8ace8bfde23c72290ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 036/168] fix: DoubleEndedPriorityQueue copies own their
 comparator (a copy pointed into the original)

---
 library/datastructure/double_ended_priority_queue.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 797e321..e5e0164 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -83,9 +83,9 @@ namespace suisen {
     private:
         compare_type _comp;
         struct {
-            compare_type* comp;
-            bool operator()(const value_type& x, const value_type& y) { return (*comp)(y, x); }
-        } _rev_comp{ &_comp };
+            compare_type comp;
+            bool operator()(const value_type& x, const value_type& y) { return comp(y, x); }
+        } _rev_comp{ _comp };
 
         std::vector<value_type> _max_heap, _min_heap;
         value_type pivot;
-- 
2.43.0


From 7695a344286088df0c95b9ba8a8a049f96aaf533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 037/168] fix: QueueAggregation iterators compile when the sum
 type differs from the value type

---
 library/datastructure/queue_aggregation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..14c9bfe 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -24,8 +24,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
-- 
2.43.0


From 02151aa7105f6ed9e244513fe27bdc0330a69f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 038/168] fix: PrioritySum::erase looks for the element on the
 right side of the boundary

---
 library/datastructure/util/priority_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/priority_sum.hpp b/library/datastructure/util/priority_sum.hpp
index e21d5be..465dfb4 100644
--- a/library/datastructure/util/priority_sum.hpp
+++ b/library/datastructure/util/priority_sum.hpp
@@ -29,7 +29,7 @@ namespace suisen {
                 if (_head_k.size() and v == _head_k.top()) {
                     _sum -= v;
                     _head_k.pop();
-                } else if (_head_k.size() and _rev_cmp(v, _head_k.top())) {
+                } else if (_head_k.size() and _cmp(v, _head_k.top())) {
                     _sum -= v;
                     _del_head_k.push(v);
                 } else {
-- 
2.43.0


From e1c6e608f017a3cc7622c51e288009fd27bc501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 039/168] fix: SlopeTrick::lines compiles

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From f56158645020e90d6815cfd2aa5a05e663444492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 040/168] fix: MonotonicCHT with a floating-point type accepts
 negative slopes and queries

---
 library/datastructure/monotonic_convex_hull_trick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 3f067d4..ffd9ad6 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -25,7 +25,7 @@ namespace suisen {
         struct query_impl {};
         template <typename Dummy>
         struct query_impl<inc_query_tag, Dummy> {
-            value_type prev_x = std::numeric_limits<value_type>::min();
+            value_type prev_x = std::numeric_limits<value_type>::lowest();
             value_type operator()(MonotonicCHT* ptr, value_type x) {
                 assert(x >= prev_x);
                 prev_x = x;
@@ -92,7 +92,7 @@ namespace suisen {
         }
     private:
         std::deque<std::pair<value_type, value_type>> lines;
-        value_type max_slope = std::numeric_limits<value_type>::min();
+        value_type max_slope = std::numeric_limits<value_type>::lowest();
         value_type min_slope = std::numeric_limits<value_type>::max();
         query_impl<query_tag> _query{};
 
-- 
2.43.0


From 6baadfc1e94077faeadc9b13a8a0dd07d9321779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:00 +0000
Subject: [PATCH 041/168] fix: default-constructed CartesianTree has no root
 (ranges() read out of bounds)

---
 library/datastructure/cartesian_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/cartesian_tree.hpp b/library/datastructure/cartesian_tree.hpp
index b5c2161..16fd0dd 100644
--- a/library/datastructure/cartesian_tree.hpp
+++ b/library/datastructure/cartesian_tree.hpp
@@ -14,7 +14,7 @@ namespace suisen {
 
         const int root;
 
-        CartesianTree() : base_type(), root(0) {}
+        CartesianTree() : base_type(), root(absent) {}
         CartesianTree(int root, const base_type& g) : base_type(g), root(root) {}
         CartesianTree(int root, base_type&& g) : base_type(std::move(g)), root(root) {}
 
-- 
2.43.0


From 9e30772584e4063fd0719d13a2c9b1c058419043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 042/168] fix: DynamicBitSet: bit &= value leaves the other
 bits of the block alone

---
 library/datastructure/util/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index d64b0fd..9b40433 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -21,7 +21,7 @@ namespace suisen {
             void set() { b |= block(1) << i; }
             void reset() { b &= ~(block(1) << i); }
             void flip() { b ^= block(1) << i; }
-            bitref& operator&=(bool val) { b &= block(val) << i; return *this; }
+            bitref& operator&=(bool val) { if (not val) reset(); return *this; }
             bitref& operator|=(bool val) { b |= block(val) << i; return *this; }
             bitref& operator^=(bool val) { b ^= block(val) << i; return *this; }
             bitref& operator =(bool val) { val ? set() : reset(); return *this; }
-- 
2.43.0


From f56cd9c57ca6fab651abfecff027d8270b1d267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 043/168] fix: static_bitset: stream output compiles

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From 09d4e1d7bae46df1ab9481bd32af485e2dc3f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 044/168] fix: static_bitset: ~ and << do not set bits beyond N
 (wrong comparisons, conversions to bool and right shifts)

---
 library/datastructure/util/static_bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index 5ff165b..306f72e 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -38,6 +38,7 @@ namespace suisen {
         static_bitset<N> operator~() const {
             static_bitset<N> res;
             for (std::size_t i = 0; i < L; ++i) res._data[i] = ~_data[i];
+            res.trim();
             return res;
         }
         static_bitset<N>& operator<<=(const std::size_t shamt) {
@@ -59,6 +60,7 @@ namespace suisen {
                 }
             }
             for (std::size_t i = large_shamt; i-- > 0;) _data[i] = 0;
+            trim();
             return *this;
         }
         static_bitset<N>& operator>>=(const std::size_t shamt) {
@@ -165,6 +167,10 @@ namespace suisen {
     private:
         std::array<uint64_t, L> _data{};
 
+        void trim() {
+            if constexpr (N & 63) _data[L - 1] &= (1ULL << (N & 63)) - 1;
+        }
+
         static constexpr std::size_t outer_index(std::size_t k) {
             return k >> 6;
         }
-- 
2.43.0


From 60e8e32958b6d8805a611b7044f1b58d20f94c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 045/168] fix: WaveletMatrix: bit_num equal to or above the
 width of T (default arguments) compiles and is not undefined

---
 library/datastructure/wavelet_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..d1b1b02 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -156,7 +156,7 @@ namespace suisen {
         WaveletMatrix(int n) noexcept : n(n) {}
     private:
         static_assert(bit_num > 0);
-        static constexpr T MAX = bit_num == std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
+        static constexpr T MAX = bit_num >= std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << (bit_num < std::numeric_limits<T>::digits ? bit_num : 0)) - 1;
 
         int n;
         std::array<BitVector, bit_num> bv;
@@ -168,7 +168,7 @@ namespace suisen {
         }
 
         static void check_value_bounds(T val) {
-            assert((val >> bit_num) == 0);
+            if constexpr (bit_num < std::numeric_limits<T>::digits) assert((val >> bit_num) == 0);
         }
     };
 } // namespace suisen
-- 
2.43.0


From c9085aada466fac6385e9e481135d7ee27a49ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 046/168] fix: CompressedWaveletMatrix::range_max_leq answers
 for non-empty ranges

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 9e4b810..6846f0c 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -80,7 +80,7 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (r >= l) return default_value;
+            if (l >= r) return default_value;
             return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
         }
     private:
-- 
2.43.0


From 69f9b555addc1a806ee10d59e936e8622696ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 047/168] fix: BinaryTrie: xor_count_leq counts the elements
 equal to x ^ val

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..f3e3caf 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -108,7 +108,7 @@ class BinaryTrie {
             }
             return res;
         }
-        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(val); }
+        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(x ^ val); }
         inline int xor_count_gt (const U x, const U val) const noexcept { return size() - xor_count_leq(x, val);    }
         inline int xor_count_geq(const U x, const U val) const noexcept { return size() - xor_count_lt(x, val);     }
         inline U xor_lower(const U x, const U val, const U default_value = ~U(0)) const noexcept {
-- 
2.43.0


From 3a88cbe642a1abe0e0dff2061bf9a8769945cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 048/168] fix: BinaryTrie::max returns the maximum, not its
 complement

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index f3e3caf..4dce48e 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -130,7 +130,7 @@ class BinaryTrie {
 
         inline U kth_min(const int k) const { return xor_kth_min(0, k); }
         inline U min() const { return xor_kth_min(0, 0); }
-        inline U max() const { return xor_kth_min(~U(0), 0); }
+        inline U max() const { return xor_kth_max(0, 0); }
         inline int count_lt (const U val) const noexcept { return xor_count_lt(0, val);  }
         inline int count_leq(const U val) const noexcept { return xor_count_leq(0, val); }
         inline int count_gt (const U val) const noexcept { return xor_count_gt(0, val);  }
-- 
2.43.0


From ba1a271f2c2dece0e3642cc04d361c3beb1a4529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 049/168] fix: BinaryTriePatricia::xor_max returns the maximum
 of x ^ v, not its complement

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..0e6de45 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -104,7 +104,7 @@ namespace suisen {
         }
         // max{ x ^ v | v in S }
         value_type xor_max(const unsigned_value_type& x) const {
-            return xor_min(~x);
+            return xor_kth_max(x, 0);
         }
 
         // k-th smallest of { x ^ v | v in S } (0-indexed)
-- 
2.43.0


From ac7470559e3b7b202f569acbcb30c9b8bcbd1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 050/168] fix: BinaryTriePatricia works when bit_num is the
 width of the type (shifts by the full width)

---
 library/datastructure/binary_trie_patricia.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 0e6de45..a65144b 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -138,7 +138,7 @@ namespace suisen {
         // #{ v in S | x ^ v < upper }
         __attribute__((target("bmi")))
         size_type xor_count_lt (unsigned_value_type x, unsigned_value_type upper) const {
-            if (upper >> bit_num) return _root->siz;
+            if constexpr (bit_num < std::numeric_limits<unsigned_value_type>::digits) if (upper >> bit_num) return _root->siz;
             bit_reverse(x);
             bit_reverse(upper);
             internal_size_type res = 0;
@@ -253,7 +253,7 @@ namespace suisen {
         node_pointer_type _root = node_type::new_node(0, 0, 0);
 
         static constexpr unsigned_value_type cut_lower(const unsigned_value_type& val, uint32_t r) {
-            return val & ((unsigned_value_type(1) << r) - 1);
+            return r == std::numeric_limits<unsigned_value_type>::digits ? val : val & ((unsigned_value_type(1) << r) - 1);
         }
         static constexpr uint32_t bit_reverse_u32(uint32_t x) {
             x = (((x & 0xaaaaaaaa) >> 1) | ((x & 0x55555555) << 1));
-- 
2.43.0


From 4fb7201d0fe68a187d5dc435b2c2d3aa37cbdb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 051/168] fix: bit_utils: popcount, count_lz and floor_log2 of
 8- and 16-bit types

---
 library/util/bit_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/bit_utils.hpp b/library/util/bit_utils.hpp
index 17232c1..8f06f33 100644
--- a/library/util/bit_utils.hpp
+++ b/library/util/bit_utils.hpp
@@ -9,11 +9,11 @@
 #include "library/type_traits/type_traits.hpp"
 namespace suisen {
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(x); }
+    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(std::make_unsigned_t<T>(x)); }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u64(x); }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    constexpr int count_lz(const T x) { return x ? __builtin_clz(x) : suisen::bitnum_v<T>; }
+    constexpr int count_lz(const T x) { return x ? __builtin_clz(std::make_unsigned_t<T>(x)) - (32 - suisen::bitnum_v<T>) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     constexpr int count_lz(const T x) { return x ? __builtin_clzll(x) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-- 
2.43.0


From 36ded2eef490db4bc5325b86b6559e14b55ac43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 052/168] fix: include guard of LinkCutTreePathFoldable no
 longer hides or is hidden by LinkCutTree

---
 library/tree/link_cut_tree_path_foldable.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
-- 
2.43.0


From 59a1d0912c88535a9a73119d9e65b52e7c385979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 053/168] fix: include guard of RerootingInvertible no longer
 hides or is hidden by Rerooting

---
 library/tree/rerooting_invertible.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From 849fbe2e89f6018865250e54ec17cb2503625d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 054/168] fix: include guard of assignment_problem no longer
 hides or is hidden by min_cost_flow

---
 library/graph/assignment_problem.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
-- 
2.43.0


From 0f759c22f7e360d580034367d028c8c8bc24cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 055/168] fix: include guard of integral_geom/closest_pair no
 longer hides or is hidden by geom/closest_pair

---
 library/integral_geom/closest_pair.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 3ac591a..4bc4759 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_CLOSEST_PAIR
-#define SUISEN_CLOSEST_PAIR
+#ifndef SUISEN_INTEGRAL_CLOSEST_PAIR
+#define SUISEN_INTEGRAL_CLOSEST_PAIR
 
 #include <cassert>
 
@@ -58,4 +58,4 @@ namespace suisen::integral_geometry {
 } // namespace suisen::integral_geometry
 
 
-#endif // SUISEN_CLOSEST_PAIR
+#endif // SUISEN_INTEGRAL_CLOSEST_PAIR
-- 
2.43.0


From bf17d1790dc3f4ae4817f5df9143484712f92dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:47 +0000
Subject: [PATCH 056/168] fix: include guard of integral_geom/geometry no
 longer hides or is hidden by geom/geometry

---
 library/integral_geom/geometry.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..bace3aa 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_GEOMETRY
-#define SUISEN_GEOMETRY
+#ifndef SUISEN_INTEGRAL_GEOMETRY
+#define SUISEN_INTEGRAL_GEOMETRY
 
 #include <algorithm>
 #include <cmath>
@@ -238,4 +238,4 @@ namespace suisen::integral_geometry {
     }
 } // namespace suisen::integral_geometry
 
-#endif // SUISEN_GEOMETRY
+#endif // SUISEN_INTEGRAL_GEOMETRY
-- 
2.43.0


From 1368b260437013c4ef2f2abc2ceeb8f46f80cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:50 +0000
Subject: [PATCH 057/168] fix: AuxiliaryTree::build of an empty vertex set
 gives an empty tree instead of reading vs[0]

---
 library/tree/auxiliary_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/tree/auxiliary_tree.hpp b/library/tree/auxiliary_tree.hpp
index 708ce2d..34f5e23 100644
--- a/library/tree/auxiliary_tree.hpp
+++ b/library/tree/auxiliary_tree.hpp
@@ -17,6 +17,7 @@ namespace suisen {
             const int k = vs.size();
             for (int v : _upd) _aux[v].clear();
             _upd.clear();
+            if (k == 0) return;
 
             std::sort(vs.begin(), vs.end(), [this](int i, int j) { return _hld.get_visit_time(i) < _hld.get_visit_time(j); });
 
-- 
2.43.0


From 20019e4b5ce0ef76fe807c59171b348587a07ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:15 +0000
Subject: [PATCH 058/168] fix: is_isomorphic compares the first centroid of g1
 with the second centroid of g2 instead of reading cs2[1] out of bounds

---
 library/tree/tree_isomorphism_classification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/tree_isomorphism_classification.hpp b/library/tree/tree_isomorphism_classification.hpp
index 3fde37e..118918a 100644
--- a/library/tree/tree_isomorphism_classification.hpp
+++ b/library/tree/tree_isomorphism_classification.hpp
@@ -211,7 +211,7 @@ namespace suisen {
                 id21 = id_new_par;
             }
             if (id11 == ids20[cs2[0]]) return std::pair{ cs1[1], cs2[0] };
-            if (ids20[cs2[1]] == id21) return std::pair{ cs1[0], cs2[1] };
+            if (ids10[cs1[0]] == id21) return std::pair{ cs1[0], cs2[1] };
             if (id11 == id21) return std::pair{ cs1[1], cs2[1] };
             return std::nullopt;
         }
-- 
2.43.0


From 50749054c2fe4c039a0286afb86df35d9910f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 059/168] fix: LowLink and its derived classes can be rebuilt
 after more edges are added

---
 library/graph/biconnected_components.hpp        | 1 +
 library/graph/low_link.hpp                      | 6 ++++++
 library/graph/two_edge_connected_components.hpp | 1 +
 3 files changed, 8 insertions(+)

diff --git a/library/graph/biconnected_components.hpp b/library/graph/biconnected_components.hpp
index ee3d5e9..80f1209 100644
--- a/library/graph/biconnected_components.hpp
+++ b/library/graph/biconnected_components.hpp
@@ -110,6 +110,7 @@ namespace suisen {
             _edge_comp_num = 0;
             _edge_comp_id.assign(_m, -1);
             _used.assign(_n, false);
+            _isolated_vertices.clear();
             for (int i = 0; i < _n; ++i) if (not _used[i]) {
                 dfs(i, -1);
                 if (_g[i].empty()) _isolated_vertices.push_back(i);
diff --git a/library/graph/low_link.hpp b/library/graph/low_link.hpp
index cc2b4e6..7d95b74 100644
--- a/library/graph/low_link.hpp
+++ b/library/graph/low_link.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_LOW_LINK
 #define SUISEN_LOW_LINK
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
@@ -26,6 +27,11 @@ namespace suisen {
         }
 
         void build() {
+            std::fill(_pre_order.begin(), _pre_order.end(), -1);
+            std::fill(_par.begin(), _par.end(), -1);
+            _bridges.clear();
+            _articulation_points.clear();
+            _conn_comp_num = 0;
             dfs_for_all_connected_components();
             _built = true;
         }
diff --git a/library/graph/two_edge_connected_components.hpp b/library/graph/two_edge_connected_components.hpp
index 01bde25..31066a5 100644
--- a/library/graph/two_edge_connected_components.hpp
+++ b/library/graph/two_edge_connected_components.hpp
@@ -66,6 +66,7 @@ namespace suisen {
         }
         void dfs_for_all_connected_components() {
             _comp_num = 0;
+            _comp_id.assign(_n, -1);
             for (int i = 0; i < _n; ++i) {
                 if (_comp_id[i] < 0) dfs(i, -1);
             }
-- 
2.43.0


From 665ae973a87ce631e8647f44b9f5deecafcc9d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 060/168] fix: FunctionalGraph::doubling terminates for step
 limits of 2^62 and more

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index fbcf73d..3e4253d 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -225,7 +225,7 @@ namespace suisen {
 
         static int floor_log2(long long v) {
             int l = 0;
-            while (1LL << (l + 1) <= v) ++l;
+            while (v >> (l + 1)) ++l;
             return l;
         }
     };
-- 
2.43.0


From a9fa65b9681986f7ff8f85419b6f05fd7cc49dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 061/168] fix: a failed eulerian_trail no longer leaves an
 extra edge in the graph

---
 library/graph/directed_eulerian_graph.hpp   | 6 +++---
 library/graph/undirected_eulerian_graph.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/graph/directed_eulerian_graph.hpp b/library/graph/directed_eulerian_graph.hpp
index 74714e0..da06f0d 100644
--- a/library/graph/directed_eulerian_graph.hpp
+++ b/library/graph/directed_eulerian_graph.hpp
@@ -63,12 +63,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(t, s);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (t, s)
             g[t].pop_back();
             --in_deg[s];
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_ts_edge = [&](int u, int v) {
                 return u == t and v == s;
diff --git a/library/graph/undirected_eulerian_graph.hpp b/library/graph/undirected_eulerian_graph.hpp
index d4e691b..f16b5b8 100644
--- a/library/graph/undirected_eulerian_graph.hpp
+++ b/library/graph/undirected_eulerian_graph.hpp
@@ -60,12 +60,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(s, t);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (s, t)
             g[s].pop_back(), inv[s].pop_back();
             g[t].pop_back(), inv[t].pop_back();
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_st_edge = [&](int u, int v) {
                 return (u == s and v == t) or (u == t and v == s);
-- 
2.43.0


From 5149329fa37c0a4a1ce859fec76fa8a69d51a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:54 +0000
Subject: [PATCH 062/168] fix: FunctionalGraph::kth_iterate does not overflow
 for k close to the largest long long

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index 3e4253d..747dc0d 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -212,7 +212,7 @@ namespace suisen {
                     const int s = cycle[i];
                     seen[s] = true;
                     for (const auto& [rem, res_index] : qs[s]) {
-                        res[res_index] = cycle[(i + rem) % len];
+                        res[res_index] = cycle[(i + rem % len) % len];
                     }
                 }
             }
-- 
2.43.0


From 45cb33d618e511ba71f80ecafaa17bc6c70d6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 063/168] fix: Graph::dfs_tree and Graph::shrink_to_fit work on
 copied and moved graphs

---
 library/graph/csr_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..55a39a8 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             auto it = new_edges.begin();
             for (int i = 0; i < _n; ++i) {
                 int nl = it - new_edges.begin();
-                it = std::move(_adj[i].begin(), _adj[i].end(), it);
+                it = std::move((*this)[i].begin(), (*this)[i].end(), it);
                 _adj[i]._offset = nl;
                 _adj[i]._cap = _adj[i]._siz;
             }
@@ -258,7 +258,7 @@ namespace suisen {
                         *pst_it++ = cur;
                         cur = par[cur];
                     } else {
-                        const auto &e = _adj[cur][eid[cur]];
+                        const auto &e = (*this)[cur][eid[cur]];
                         weight_type_or_1 w = get_weight(e);
                         int nxt = e;
                         if (par[nxt] == -2) {
-- 
2.43.0


From 0fb696552d5d476fa7913561772f2a487dc375eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 064/168] fix: MinCostFlow declares its flow limit with the
 capacity type

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index d5624c6..4b8313f 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -78,7 +78,7 @@ class MinCostFlow {
 
     private:
         static constexpr Cost INF_COST = std::numeric_limits<Cost>::max() / 2;
-        static constexpr Cost INF_FLOW = std::numeric_limits<Cap>::max() / 2;
+        static constexpr Cap INF_FLOW = std::numeric_limits<Cap>::max() / 2;
     
         int n;
         std::vector<std::vector<InternalEdge>> g;
-- 
2.43.0


From b0edcceca65e0ebbad88123f00edda658ca9d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 065/168] fix: MinCostFlow self loops point to their own
 reverse edge

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index 4b8313f..051c39b 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -24,7 +24,7 @@ class MinCostFlow {
         int add_edge(int u, int v, Cap cap, Cost cost) {
             int edge_id = edges.size();
             edges.emplace_back(u, g[u].size());
-            g[u].push_back({ v, cap,  cost, int(g[v].size())     });
+            g[u].push_back({ v, cap,  cost, int(g[v].size()) + (u == v) });
             g[v].push_back({ u,   0, -cost, int(g[u].size()) - 1 });
             return edge_id;
         }
-- 
2.43.0


From ad8172ce51c32c8432cbe4e333f0131f54d1778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 066/168] fix: BipartiteMatching::min_edge_cover sizes the
 right side by the number of right vertices

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index ba7cd72..c8d4fdd 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -107,7 +107,7 @@ namespace suisen {
 
         std::vector<std::pair<int, int>> min_edge_cover() {
             auto res = max_matching();
-            std::vector<bool> vl(_n, false), vr(_n, false);
+            std::vector<bool> vl(_n, false), vr(_m, false);
             for (const auto& [u, v] : res) vl[u] = vr[v] = true;
             for (int u = 0; u < _n; ++u) for (int v : _g[u]) if (not (vl[u] and vr[v])) {
                 vl[u] = vr[v] = true;
-- 
2.43.0


From 9282582ea497f841736a863febe1e2034c68d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 067/168] fix: BipartiteMatching::solve counts pairs matched
 before edges were added

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index c8d4fdd..55424f6 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 }
                 return level[_n + r] = _n + _m, false;
             };
-            for (_f = 0; bfs();) {
+            for (_f = _n - std::count(_to_r.begin(), _to_r.end(), ABSENT); bfs();) {
                 std::fill(iter.begin(), iter.end(), 0);
                 for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) _f += dfs(dfs, j);
             }
-- 
2.43.0


From 7b30295ae26c6bbfba7d2a590b18ceffc60fdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 068/168] fix: maximum_clique does not put self loops into the
 complement graph

---
 library/graph/maximum_clique.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/maximum_clique.hpp b/library/graph/maximum_clique.hpp
index 2f6dbc1..7f68220 100644
--- a/library/graph/maximum_clique.hpp
+++ b/library/graph/maximum_clique.hpp
@@ -10,7 +10,7 @@ namespace suisen {
         for (int i = 0; i < n; ++i) {
             std::vector<int8_t> adj(n, false);
             for (int j : g[i]) adj[j] = true;
-            for (int j = 0; j < n; ++j) if (not adj[j]) h[i].push_back(j);
+            for (int j = 0; j < n; ++j) if (i != j and not adj[j]) h[i].push_back(j);
         }
         return maximum_independent_set(h);
     }
-- 
2.43.0


From b0a43192d59625dfd1c820e087251ac0622f201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 069/168] fix: manhattan_minimum_distances and manhattan_mst
 handle negative floating point coordinates

---
 library/graph/manhattan_minimum_distances.hpp | 2 +-
 library/graph/manhattan_mst.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 4cf451d..82fae05 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -13,7 +13,7 @@ namespace suisen {
         template <typename T>
         T op(T x, T y) { return std::max(x, y); };
         template <typename T>
-        T e() { return std::numeric_limits<T>::min(); };
+        T e() { return std::numeric_limits<T>::lowest(); };
         template <typename T>
         using PrefixMaxQuery = FenwickTreePrefix<T, op<T>, e<T>>;
     } // namespace internal::manhattan_minimum_distances
diff --git a/library/graph/manhattan_mst.hpp b/library/graph/manhattan_mst.hpp
index 6e48a2c..8897b07 100644
--- a/library/graph/manhattan_mst.hpp
+++ b/library/graph/manhattan_mst.hpp
@@ -14,7 +14,7 @@ namespace suisen {
         template <typename T>
         std::pair<T, int> op(std::pair<T, int> x, std::pair<T, int> y) { return std::max(x, y); };
         template <typename T>
-        std::pair<T, int> e() { return { std::numeric_limits<T>::min(), -1 }; };
+        std::pair<T, int> e() { return { std::numeric_limits<T>::lowest(), -1 }; };
         template <typename T>
         using PrefixMaxQuery = FenwickTreePrefix<std::pair<T, int>, op<T>, e<T>>;
     } // namespace internal::manhattan_mst
-- 
2.43.0


From 8bd0fe8313a29dedb915363ba0359141a1eeeb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 070/168] fix: manhattan_mst builds the tree when assertions
 are disabled

---
 library/graph/manhattan_mst.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/graph/manhattan_mst.hpp b/library/graph/manhattan_mst.hpp
index 8897b07..8c2f9bd 100644
--- a/library/graph/manhattan_mst.hpp
+++ b/library/graph/manhattan_mst.hpp
@@ -69,7 +69,9 @@ namespace suisen {
             }
             for (auto& [_, y] : points) y = -y;
         }
-        assert(mst.build());
+        const bool connected = mst.build();
+        assert(connected);
+        (void) connected;
         return mst;
     }
 } // namespace suisen
-- 
2.43.0


From 26a30736105e8e170763ed82e0eb6778d6dac660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:55 +0000
Subject: [PATCH 071/168] fix: manhattan_minimum_distances reports distance 0
 for every copy of a repeated point

---
 library/graph/manhattan_minimum_distances.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 82fae05..8b4c732 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -37,6 +37,8 @@ namespace suisen {
                     return yi - xi == yj - xj ? xi < xj : yi - xi < yj - xj;
                 }
             );
+            // equal points are adjacent
+            for (int k = 1; k < n; ++k) if (points[p[k - 1]] == points[p[k]]) res[p[k - 1]] = res[p[k]] = 0;
 
             std::vector<T> comp_x(n);
             for (int i = 0; i < n; ++i) comp_x[i] = points[i].first;
-- 
2.43.0


From 49bbb0d3e8d7c385e353eabed5de7e06e9c09339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 072/168] fix: DynamicRollingHash::set compiles

---
 library/string/dynamic_rolling_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index 3fed14b..b98c6ef 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -126,7 +126,7 @@ namespace suisen {
 
         template <typename T>
         void set(size_t k, const T& val) {
-            _seq = node::update_value(_seq, k, val);
+            _seq = node::set(_seq, k, val);
         }
         template <typename T>
         void insert(size_t k, const T& val) {
-- 
2.43.0


From f6255fcd7b817c58ba98c3b2e01c2bbb9d5181af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 073/168] fix: AhoCorasick can be rebuilt after more patterns
 are added

---
 library/string/aho_corasick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index bdf23cf..b5c251e 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -28,8 +28,8 @@ namespace suisen {
         void build() {
             _built = true;
             const int n = _next.size();
-            _failure.resize(n, 0);
-            _count.resize(n, 0);
+            _failure.assign(n, 0);
+            _count.assign(n, 0);
             for (int mark : _marks) ++_count[mark];
             std::deque<int> dq{ 0 };
             while (dq.size()) {
-- 
2.43.0


From 2c445f10789e7d05ec59dad154d132d7369f8b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 074/168] fix: AhoCorasick counts the empty pattern in states
 of depth one

---
 library/string/aho_corasick.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index b5c251e..102073e 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -36,10 +36,8 @@ namespace suisen {
                 const int cur = dq.front();
                 dq.pop_front();
                 for (const auto& [c, nxt] : _next[cur]) {
-                    if (cur) {
-                        _failure[nxt] = next_state(_failure[cur], c);
-                        _count[nxt] += _count[_failure[nxt]];
-                    }
+                    if (cur) _failure[nxt] = next_state(_failure[cur], c);
+                    _count[nxt] += _count[_failure[nxt]];
                     dq.push_back(nxt);
                 }
             }
-- 
2.43.0


From d67bbd8d9d8e3c03362653d30f059c69e63f3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 075/168] fix: MatcherMP does not read past the pattern after a
 match

---
 library/string/morris_pratt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..56e2da0 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -53,7 +53,7 @@ namespace suisen {
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) res.push_back(i - n + 1), j = mp[j];
                 }
                 return res;
             }
-- 
2.43.0


From 2d4c3e36b45fa0edfbbb56fe62ff9753384ee16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 076/168] fix: SubstringSet can be rebuilt for another sequence

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..8b3456a 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -26,7 +26,7 @@ class SubstringSet {
         // build set of all substrings in `s`
         void build(const value_type &s) {
             sa = SuffixAutomaton(s);
-            dp.resize(sa.nodes.size(), size_type(1));
+            dp.assign(sa.nodes.size(), size_type(1));
             for (const int u : sa.topological_order(/* reversed = */true)) {
                 for (const auto &p : sa.nodes[u].nxt) dp[u] += dp[p.second];
             }
-- 
2.43.0


From 66b0bd981314fb64aac04ec799d54fe1bcaf08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 077/168] fix: SubstringSet iterators can be dereferenced

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 8b3456a..3fb29d5 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -119,7 +119,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From 031f1aaff30f4501a92bb1e477144bfcc6406911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 078/168] fix: RollingHashField::set_bases discards powers of
 the previous bases

---
 library/string/rolling_hash_field.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index ffa6b04..07b2698 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -50,6 +50,7 @@ namespace suisen {
 
         static void set_bases(const std::array<T, base_num>& new_bases) {
             bases = new_bases;
+            for (auto& p : pows) p.clear();
             already_set_bases = true;
         }
 
-- 
2.43.0


From ab255291112c5423fd87d27eb26fd7976718d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 079/168] fix: PalindromicTree::clear also removes the children
 of the two roots

---
 library/string/palindromic_tree.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index ff459b1..192dad3 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -171,6 +171,7 @@ namespace suisen {
                     _nodes.clear();
                 } else {
                     _nodes.erase(_nodes.begin() + 2, _nodes.end());
+                    for (auto& node : _nodes) _clear_children(node);
                 }
             }
 
@@ -190,12 +191,18 @@ namespace suisen {
 
             node_pointer_type _new_node() {
                 node_pointer_type new_node = &_nodes.emplace_back();
-                if constexpr (not (is_map or is_vector)) {
-                    std::fill(new_node->_children.begin(), new_node->_children.end(), NODE_NULL);
-                }
+                _clear_children(*new_node);
                 return new_node;
             }
 
+            static void _clear_children(node_type& node) {
+                if constexpr (is_map or is_vector) {
+                    node._children.clear();
+                } else {
+                    std::fill(node._children.begin(), node._children.end(), NODE_NULL);
+                }
+            }
+
             node_pointer_type _find_next_longest_suffix_palindrome(node_pointer_type node) {
                 const int sz = _seq.size();
                 for (;; node = _get_node(node->_suffix_link)) {
-- 
2.43.0


From 0c947f0150ded43a7dc1f47d85e5194ab1099ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 080/168] fix: PalindromicTreeVec and PalindromicTreeArr keep
 node indices as int for every value type

---
 library/string/palindromic_tree.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index 192dad3..528000f 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -67,7 +67,7 @@ namespace suisen {
                     inserted = inserted_tmp;
                     _active_index = it->second;
                 } else if constexpr (is_vector) {
-                    if (value_type(ch.size()) <= val) ch.resize(val + 1, NODE_NULL);
+                    if (int(ch.size()) <= int(val)) ch.resize(val + 1, NODE_NULL);
                     if (ch[val] == NODE_NULL) {
                         inserted = true;
                         ch[val] = _nodes.size();
@@ -182,8 +182,8 @@ namespace suisen {
 
         private:
             static constexpr bool is_map = std::is_same_v<std::map<value_type, int>, children_container_type>;
-            static constexpr bool is_vector = std::is_same_v<std::vector<value_type>, children_container_type>;
-            static constexpr bool is_array = std::is_same_v<std::array<value_type, std::tuple_size_v<children_container_type>>, children_container_type>;
+            static constexpr bool is_vector = std::is_same_v<std::vector<int>, children_container_type>;
+            static constexpr bool is_array = std::is_same_v<std::array<int, std::tuple_size_v<children_container_type>>, children_container_type>;
 
             int _active_index;
             container_type _seq;
@@ -224,14 +224,14 @@ namespace suisen {
     };
 
     template <typename T, typename Sequence = std::vector<T>>
-    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>>;
+    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>>;
         using base_type::base_type;
     };
 
     template <typename T, std::size_t N, typename Sequence = std::vector<T>>
-    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>>;
+    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>>;
         using base_type::base_type;
     };
 } // namespace suisen
-- 
2.43.0


From 2f3e9f1673f02243bc6fc9b7d41e49f2db58f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:36 +0000
Subject: [PATCH 081/168] fix: morris_pratt.hpp compiles without using
 namespace std

---
 library/string/morris_pratt.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 56e2da0..6c9ebda 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_MORRIS_PRATT
 #define SUISEN_MORRIS_PRATT
 
+#include <iterator>
 #include <string>
 #include <vector>
 
@@ -48,7 +49,7 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
@@ -57,7 +58,7 @@ namespace suisen {
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 4c25fe9745d631354175996a55373afa8e7ee6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 082/168] fix: FactorizedForm names PrimePower<T>

---
 library/number/factorized_form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorized_form.hpp b/library/number/factorized_form.hpp
index 6ccf836..f339ab2 100644
--- a/library/number/factorized_form.hpp
+++ b/library/number/factorized_form.hpp
@@ -24,7 +24,7 @@ namespace suisen {
         }
     };
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
-    using FactorizedForm = std::vector<PrimePower>;
+    using FactorizedForm = std::vector<PrimePower<T>>;
 } // namespace suisen
 
 namespace std {
-- 
2.43.0


From 4c5962d24b775b821650488f99e49e8183cbaa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 083/168] fix: trial-division factorize neither overflows b * b
 nor truncates the divisor to int

---
 library/number/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index a51258d..f79c2d8 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -51,14 +51,14 @@ namespace suisen {
 
         assert(n > 0);
         std::vector<std::pair<T, int>> res;
-        auto f = [&res, &n](int p) {
+        auto f = [&res, &n](T p) {
             if (n % p) return;
             int cnt = 0;
             do n /= p, ++cnt; while (n % p == 0);
             res.emplace_back(p, cnt);
             };
         for (int p : primes) f(p);
-        for (T b = next_prime; b * b <= n; b += period) {
+        for (T b = next_prime; b <= n / b; b += period) {
             for (int offset : s) f(b + offset);
         }
         if (n != 1) res.emplace_back(n, 1);
-- 
2.43.0


From 0c8cac4022ce15b6964f7408ff72f123c5ab802c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:13 +0000
Subject: [PATCH 084/168] fix: Montgomery reduction does not overflow for
 moduli of half the word range and above

---
 library/number/montogomery.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 7aa7923..8176f4c 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -48,7 +48,8 @@ namespace suisen {
                 //  => (T + m * N) / R is an integer.
                 //  => t * R = T + m * N = T (mod N)
                 //  => t = T R^(-1) (mod N)
-                DInt t = divR(T + m * N);
+                // The low halves of T and m * N add up to 0 or R, so that nothing overflows even if 2RN > R^2.
+                DInt t = static_cast<DInt>(divR(T)) + divR(m * N) + (modR(T) != 0);
 
                 // Note:
                 //  1. 0 <= T < RN
-- 
2.43.0


From 21dfc82eab06c3f69ad33363b92b52a56514c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:13 +0000
Subject: [PATCH 085/168] fix: Montgomery add and sub are correct for every
 modulus

---
 library/number/montogomery.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 8176f4c..2e0a384 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -60,10 +60,10 @@ namespace suisen {
             }
 
             constexpr Int add(Int A, Int B) const {
-                return (A += B) >= N ? A - N : A;
+                return A >= N - B ? A - (N - B) : A + B;
             }
             constexpr Int sub(Int A, Int B) const {
-                return (A -= B) < 0 ? A + N : A;
+                return A < B ? A + (N - B) : A - B;
             }
             constexpr Int mul(Int A, Int B) const {
                 return reduce(static_cast<DInt>(A) * B);
-- 
2.43.0


From b6f01e1e80808fef0a3bfc136cf7adcd6c4687d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 086/168] fix: factorial_number: rank the permutation with
 count_lt (index_of does not exist)

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From 9c11b6e2127289179eeb9f591df1af610e6a91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 087/168] fix: stern_brocot_tree: move_down_left/right call
 move_down

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From 7441daaf3c252913611ce02b4162121e45aaa777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 088/168] fix: barrett: remainder may exceed 31 bits for M >=
 2^31

---
 library/number/barrett_reduction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/barrett_reduction.hpp b/library/number/barrett_reduction.hpp
index be8326d..d8f7de0 100644
--- a/library/number/barrett_reduction.hpp
+++ b/library/number/barrett_reduction.hpp
@@ -20,7 +20,7 @@ namespace suisen {
         template <bool care_M1 = true> constexpr std::pair<uint64_t, uint32_t> quorem(uint64_t x) const {
             if constexpr (care_M1) if (M == 1) return { x, 0 };
             uint64_t q = (__uint128_t(x) * L) >> 64;
-            int32_t r = x - q * M;
+            int64_t r = x - q * M;
             if (r < 0) --q, r += M;
             return { q, uint32_t(r) };
         }
-- 
2.43.0


From faf181b2f78a70bafbc09111d8427db505292ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 089/168] fix: bezout_equation: no division by zero when b = 0

---
 library/number/bezout_equation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 7e57bf2..24c021d 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -237,7 +237,7 @@ namespace suisen {
                     const long long cx = b / g, cy = -a / g;
                     z /= g;
                     __int128_t x0 = __int128_t(x) * z, y0 = __int128_t(y) * z;
-                    __int128_t k0 = -x0 / cx;
+                    __int128_t k0 = cx ? -x0 / cx : 0;
                     return BezoutEquationSolution::make_linear(x0 + k0 * cx, cx, y0 + k0 * cy, cy);
                 }
             }
-- 
2.43.0


From c51c9641a67247a6501636c911513335451efbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 090/168] fix: bezout_equation: a = b = 0 has infinitely many
 solutions unless both ranges are bounded

---
 library/number/bezout_equation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 24c021d..912494b 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -78,6 +78,7 @@ namespace suisen {
             if (t == SolutionType::None) {
                 return 0;
             } else if (t == SolutionType::Arbitrary) {
+                if (kxmin == neginf or kxmax == posinf or kymin == neginf or kymax == posinf) return std::nullopt;
                 return T(kxmax - kxmin + 1) * T(kymax - kymin + 1);
             } else {
                 auto k_range = get_k_range();
-- 
2.43.0


From 92d02e11282c2f86c078bb5b608b210d6b8c15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 091/168] fix: bezout_equation: include what is used

---
 library/number/bezout_equation.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 912494b..a8b1416 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -1,6 +1,13 @@
 #ifndef SUISEN_BEZOUT_EQUATION
 #define SUISEN_BEZOUT_EQUATION
 
+#include <algorithm>
+#include <cassert>
+#include <limits>
+#include <optional>
+#include <tuple>
+#include <utility>
+
 #include "library/number/ext_gcd.hpp"
 
 namespace suisen {
-- 
2.43.0


From 2d51179ec03a56014620d87232ac9e0179c96222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 092/168] fix: discrete_logarithm: floor_log2 overflows for m
 >= 2^30

---
 library/number/discrete_logarithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/discrete_logarithm.hpp b/library/number/discrete_logarithm.hpp
index 3fed267..83be154 100644
--- a/library/number/discrete_logarithm.hpp
+++ b/library/number/discrete_logarithm.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     namespace internal::discrete_logarithm {
         int floor_log2(int m) {
             int res = 0;
-            while (1 << (res + 1) <= m) ++res;
+            while (1LL << (res + 1) <= m) ++res;
             return res;
         }
     }
-- 
2.43.0


From b8fd3ef85272da5767d208d04f5ad795a1e97c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 093/168] fix: fast_discrete_logarithm: floor_log2 overflows
 for m >= 2^30

---
 library/number/fast_discrete_logarithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/fast_discrete_logarithm.hpp b/library/number/fast_discrete_logarithm.hpp
index 362edaa..bd7e2b2 100644
--- a/library/number/fast_discrete_logarithm.hpp
+++ b/library/number/fast_discrete_logarithm.hpp
@@ -355,7 +355,7 @@ namespace suisen::fast_discrete_logarithm {
 
             const int floor_log2_m = [m] {
                 int res = 0;
-                while (1 << (res + 1) <= m) ++res;
+                while (1LL << (res + 1) <= m) ++res;
                 return res;
             }();
 
-- 
2.43.0


From 1aec11980e9f280d8c24763325c0cc618bb96455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 094/168] fix: rational: comparison of continued fractions
 alternates its direction

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 8bedaea..6d68a08 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -41,14 +41,14 @@ struct Rational {
         if ((sgn_l ^ sgn_r) < 0) return sgn_l;
         T nl = std::abs(l.num), dl = l.den, nr = std::abs(r.num), dr = r.den;
         bool rev = sgn_l < 0;
-        for (; dl and dr; rev = -rev) {
+        for (; dl and dr; rev = not rev) {
             T ql = nl / dl, qr = nr / dr;
             if (ql != qr) return pow_m1((ql < qr) xor rev);
             T rl = nl % dl, rr = nr % dr;
             nl = dl, dl = rl;
             nr = dr, dr = rr;
         }
-        return dl or dr ? pow_m1((dr > 0) xor rev) : 0;
+        return dl or dr ? pow_m1((dl > 0) xor rev) : 0;
     }
     
     friend bool operator<(const Rational &l, const Rational &r) {
-- 
2.43.0


From 9d7da55c83897bbd681a60145620504da9a5f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 095/168] fix: rational: floor rounds down and ceil rounds up

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6d68a08..6625501 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -129,10 +129,10 @@ struct Rational {
     }
 
     T floor() const {
-        return num >= 0 ? num / den : -(-num / den);
+        return num / den - (num % den < 0);
     }
     T ceil() const {
-        return num >= 0 ? -(-num / den) : num / den;
+        return num / den + (num % den > 0);
     }
 
     static std::pair<Rational, Rational> approximate(long double target, T max_numerator, T max_denominator) {
-- 
2.43.0


From a098992218dd16aa92fe2e8ba174ca68d9acf3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 096/168] fix: rational: include cassert

---
 library/number/rational.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6625501..16bfe97 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL
 #define SUISEN_RATIONAL
 
+#include <cassert>
 #include <cmath>
 #include <ostream>
 #include <numeric>
-- 
2.43.0


From c9c680bdc5ec13505e9ea8cf20749e525e3d015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 097/168] fix: order_Z_mZ: a prime power is not a prime

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 35a5348..d985b92 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -50,7 +50,7 @@ namespace suisen {
         OrderMod() = default;
         OrderMod(T m) : _mod(m) {
             auto factorized = fast_factorize::factorize<T>(_mod);
-            _is_prime = factorized.size() == 1;
+            _is_prime = factorized.size() == 1 and factorized.front().second == 1;
             _lambda = _carmichael(factorized);
             _phi = _totient(factorized);
             for (auto [p, q] : fast_factorize::factorize<T>(_lambda)) {
-- 
2.43.0


From 9c586c462988d8db562dfa39f4f88e178d436620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 098/168] fix: order_Z_mZ: a primitive root is coprime to the
 modulus

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index d985b92..4312622 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -152,7 +152,7 @@ namespace suisen {
 
         template <typename mint>
         bool _is_primitive_root_impl(U a) const {
-            if (_lambda != _phi) return false;
+            if (_lambda != _phi or std::gcd(a, _mod) != 1) return false;
             if (_mod == 2) return a % 2 == 1;
 
             const int k = _fac_lambda.size();
-- 
2.43.0


From 5eb086ffd992e3a6994a88ac214fdd0786194f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 099/168] fix: order_Z_mZ: moduli in [2^31, 2^32) do not fit
 the 32-bit modint

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 4312622..8b711e3 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         }
 
         bool is_primitive_root(U a) const {
-            if (_mod < 1ULL << 32) {
+            if (_mod < 1ULL << 31) {
                 using mint = atcoder::dynamic_modint<1000000000>;
                 U old_mod = mint::mod();
                 mint::set_mod(_mod);
-- 
2.43.0


From 3ee118833e9b620d58ef5efd03773d9b72b778f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 100/168] fix: mod_sqrt: use 64-bit shifts for a 64-bit modulus

---
 library/number/mod_sqrt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 743bc5f..4033c0b 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -42,7 +42,7 @@ namespace suisen {
             ++b;
         }
 
-        int tlz = __builtin_ctz(p - 1);
+        int tlz = __builtin_ctzll(p - 1);
         long long q = (p - 1) >> tlz;
 
         long long ia = inv_mod64(a, p);
@@ -55,7 +55,7 @@ namespace suisen {
                 return x;
             }
             long long e = mul_mod64(ia, x2, p);
-            if (pow_mod64(e, 1 << (tlz - shift), p) != 1) {
+            if (pow_mod64(e, 1LL << (tlz - shift), p) != 1) {
                 x = mul_mod64(x, b, p);
             }
             b = mul_mod64(b, b, p);
-- 
2.43.0


From 2e1fae3feb10995726f9d90e50ef3e6964ea8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 101/168] fix: mod_sqrt: composite_mod_sqrt of a negative
 number

---
 library/number/mod_sqrt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 4033c0b..1c60f7f 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -69,7 +69,8 @@ namespace suisen {
             for (int i = 1; i <= q; ++i) {
                 pq[i] = pq[i - 1] * p;
             }
-            if ((a %= pq[q]) == 0) return 0;
+            if ((a %= pq[q]) < 0) a += pq[q];
+            if (a == 0) return 0;
 
             int b = 0;
             for (; a % p == 0; a /= p) {
-- 
2.43.0


From 191373275862c0e148149fff1381ca704a92697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 102/168] fix: min_of_mod_of_linear: b + (m - 1 - k) overflows
 int

---
 library/number/min_of_mod_of_linear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/min_of_mod_of_linear.hpp b/library/number/min_of_mod_of_linear.hpp
index 8e83a49..61fd326 100644
--- a/library/number/min_of_mod_of_linear.hpp
+++ b/library/number/min_of_mod_of_linear.hpp
@@ -26,7 +26,7 @@ namespace suisen {
         int l = -1, r = m - 1;
         while (r - l > 1) {
             int k = (l + r) >> 1;
-            if (atcoder::floor_sum(n, m, a, b + (m - 1 - k)) < v) {
+            if (atcoder::floor_sum(n, m, a, (long long) b + (m - 1 - k)) < v) {
                 r = k;
             } else {
                 l = k;
-- 
2.43.0


From c4d5dd21c25aed5d9f567ce02beedc0f4d4502e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 103/168] fix: modint_extension: safe_sqrt follows the current
 modulus of a dynamic modint

---
 library/math/modint_extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/modint_extension.hpp b/library/math/modint_extension.hpp
index 3efc099..c9a550e 100644
--- a/library/math/modint_extension.hpp
+++ b/library/math/modint_extension.hpp
@@ -10,13 +10,13 @@
  */
 template <typename mint>
 std::optional<mint> safe_sqrt(mint a) {
-    static int p = mint::mod();
+    const int p = mint::mod();
     if (a == 0) return std::make_optional(0);
     if (p == 2) return std::make_optional(a);
     if (a.pow((p - 1) / 2) != 1) return std::nullopt;
     mint b = 1;
     while (b.pow((p - 1) / 2) == 1) ++b;
-    static int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
+    const int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
     mint x = a.pow((q + 1) / 2);
     b = b.pow(q);
     for (int shift = 2; x * x != a; ++shift) {
-- 
2.43.0


From 3e050dd3ff99b7942a13b58c011006c476059c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 104/168] fix: inv_mods: operator[] returned a reference into a
 vector that later calls reallocate

---
 library/math/inv_mods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/inv_mods.hpp b/library/math/inv_mods.hpp
index e268f25..593488d 100644
--- a/library/math/inv_mods.hpp
+++ b/library/math/inv_mods.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     public:
         inv_mods() = default;
         inv_mods(int n) { ensure(n); }
-        const mint& operator[](int i) const {
+        mint operator[](int i) const {
             ensure(i);
             return invs[i];
         }
-- 
2.43.0


From 28fe96a4c852e65158c242efb5126fcfd448a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:20 +0000
Subject: [PATCH 105/168] fix: pow_mods: operator[] returned a reference into a
 vector that later calls reallocate

---
 library/math/pow_mods.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/pow_mods.hpp b/library/math/pow_mods.hpp
index 3e954f5..715da96 100644
--- a/library/math/pow_mods.hpp
+++ b/library/math/pow_mods.hpp
@@ -8,7 +8,7 @@ namespace suisen {
     struct static_pow_mods {
         static_pow_mods() = default;
         static_pow_mods(int n) { ensure(n); }
-        const mint& operator[](int i) const {
+        mint operator[](int i) const {
             ensure(i);
             return pows[i];
         }
@@ -28,7 +28,7 @@ namespace suisen {
     struct pow_mods {
         pow_mods() = default;
         pow_mods(mint base, int n) : base(base) { ensure(n); }
-        const mint& operator[](int i) const {
+        mint operator[](int i) const {
             ensure(i);
             return pows[i];
         }
-- 
2.43.0


From 0cfd96b1839588718de24e8555947153e5d6284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:59 +0000
Subject: [PATCH 106/168] fix: min_of_mod_of_linear: the midpoint overflows int
 for m > 2^30

---
 library/number/min_of_mod_of_linear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/min_of_mod_of_linear.hpp b/library/number/min_of_mod_of_linear.hpp
index 61fd326..c0862be 100644
--- a/library/number/min_of_mod_of_linear.hpp
+++ b/library/number/min_of_mod_of_linear.hpp
@@ -25,7 +25,7 @@ namespace suisen {
 
         int l = -1, r = m - 1;
         while (r - l > 1) {
-            int k = (l + r) >> 1;
+            int k = l + ((r - l) >> 1);
             if (atcoder::floor_sum(n, m, a, (long long) b + (m - 1 - k)) < v) {
                 r = k;
             } else {
-- 
2.43.0


From f9f1c3b6176de56a137965458095fd2c09fbe089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 107/168] fix: ArrayMatrix: operator/= and scalar / matrix did
 not compile (inv() returns a matrix, not an optional, and a temporary)

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..f07e37a 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return val * A.inv(); }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From 77348ef49f115ccdca5b9c9886e3e3e9e231a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 108/168] fix: MatrixF2::rank: reads past the last row once the
 rank equals the number of rows

---
 library/linear_algebra/matrix_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/matrix_f2.hpp b/library/linear_algebra/matrix_f2.hpp
index 1c568de..1069f1d 100644
--- a/library/linear_algebra/matrix_f2.hpp
+++ b/library/linear_algebra/matrix_f2.hpp
@@ -119,7 +119,7 @@ namespace suisen {
         std::size_t rank() const {
             MatrixF2 A = *this;
             std::size_t r = 0;
-            for (std::size_t j = 0; j < m; ++j) {
+            for (std::size_t j = 0; r < n and j < m; ++j) {
                 for (std::size_t i = r + 1; i < n; ++i) if (A[i][j]) {
                     std::swap(A[r], A[i]);
                     if (A[i][j]) A[i] ^= A[r];
-- 
2.43.0


From 942b6cf0b5bad460c6575a1e6e8f4a4bdeb100fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 109/168] fix: gaussian_elimination_f2: columns after the rank
 reaches the number of rows are free as well

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 5ca8287..736b6a6 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -65,7 +65,11 @@ namespace suisen {
 
         std::vector<std::size_t> ones, zeros;
         std::size_t rank = 0;
-        for (std::size_t j = 0; rank < n and j < m; ++j) {
+        for (std::size_t j = 0; j < m; ++j) {
+            if (rank == n) {
+                zeros.push_back(j);
+                continue;
+            }
             for (std::size_t i = rank + 1; i < n; ++i) if (A[i][j]) {
                 std::swap(A[rank], A[i]);
                 if (A[i][j]) A[i] ^= A[rank];
-- 
2.43.0


From 6af18e6cbef048a67c7c41e117fdac8878141052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 110/168] fix: SolutionSpace: normalized() and operator&
 aborted on their own assertion

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 736b6a6..e1353e9 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -15,8 +15,8 @@ namespace suisen {
 
         SolutionSpace normalized() {
             SolutionSpace res{ _solution };
-            res += *this;
             res._normalized = true;
+            res += *this;
             return res;
         }
         void normalize() {
@@ -44,6 +44,7 @@ namespace suisen {
             std::vector<std::pair<DynamicBitSet, DynamicBitSet>> basis;
             for (const DynamicBitSet& e : s._basis) basis.emplace_back(e, e);
             SolutionSpace res;
+            res._normalized = true;
             for (DynamicBitSet e : t._basis) {
                 DynamicBitSet s(e.size());
                 for (const auto& [v, t] : basis) if (DynamicBitSet w = e ^ v; w < e) e = std::move(w), s ^= t;
-- 
2.43.0


From 242c69b97c2b29faf259c51d60b28cfe5a949550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 111/168] fix: hafnian: the empty matrix has hafnian 1

---
 library/linear_algebra/hafnian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/linear_algebra/hafnian.hpp b/library/linear_algebra/hafnian.hpp
index bed08dc..cb36f3c 100644
--- a/library/linear_algebra/hafnian.hpp
+++ b/library/linear_algebra/hafnian.hpp
@@ -8,6 +8,7 @@ namespace suisen {
     T hafnian(const std::vector<std::vector<U>>& mat) {
         const int n = mat.size();
         assert(n % 2 == 0);
+        if (n == 0) return T(1);
 
         using ZetaSPS = typename SetPowerSeries<T>::ZetaSPS;
 
-- 
2.43.0


From cd6fbdd6db4a0ca534670de7f9cbf4f5d7fc001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:47 +0000
Subject: [PATCH 112/168] fix: XorBase::intersection: the accumulator starts at
 zero for non-integral element types as well

---
 library/linear_algebra/xor_base.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/linear_algebra/xor_base.hpp b/library/linear_algebra/xor_base.hpp
index 88085b8..c74aa35 100644
--- a/library/linear_algebra/xor_base.hpp
+++ b/library/linear_algebra/xor_base.hpp
@@ -37,8 +37,7 @@ namespace suisen {
             for (const T &e : _basis) basis.emplace_back(e, e);
             XorBase<T> res;
             for (T e : rhs._basis) {
-                T s;
-                if constexpr (std::is_integral_v<T>) s = 0;
+                T s = e ^ e;
                 for (const auto &[v, t] : basis) if (T w = e ^ v; w < e) e = std::move(w), s ^= t;
                 if (e) basis.emplace_back(e, s);
                 else res.add(s);
-- 
2.43.0


From a6786b02efa24a46235eafca117641b662ced7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 113/168] fix: chirp_z_transform: the small case multiplied by
 a^i twice

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index a95a3ec..0856892 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -45,7 +45,7 @@ namespace suisen {
             for (int k = 1; k < m; ++k) g[k] += f[0];
             return g;
         }
-        if (n < 60) return internal::chirp_z_transform_naive(f, a, r, m);
+        if (n < 60) return internal::chirp_z_transform_naive(f, T(1), r, m);
         const T r_inv = r.inv();
 
         const int l = n + m - 1;
-- 
2.43.0


From 51546bcea5717e9d98b32bb665deb5602421cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 114/168] fix: chirp_z_transform: the default convolution could
 not be deduced

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index 0856892..fe98d11 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -33,7 +33,7 @@ namespace suisen {
     /**
      * @brief Calculates f(ar^k) for k=0,...,m-1 in O(M(n+m-1)+n+m) time
      */
-    template <typename T, typename Convolution>
+    template <typename T, typename Convolution = decltype((internal::default_convolution))>
     std::vector<T> chirp_z_transform(std::vector<T> f, T a, T r, int m, Convolution&& convolution = internal::default_convolution) {
         const int n = f.size();
         std::vector<T> g(m);
-- 
2.43.0


From ff3edaee97a498264baa6ab47d01b20dd5925e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 115/168] fix: compose: an inner series longer than n wrapped
 around cyclically

---
 library/polynomial/compose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/compose.hpp b/library/polynomial/compose.hpp
index 9328da2..6171351 100644
--- a/library/polynomial/compose.hpp
+++ b/library/polynomial/compose.hpp
@@ -50,7 +50,7 @@ namespace suisen {
         const mint iz = mint(z).inv();
 
         g.erase(g.begin());
-        g.resize(z);
+        g.resize(n), g.resize(z);
         atcoder::internal::butterfly(g);
 
         auto mult_g = [&](std::vector<mint> a) {
-- 
2.43.0


From f6d60962b81349874563bad3e7883958fd4ba5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 116/168] fix: fps_naive: safe_sqrt with at least 2n leading
 zeros allocated a negative size

---
 library/polynomial/fps_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index bf85b6b..ab2e8e5 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -232,6 +232,7 @@ namespace suisen {
             while (dl < size() and unsafe_get(dl) == value_type{ 0 }) ++dl;
             if (dl == size()) return FPSNaive(n, 0);
             if (dl & 1) return std::nullopt;
+            if (dl / 2 >= n) return FPSNaive(n, 0);
 
             const int m = n - dl / 2;
 
-- 
2.43.0


From 9ffc22f67ef6505667b4532a000b7f998d374a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 117/168] fix: fps: safe_sqrt cut off coefficients that the
 result depends on

---
 library/polynomial/fps.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..a8b58d8 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -258,12 +258,13 @@ namespace suisen {
         }
         std::optional<FPS> safe_sqrt(int n = -1) const {
             if (n < 0) n = size();
-            if (n < 60) return FPSNaive<mint>(cut_copy(n)).safe_sqrt(n);
+            if (n < 60) return FPSNaive<mint>(*this).safe_sqrt(n);
             if (auto sp_f = sparse_fps_format(15); sp_f.has_value()) return safe_sqrt_sparse(std::move(*sp_f), n);
             int tlz = 0;
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FPS(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FPS(n, 0);
             const int m = n - tlz / 2;
 
             FPS h(this->begin() + tlz, this->end());
-- 
2.43.0


From 20910e1d5a4b7e0fd964c19ce9864bbea2621a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 118/168] fix: formal_power_series: safe_sqrt cut off
 coefficients that the result depends on

---
 library/polynomial/formal_power_series.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index b829524..b35f51e 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -319,12 +319,13 @@ namespace suisen {
 
         std::optional<FormalPowerSeries> safe_sqrt(int n = -1) const {
             if (n < 0) n = size();
-            if (n < 60) return FPSNaive<mint>(cut_copy(n)).safe_sqrt();
+            if (n < 60) return FPSNaive<mint>(*this).safe_sqrt(n);
             if (auto sp_f = sparse_fps_format(15); sp_f.has_value()) return safe_sqrt_sparse(std::move(*sp_f), n);
             int tlz = 0;
             while (tlz < size() and (*this)[tlz] == 0) ++tlz;
             if (tlz == size()) return FormalPowerSeries(n, 0);
             if (tlz & 1) return std::nullopt;
+            if (tlz / 2 >= n) return FormalPowerSeries(n, 0);
             const int m = n - tlz / 2;
 
             FormalPowerSeries h(this->begin() + tlz, this->end());
-- 
2.43.0


From b9087a049fd022b60a1823a1ec26adc0fea611aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 119/168] fix: array_fps_naive: sqrt of a series with leading
 zeros read past the array

---
 library/polynomial/array_fps_naive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/array_fps_naive.hpp b/library/polynomial/array_fps_naive.hpp
index cfd34e4..92b9c3e 100644
--- a/library/polynomial/array_fps_naive.hpp
+++ b/library/polynomial/array_fps_naive.hpp
@@ -183,7 +183,7 @@ namespace suisen {
             g[bg] = ::sqrt((*this)[bf]);
             value_type inv_2g0 = ::inv(2 * g[bg]);
             for (int i = 1; i <= d; ++i) {
-                g[bg + i] = (*this)[bf + i];
+                if (bf + i <= DEG) g[bg + i] = (*this)[bf + i];
                 for (int j = 1; j < i; ++j) g[bg + i] -= g[bg + j] * g[bg + i - j];
                 g[bg + i] *= inv_2g0;
             }
-- 
2.43.0


From 54cde7d35fb028040c52130f8dcf3bd174f24b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 120/168] fix: fps: derivative of the empty polynomial, product
 of no polynomials

---
 library/polynomial/fps.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index a8b58d8..c238bd4 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -179,6 +179,7 @@ namespace suisen {
         /* Other Operations */
 
         FPS& diff_inplace() {
+            if (this->empty()) return *this;
             const int n = size();
             for (int i = 1; i < n; ++i) (*this)[i - 1] = (*this)[i] * i;
             return (*this)[n - 1] = 0, *this;
@@ -293,6 +294,7 @@ namespace suisen {
         }
 
         static FPS prod(const std::vector<FPS>& fs) {
+            if (fs.empty()) return { 1 };
             auto comp = [](const FPS& f, const FPS& g) { return f.size() > g.size(); };
             std::priority_queue<FPS, std::vector<FPS>, decltype(comp)> pq{ comp };
             for (const auto& f : fs) pq.push(f);
-- 
2.43.0


From 40339383f490139755522ed633d6294a86c64b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 121/168] fix: relaxed_convolution: initialise the size,
 include cassert

---
 library/convolution/relaxed_convolution.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 6aa4581..8365e9e 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RELAXED_CONVOLUTION
 #define SUISEN_RELAXED_CONVOLUTION
 
+#include <cassert>
 #include <vector>
 
 namespace suisen {
@@ -40,7 +41,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
-- 
2.43.0


From 2428b121b912abf3acd287784e7385d7c7c6ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 122/168] fix: semi_relaxed_convolution: initialise the size,
 include cassert and algorithm, empty fixed operand

---
 library/convolution/semi_relaxed_convolution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 815dfe2..94b9631 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SEMI_RELAXED_CONVOLUTION
 #define SUISEN_SEMI_RELAXED_CONVOLUTION
 
+#include <algorithm>
+#include <cassert>
 #include <vector>
 
 namespace suisen {
@@ -22,6 +24,7 @@ namespace suisen {
         value_type append(const value_type &gi) {
             ++_n;
             _g.push_back(gi);
+            if (int(_h.size()) < _n) _h.resize(_n);
             for (int p = 1;; p <<= 1) {
                 int l1 = p - 1, r1 = l1 + p, l2 = _n - p, r2 = _n;
                 add(l1 + l2, range_convolve(l1, r1, l2, r2));
@@ -39,7 +42,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
-- 
2.43.0


From 500b73cec6dee0fa7da81e174507f0b12050cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 123/168] fix: semi_relaxed_convolution_ntt: initialise the
 size

---
 library/convolution/semi_relaxed_convolution_ntt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/convolution/semi_relaxed_convolution_ntt.hpp b/library/convolution/semi_relaxed_convolution_ntt.hpp
index 15f832a..5da0e29 100644
--- a/library/convolution/semi_relaxed_convolution_ntt.hpp
+++ b/library/convolution/semi_relaxed_convolution_ntt.hpp
@@ -56,7 +56,7 @@ namespace suisen {
         }
 
     private:
-        int _n;
+        int _n = 0;
         std::vector<mint> _f, _g, _h;
 
         std::vector<std::vector<mint>> _f_fft;
-- 
2.43.0


From e063b7fb5cd4d2df2f4a1a32b3ca670be48f3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 124/168] fix: polynomial_gcd: polynomial_inv and
 polynomial_gcd did not compile

---
 library/polynomial/polynomial_gcd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index 857b1d3..bb0d3f1 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -87,15 +87,15 @@ namespace suisen {
     }
     // @return x s.t. ax=1 (mod m)
     template <typename Polynomial>
-    std::pair<Polynomial, Polynomial> polynomial_inv(const Polynomial &a, const Polynomial &m) {
+    Polynomial polynomial_inv(const Polynomial &a, const Polynomial &m) {
         auto [x, _, g] = polynomial_ext_gcd(a, m);
         assert(g == Polynomial{1});
         return x;
     }
     // @return gcd(a,b) (monic)
     template <typename Polynomial>
-    std::tuple<Polynomial, Polynomial, Polynomial> polynomial_gcd(const Polynomial &a, const Polynomial &b) {
-        return std::get<2>(ext_gcd(a, b));
+    Polynomial polynomial_gcd(const Polynomial &a, const Polynomial &b) {
+        return std::get<2>(polynomial_ext_gcd(a, b));
     }
 } // namespace suisen
 
-- 
2.43.0


From 486f4578f89cde5b26abea6f92b947d2d06cf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 125/168] fix: polynomial_interpolation: no points

---
 library/polynomial/polynomial_interpolation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/polynomial_interpolation.hpp b/library/polynomial/polynomial_interpolation.hpp
index 492d97f..890b7ce 100644
--- a/library/polynomial/polynomial_interpolation.hpp
+++ b/library/polynomial/polynomial_interpolation.hpp
@@ -9,6 +9,7 @@ namespace suisen {
     FPSType polynomial_interpolation(const std::vector<T>& xs, const std::vector<T>& ys) {
         assert(xs.size() == ys.size());
         int n = xs.size();
+        if (n == 0) return {};
         std::vector<FPSType> seg(2 * n), g(2 * n);
         for (int i = 0; i < n; ++i) seg[n + i] = FPSType{ -xs[i], 1 };
         for (int i = n - 1; i > 0; --i) {
-- 
2.43.0


From 0265dd7e2ed4b5ab4b036cbd7e8126aed46f643a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 126/168] fix: lagrange_interpolation: no points

---
 library/polynomial/lagrange_interpolation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/polynomial/lagrange_interpolation.hpp b/library/polynomial/lagrange_interpolation.hpp
index cb0eff8..ea3c747 100644
--- a/library/polynomial/lagrange_interpolation.hpp
+++ b/library/polynomial/lagrange_interpolation.hpp
@@ -28,6 +28,7 @@ namespace suisen {
         const int n = xs.size();
         assert(int(ys.size()) == n);
 
+        if (n == 0) return 0;
         std::vector<FPSType> seg(2 * n);
         for (int i = 0; i < n; ++i) seg[n + i] = FPSType {-xs[i], 1};
         for (int i = n - 1; i > 0; --i) seg[i] = seg[i * 2] * seg[i * 2 + 1];
@@ -51,6 +52,7 @@ namespace suisen {
     template <typename T>
     T lagrange_interpolation_arithmetic_progression(T a, T b, const std::vector<T>& ys, const T t) {
         const int n = ys.size();
+        if (n == 0) return 0;
         T fac = 1;
         for (int i = 1; i < n; ++i) fac *= i;
         std::vector<T> fac_inv(n), suf(n);
-- 
2.43.0


From 8ac69d83c17679b59a37acadd82097369f5b8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 127/168] fix: rational_fps: sum of no terms

---
 library/polynomial/rational_fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index 20be22f..dae09a2 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -73,6 +73,7 @@ namespace suisen {
         }
 
         static RationalFPS<FPSType> sum(const std::vector<RationalFPS<FPSType>>& fs) {
+            if (fs.empty()) return {};
             auto comp = [](const RationalFPS<FPSType>& f, const RationalFPS<FPSType>& g) {
                 return f.den.size() > g.den.size();
             };
-- 
2.43.0


From 5edb196740443d0aab86ebf08c152e430e717159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 128/168] fix: vec_sparse_fps: addition dropped the terms after
 the shorter operand ended

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..a453619 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -43,7 +43,7 @@ namespace suisen {
         friend VecSparseFPS operator+(const VecSparseFPS &f, const VecSparseFPS &g) {
             const int n = f._f.size(), m = g._f.size();
             VecSparseFPS h;
-            for (int i = 0, j = 0; i < n and j < m;) {
+            for (int i = 0, j = 0; i < n or j < m;) {
                 if (j == m or (i < n and f._f[i].first < g._f[j].first)) {
                     h.add_to_last(f._f[i++]);
                 } else {
-- 
2.43.0


From d5c212b0b1b363008953f9dac330634b4b97a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 129/168] fix: vec_sparse_fps: negation, product and
 bostan_mori did not compile

---
 library/polynomial/vec_sparse_fps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index a453619..5443121 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
@@ -63,7 +63,7 @@ namespace suisen {
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
             for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+                h.add_to_last({ i, std::move(a) });
             }
             return h;
         }
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
-- 
2.43.0


From c422b729095767519bfab2e61d755a69e1c906b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:56 +0000
Subject: [PATCH 130/168] fix: polynomial_eval_multipoint_eval: include fps

---
 library/convolution/polynomial_eval_multipoint_eval.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/polynomial_eval_multipoint_eval.hpp b/library/convolution/polynomial_eval_multipoint_eval.hpp
index 45d9e8b..903b180 100644
--- a/library/convolution/polynomial_eval_multipoint_eval.hpp
+++ b/library/convolution/polynomial_eval_multipoint_eval.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 #define SUISEN_APPLY_POLYNOMIAL_MULTIPOINT_EVAL
 
+#include "library/polynomial/fps.hpp"
 #include "library/polynomial/multi_point_eval.hpp"
 #include "library/type_traits/type_traits.hpp"
 
-- 
2.43.0


From cf288e85014ae14e08cf70bce708f75c81db8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 131/168] fix: HornSAT fires implications on variables set to
 false

---
 library/algorithm/horn_sat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/algorithm/horn_sat.hpp b/library/algorithm/horn_sat.hpp
index 7744be5..8919813 100644
--- a/library/algorithm/horn_sat.hpp
+++ b/library/algorithm/horn_sat.hpp
@@ -40,7 +40,7 @@ class HornSAT {
                 if (not seen[i]) {
                     ans[i] = val;
                     seen[i] = true;
-                    for (const int j : ls[i]) {
+                    if (val) for (const int j : ls[i]) {
                         if (--c[j] == 0) dq.push_back(r[j]);
                     }
                 } else if (val != ans[i]) return has_answer = false;
-- 
2.43.0


From e9332890552d716c1aa267f2a6acfc7fa65e5d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 132/168] fix: PermutationTree of the empty permutation reads
 past the end

---
 library/datastructure/permutation_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 9209a59..c592de5 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -164,6 +164,7 @@ namespace suisen {
 
         static PermutationTree build(const std::vector<int>& p) {
             const int n = p.size();
+            if (n == 0) return PermutationTree();
             std::vector<std::vector<int>> sel_l = left_strong_intervals(p);
             std::vector<std::vector<int>> sel_r = right_strong_intervals(p);
 
-- 
2.43.0


From 65d2518f45af67ff785894d66267f4d271740899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 133/168] fix: RMQpm1 of an empty array reads past the end

---
 library/algorithm/rmq_pm1.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/algorithm/rmq_pm1.hpp b/library/algorithm/rmq_pm1.hpp
index d6ad85a..25d5a5c 100644
--- a/library/algorithm/rmq_pm1.hpp
+++ b/library/algorithm/rmq_pm1.hpp
@@ -68,6 +68,7 @@ namespace suisen {
 
         std::vector<int> build() {
             std::vector<int> c(m, e());
+            if (n == 0) return c;
             for (int i = 0, p = a[0] - 1; i < n; p = a[i++]) {
                 int outer = i >> LOG;
                 c[outer] = op(c[outer], a[i]);
-- 
2.43.0


From 4133648e62284b3df377049b1c7c4a178fe5441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 134/168] fix: StaticRangeInversionNumberQuery reads out of
 bounds for empty ranges

---
 library/range_query/static_range_inversion_number_query.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/range_query/static_range_inversion_number_query.hpp b/library/range_query/static_range_inversion_number_query.hpp
index 6b11528..87f231a 100644
--- a/library/range_query/static_range_inversion_number_query.hpp
+++ b/library/range_query/static_range_inversion_number_query.hpp
@@ -37,6 +37,7 @@ namespace suisen {
          * @return Inversion number of (a_l, ..., a_{r-1})
          */
         long long operator()(int l, int r) const {
+            if (l >= r) return 0;
             const int bl = l / _block_siz, br = ceil_div(r, _block_siz);
             // [bl][bl+1,...,br-2][br-1]
             if (br - bl == 1) {
-- 
2.43.0


From 862c0e6b91322300fd1f2c09d4962218c10a1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 135/168] fix: StaticRangeModeQuery divides by zero on an empty
 array

---
 library/range_query/static_range_mode_query.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/range_query/static_range_mode_query.hpp b/library/range_query/static_range_mode_query.hpp
index c7a0aa7..89342ca 100644
--- a/library/range_query/static_range_mode_query.hpp
+++ b/library/range_query/static_range_mode_query.hpp
@@ -10,7 +10,7 @@ namespace suisen {
     template <typename T>
     struct StaticRangeModeQuery {
         StaticRangeModeQuery() = default;
-        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(::sqrt(_len)), _block_num(_cld(_len, _block_size)) {
+        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(std::max(1, int(::sqrt(_len)))), _block_num(_cld(_len, _block_size)) {
             // Computing the mapping from compressed values to original values
             _sorted = a;
             std::sort(_sorted.begin(), _sorted.end());
-- 
2.43.0


From cfad4514bce5d729d2a7984f2facfa778acd6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 136/168] fix: PermutationTree accesses popped elements of its
 stacks

---
 library/datastructure/permutation_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index c592de5..1f5fc36 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -79,8 +79,8 @@ namespace suisen {
 
             auto erase = [&](list_node_pointer node) -> list_node_pointer {
                 list_node_pointer nxt = node->nxt, prv = node->prv;
-                if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
-                if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
+                if (node->max_idx < int(max_val.size())) if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
+                if (node->min_idx < int(min_val.size())) if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
                 if (nxt) nxt->prv = prv, nxt->delta += node->delta;
                 if (prv) prv->nxt = nxt;
                 delete node;
-- 
2.43.0


From b3d4d044dfd37ea31eb80dddd60b17c920f60c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:42 +0000
Subject: [PATCH 137/168] fix: RangeXoredMexQuery shifts by the full width of
 its type

---
 library/range_query/static_range_xored_mex_query.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..fbf7f89 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -56,8 +56,10 @@ namespace suisen {
 
         // returns mex { A_i ^ x | l <= i < r }
         T minimum_excluded(int l, int r, T x) const {
-            if (x >> bit_num) return 0;
-            if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) {
+                if (x >> bit_num) return 0;
+                if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            }
             T res = 0;
             for (int log = bit_num - 1; log >= 0; --log) {
                 bool z = (x >> log) & 1;
-- 
2.43.0


From dd3fd1d126ed9bc08e5a1e96ad31853ca197d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 138/168] fix: convex_hull of no points resizes to a negative
 size

---
 library/geom/convex_hull.hpp          | 1 +
 library/integral_geom/convex_hull.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/library/geom/convex_hull.hpp b/library/geom/convex_hull.hpp
index 6cd809d..b42e52d 100644
--- a/library/geom/convex_hull.hpp
+++ b/library/geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen {
 namespace geometry {
     std::vector<int> convex_hull(const std::vector<Point> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
diff --git a/library/integral_geom/convex_hull.hpp b/library/integral_geom/convex_hull.hpp
index d15556f..1551a03 100644
--- a/library/integral_geom/convex_hull.hpp
+++ b/library/integral_geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen::integral_geometry {
     template <typename PointType, typename MultipliedType = long long>
     std::vector<int> convex_hull(const std::vector<PointType> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
-- 
2.43.0


From ce404bd4018d8d9e226b4d4c77a4f21e8053ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 139/168] fix: convex_diameter never ends on collinear points

---
 library/geom/geometry.hpp          | 5 ++++-
 library/integral_geom/geometry.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..eb72b85 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -442,7 +442,10 @@ namespace geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (coordinate_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            const Point di = convex[ni] - convex[i], dj = convex[nj] - convex[j];
+            const coordinate_t t = det(di, dj);
+            // t = 0 with the same direction: both edges lie on the same line
+            if (t < 0 or (sgn(t) == Sign::ZERO and dot(di, dj) > 0 and i != sj)) i = ni;
             else j = nj;
         }
         return { argmax.first, argmax.second, ::sqrtl(max_dist) };
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index bace3aa..1e43b0b 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -201,7 +201,10 @@ namespace suisen::integral_geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            const Point di = convex[ni] - convex[i], dj = convex[nj] - convex[j];
+            const multiplied_t t = det(di, dj);
+            // t = 0 with the same direction: both edges lie on the same line
+            if (t < 0 or (t == 0 and dot(di, dj) > 0 and i != sj)) i = ni;
             else j = nj;
         }
         return argmax;
-- 
2.43.0


From b73b0a1d50b34e2e6ae232d48d073b209bb1e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 140/168] fix: rays from the same point in opposite directions
 compare equal

---
 library/geom/geometry.hpp          | 2 +-
 library/integral_geom/geometry.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index eb72b85..e26ae96 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -332,7 +332,7 @@ namespace geometry {
         return on_the_same_line(l, m);
     }
     bool equals(const Ray &l, const Ray &m) {
-        return on_the_same_line(l, m) and equals(l.a, m.a);
+        return on_the_same_line(l, m) and equals(l.a, m.a) and dot(l.b - l.a, m.b - m.a) > 0;
     }
     bool equals(const Segment &l, const Segment &m) {
         return (equals(l.a, m.a) and equals(l.b, m.b)) or (equals(l.a, m.b) and equals(l.b, m.a));
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 1e43b0b..83827fb 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -123,7 +123,7 @@ namespace suisen::integral_geometry {
         return on_the_same_line(l, m);
     }
     bool operator==(const Ray& l, const Ray& m) {
-        return on_the_same_line(l, m) and l.a == m.a;
+        return on_the_same_line(l, m) and l.a == m.a and dot(l.b - l.a, m.b - m.a) > 0;
     }
     bool operator==(const Segment& l, const Segment& m) {
         return (l.a == m.a and l.b == m.b) or (l.a == m.b and l.b == m.a);
-- 
2.43.0


From 4940d0b399e23e0e74b8c57194522cd7037c0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 141/168] fix: count_lattice_points is wrong for clockwise
 polygons

---
 library/integral_geom/count_lattice_point.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/integral_geom/count_lattice_point.hpp b/library/integral_geom/count_lattice_point.hpp
index 8fa4874..74c5ff6 100644
--- a/library/integral_geom/count_lattice_point.hpp
+++ b/library/integral_geom/count_lattice_point.hpp
@@ -17,6 +17,7 @@ namespace suisen::integral_geometry {
             s += MultipliedType(x1) * y2 - MultipliedType(y1) * x2;
             b += std::abs(std::gcd(x2 - x1, y2 - y1));
         }
+        if (s < 0) s = -s;
         return (s + 2 + b) / 2;
     }
 } // namespace suisen::integral_geometry
-- 
2.43.0


From 39d163cef9730437cd56ddf723192b5ade39d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 142/168] fix: compare_by_atan2 orders the origin before itself

---
 library/integral_geom/sort_points_by_argument.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/sort_points_by_argument.hpp b/library/integral_geom/sort_points_by_argument.hpp
index c6eb062..b5c4e2c 100644
--- a/library/integral_geom/sort_points_by_argument.hpp
+++ b/library/integral_geom/sort_points_by_argument.hpp
@@ -18,8 +18,8 @@ namespace suisen::integral_geometry {
         const auto &[x2, y2] = q;
         if ((y1 < 0) xor (y2 < 0)) return y1 < y2;
         if ((x1 < 0) xor (x2 < 0)) return (y1 >= 0) xor (x1 < x2);
-        if (x1 == 0 and y1 == 0) return true;
         if (x2 == 0 and y2 == 0) return false;
+        if (x1 == 0 and y1 == 0) return true;
         return (MultipliedType(y1) * x2 < MultipliedType(y2) * x1);
     }
     template <typename PointType, typename MultipliedType = long long>
-- 
2.43.0


From 1ed33ce43925dc89a87d58ea20e33bf22fcc52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 143/168] fix: pIabc returns incircles of other triangles
 instead of the excircles

---
 library/geom/geometry.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index e26ae96..630b6d4 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -236,7 +236,12 @@ namespace geometry {
         return a + b + c - 2 * pO(a, b, c).center;
     }
     auto pIabc(const Point &a, const Point &b, const Point &c) {
-        return std::make_tuple(pI(-a, b, c), pI(a, -b, c), pI(a, b, -c));
+        const coordinate_t la = abs(b - c), lb = abs(c - a), lc = abs(a - b), s = 2 * area(a, b, c);
+        auto excircle = [&](coordinate_t wa, coordinate_t wb, coordinate_t wc) {
+            const coordinate_t w = wa + wb + wc;
+            return Circle((wa * a + wb * b + wc * c) / w, s / w);
+        };
+        return std::make_tuple(excircle(-la, lb, lc), excircle(la, -lb, lc), excircle(la, lb, -lc));
     }
 
     // Line
-- 
2.43.0


From c11231bced38d16e91f95213cd8b136c4deb032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 144/168] fix: the distance of a 3D segment to a const line is
 that of two lines

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index 8197ae3..eb6f397 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -150,7 +150,7 @@ namespace suisen::geometry3d {
         auto [p, q] = internal::closest_pair(l, m);
         return on(m, q) ? dist(p, q) : std::min(dist(l, m.first), dist(l, m.second));
     }
-    coordinate_t dist(const Segment &l, Line &m) {
+    coordinate_t dist(const Segment &l, const Line &m) {
         return dist(m, l);
     }
     coordinate_t dist(const Ray &l, const Ray &m) {
-- 
2.43.0


From 107490de45b4d01708219cd9d6f501039466c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:24 +0000
Subject: [PATCH 145/168] fix: sum_i_i_pow_d_r_pow_i::sum(t, m) does not
 compile: wrong exponent

---
 library/math/sum_i^d_r^i.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/sum_i^d_r^i.hpp b/library/math/sum_i^d_r^i.hpp
index 7d1c14a..4909793 100644
--- a/library/math/sum_i^d_r^i.hpp
+++ b/library/math/sum_i^d_r^i.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             }
             prepare();
             auto res = shift_of_sampling_points<mint>(ys, t, m);
-            mint pr = r.pow(r);
+            mint pr = r.pow(t);
             for (auto &e : res) e *= pr, e += c, pr *= r;
             return res;
         }
-- 
2.43.0


From 5d17e3e5f63c248767eb3d5b2b4a137bfa3f627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 146/168] fix: bell_number omits the last term

---
 library/sequence/bell_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/sequence/bell_number.hpp b/library/sequence/bell_number.hpp
index 54f70ee..4b36e78 100644
--- a/library/sequence/bell_number.hpp
+++ b/library/sequence/bell_number.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         factorial<mint> fac(n);
         FPSType f(n + 1);
         for (int i = 1; i <= n; ++i) f[i] = fac.fac_inv(i);
-        f.exp_inplace(n);
+        f.exp_inplace(n + 1);
         for (int i = 0; i <= n; ++i) f[i] *= fac.fac(i);
         return f;
     }
-- 
2.43.0


From 891594ac713905c2752fbce2795ff14a167c671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 147/168] fix: binomial_coefficient_small_r_offline writes out
 of bounds if every r is 0

---
 library/sequence/binomial_coefficient_small_r_offline.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/sequence/binomial_coefficient_small_r_offline.hpp b/library/sequence/binomial_coefficient_small_r_offline.hpp
index e8e6f25..cdd6dd0 100644
--- a/library/sequence/binomial_coefficient_small_r_offline.hpp
+++ b/library/sequence/binomial_coefficient_small_r_offline.hpp
@@ -98,6 +98,7 @@ namespace suisen {
         // O(t*2^t)
         template <bool is_signed, typename mint>
         std::vector<Polynomial<mint>> stirling_number1_doubling(int t) {
+            if (t == 0) return {};
             const int n = 1 << t;
 
             std::vector<mint> fac(n + 1), fac_inv(n + 1);
-- 
2.43.0


From 7bbc069614a61cec3a1f4b6ab74d1653e5de663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 148/168] fix: product_of_differences of no points takes the
 front of an empty deque

---
 library/math/product_of_differences.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/product_of_differences.hpp b/library/math/product_of_differences.hpp
index c247a3a..0b44604 100644
--- a/library/math/product_of_differences.hpp
+++ b/library/math/product_of_differences.hpp
@@ -15,6 +15,7 @@ namespace suisen {
         // => f'(x)=Σ_i Π[j!=i](x-x[j])
         // => f'(x[i])=Π[j!=i](x[i]-x[j])
         const int n = xs.size();
+        if (n == 0) return {};
         std::deque<FPSType> dq;
         for (int i = 0; i < n; ++i) dq.push_back(FPSType{ -xs[i], 1 });
         while (dq.size() >= 2) {
-- 
2.43.0


From 4c47f705d266ec0e72cca7319a4f21fad2ae5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 149/168] fix: factorial grows its table past the modulus and
 divides by zero

---
 library/math/factorial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/math/factorial.hpp b/library/math/factorial.hpp
index 92dae7f..b0afe0f 100644
--- a/library/math/factorial.hpp
+++ b/library/math/factorial.hpp
@@ -14,8 +14,11 @@ namespace suisen {
             int sz = _fac.size();
             if (n + 1 <= sz) return;
             int new_size = std::max(n + 1, sz * 2);
-            _fac.resize(new_size), _fac_inv.resize(new_size);
+            _fac.resize(new_size);
             for (int i = sz; i < new_size; ++i) _fac[i] = _fac[i - 1] * i;
+            // n! has no inverse beyond the modulus
+            while (new_size > n + 1 and _fac[new_size - 1] == T(0)) --new_size;
+            _fac.resize(new_size), _fac_inv.resize(new_size);
             _fac_inv[new_size - 1] = U(1) / _fac[new_size - 1];
             for (int i = new_size - 1; i > sz; --i) _fac_inv[i - 1] = _fac_inv[i] * i;
         }
-- 
2.43.0


From 788b08f53cd432fd6235ae4b73b7ad7f81f55dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 150/168] fix: DoubleEndedPriorityQueue::max may return an
 element popped before

---
 library/datastructure/double_ended_priority_queue.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index e5e0164..5e61997 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -46,8 +46,8 @@ namespace suisen {
         void emplace(Args &&...args) { push(value_type(std::forward<Args>(args)...)); }
 
         const value_type& max() const {
-            assert(size());
-            return _max_heap.size() ? _max_heap.front() : pivot;
+            ensure_max_heap_nonempty();
+            return _max_heap.front();
         }
         const value_type& min() {
             ensure_min_heap_nonempty();
@@ -87,8 +87,8 @@ namespace suisen {
             bool operator()(const value_type& x, const value_type& y) { return comp(y, x); }
         } _rev_comp{ _comp };
 
-        std::vector<value_type> _max_heap, _min_heap;
-        value_type pivot;
+        mutable std::vector<value_type> _max_heap, _min_heap;
+        mutable value_type pivot;
 
         void ensure_min_heap_nonempty() {
             const int siz = size();
@@ -108,7 +108,7 @@ namespace suisen {
                 std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
             }
         }
-        void ensure_max_heap_nonempty() {
+        void ensure_max_heap_nonempty() const {
             const int siz = size();
             assert(siz);
             if (not _max_heap.empty()) return;
-- 
2.43.0


From c36ee13a47cf995cdb85e27078041db796e1bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 151/168] fix: unsigned_bigint keeps the leading zeros of its
 text, so "0" is not zero

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 911de2c..daab1eb 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                     v = v * 10 + d;
                 }
             }
+            _cut_leading_zeros();
         }
         unsigned_bigint(const char* s) : unsigned_bigint(std::string(s)) {}
 
-- 
2.43.0


From 6816f4ab5a8ab4d175ddfb90dcc3b77e937cec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 152/168] fix: convolution_naive of two empty sequences has
 length -1 (0 * 0 in bigint throws)

---
 library/convolution/convolution_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/convolution_naive.hpp b/library/convolution/convolution_naive.hpp
index 7c3f049..8593bf0 100644
--- a/library/convolution/convolution_naive.hpp
+++ b/library/convolution/convolution_naive.hpp
@@ -7,6 +7,7 @@ namespace suisen::internal {
     template <typename T, typename R = T>
     std::vector<R> convolution_naive(const std::vector<T>& a, const std::vector<T>& b) {
         const int n = a.size(), m = b.size();
+        if (n == 0 or m == 0) return {};
         std::vector<R> c(n + m - 1);
         if (n < m) {
             for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) c[i + j] += R(a[i]) * b[j];
-- 
2.43.0


From 5ba2af4a0c519cb10bb3f2357c49befb719ba284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 153/168] fix: bigint from the least value of a signed type
 overflows

---
 library/math/bigint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/math/bigint.hpp b/library/math/bigint.hpp
index b51778f..9ca1bb1 100644
--- a/library/math/bigint.hpp
+++ b/library/math/bigint.hpp
@@ -15,8 +15,10 @@ namespace suisen {
             _neg = false;
             if constexpr (std::is_signed_v<T>) {
                 if (v < 0) {
+                    using U = std::make_unsigned_t<T>;
                     _neg = true;
-                    v = -v;
+                    _dat = unsigned_bigint(static_cast<U>(U(0) - static_cast<U>(v)));
+                    return;
                 }
             }
             _dat = unsigned_bigint(v);
-- 
2.43.0


From 67a160c93ee30a97806e8484bb5046ffbf15a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 154/168] fix: unsigned_bigint division accumulates leading
 zeros in an empty remainder

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index daab1eb..3708d21 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -396,7 +396,7 @@ namespace suisen {
                     q.push_back(x);
                     r = r - bx;
                 }
-                if (i) {
+                if (i and (r.size() or a[i - 1])) {
                     r.insert(r.begin(), a[i - 1]);
                 }
             }
-- 
2.43.0


From a2c335ed0b4e88108d91e4914f9e9db80a362ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:25 +0000
Subject: [PATCH 155/168] fix: unsigned_bigint division by a long divisor of a
 power of 10^9 fails

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 3708d21..cb60fb5 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -435,7 +435,7 @@ namespace suisen {
                         carry = 0;
                     }
                 }
-                ++bc[k];
+                bc[k] = 1; // 2 D^k - bc, where bc <= D^k
                 c *= bc;
                 c.erase(c.begin(), c.begin() + dB);
                 bc = b * c;
-- 
2.43.0


From 677f4729418cc17ab785e395348665f834c55cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:52 +0000
Subject: [PATCH 156/168] fix: ZDD::max_len_item drops the top item if only the
 1-branch is nonempty

---
 library/datastructure/ZDD.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index dc6f27d..4d59e44 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -268,6 +268,7 @@ namespace suisen {
             } else if (res0.has_value()) {
                 return register_result(cache, res0, f.id);
             } else if (res1.has_value()) {
+                res1->push_back(f.top());
                 return register_result(cache, res1, f.id);
             } else {
                 return register_result(cache, std::nullopt, f.id);
-- 
2.43.0


From db8ef6e9a903c614843e68cdb2bab88976b527c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 157/168] fix: RunLengthEncoder::pop_back does not compile and
 loses track of the length

---
 library/util/run_length_encoder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..9b7bba8 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -49,8 +49,9 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
-                    return rem + num;
+                    comp.back().second -= num;
+                    rem += num;
+                    break;
                 }
                 num -= cnt, rem += cnt;
                 comp.pop_back();
-- 
2.43.0


From 47009992623cfbe1008555d3c0087fd8ac5420ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 158/168] fix: RunLengthEncoder::swap and clear leave the
 length behind

---
 library/util/run_length_encoder.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 9b7bba8..9852038 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RUN_LENGTH_ENCODER
 #define SUISEN_RUN_LENGTH_ENCODER
 
+#include <utility>
 #include <vector>
 
 namespace suisen {
@@ -20,9 +21,9 @@ class RunLengthEncoder {
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp), std::swap(_length, other._length); }
+        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp), std::swap(_length, other._length); }
+        void clear() { comp.clear(), _length = 0; }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
-- 
2.43.0


From 9a77403f3944fd8cb9b84994dd15643b2d43c308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 159/168] fix: vector *= writes past the end of the vector

---
 library/util/vector_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index 18bb463..fe049b8 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -35,7 +35,7 @@ template <typename T>
 std::vector<T>& operator*=(std::vector<T> &a, const int repeat) {
     int n = a.size();
     a.resize(n * repeat);
-    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.end(), a.begin() + i * n);
+    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.begin() + n, a.begin() + i * n);
     return a;
 }
 template <typename T>
-- 
2.43.0


From 0d5befdc8508aa2dd24f430ef73987d3bdbc2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 160/168] fix: vector a += a writes past the end of the vector

---
 library/util/vector_ops.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index fe049b8..e7e7787 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -6,9 +6,9 @@
 namespace suisen {
 template <typename T>
 std::vector<T>& operator+=(std::vector<T> &a, const std::vector<T> &b) {
-    int n = a.size();
-    a.resize(n + b.size());
-    std::copy(b.begin(), b.end(), a.begin() + n);
+    int n = a.size(), m = b.size();
+    a.resize(n + m);
+    std::copy(b.begin(), b.begin() + m, a.begin() + n);
     return a;
 }
 template <typename T>
-- 
2.43.0


From e5e6e531100f6298bacd3e561a1f699036a50732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 161/168] fix: default_vector reads an uninitialized default
 value

---
 library/util/default_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/default_vector.hpp b/library/util/default_vector.hpp
index fefa450..7f1f59a 100644
--- a/library/util/default_vector.hpp
+++ b/library/util/default_vector.hpp
@@ -37,7 +37,7 @@ class default_vector : public std::vector<T> {
             std::vector<T>::resize(n, default_value);
         }
     private:
-        T default_value;
+        T default_value{};
         bool index_out_of_bounds(unsigned int i) const {
             return i >= std::vector<T>::size();
         }
-- 
2.43.0


From 12c12af78ef054bb4b3f9d5a0d7cd3c5b19dea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 162/168] fix: sum_count_lt/geq/gt ignore the result type R

---
 library/util/sum_count.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index 26fcd61..c3bee91 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SUM_COUNT
 #define SUISEN_SUM_COUNT
 
+#include <algorithm>
+
 namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b=sum)
     template <typename T, typename R = T>
@@ -28,19 +30,19 @@ namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<x)
     template <typename T, typename R = T>
     constexpr R sum_count_lt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return sum_count_leq(min_a, max_a, min_b, max_b, x - 1);
+        return sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x - 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>=min_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_geq(T min_a, T max_a, T min_b, T max_b, T min_sum) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_lt(min_a, max_a, min_b, max_b, min_sum);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_lt<T, R>(min_a, max_a, min_b, max_b, min_sum);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>x)
     template <typename T, typename R = T>
     constexpr R sum_count_gt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_leq(min_a, max_a, min_b, max_b, x);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x);
     }
 } // namespace suisen
 
-- 
2.43.0


From b6491319fc256554dee5d0b0e0c59e9b69c216ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 163/168] fix: integral ternary_search_value converts the value
 to the argument type

---
 library/util/search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/search.hpp b/library/util/search.hpp
index f5fc372..eacd2c8 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -79,7 +79,7 @@ namespace suisen {
      */
     template <ternary_search_tag tag, typename Arg, typename Fun,
         std::enable_if_t<std::conjunction_v<std::is_invocable<Fun, Arg>, std::is_integral<Arg>>, std::nullptr_t> = nullptr>
-    Arg ternary_search_value(Arg l, Arg r, const Fun &f) {
+    std::invoke_result_t<Fun, Arg> ternary_search_value(Arg l, Arg r, const Fun &f) {
         return f(ternary_search_key<tag>(l, r, f));
     }
 
-- 
2.43.0


From 2ee8e28b45fd7efda99ba762f29eedf13a97b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 164/168] fix: Permutation::pow overflows for large exponents

---
 library/util/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/permutation.hpp b/library/util/permutation.hpp
index f96232e..ee1783a 100644
--- a/library/util/permutation.hpp
+++ b/library/util/permutation.hpp
@@ -62,7 +62,7 @@ namespace suisen {
                 for (int j = 0; j < l; ++j) {
                     int v = cycle[j];
                     seen[v] = true;
-                    res[v] = cycle[(j + k) % l];
+                    res[v] = cycle[(j + k % l) % l];
                 }
             }
             return res;
-- 
2.43.0


From 6497c5a64b7b93f50f55ac345534310b691f8c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 165/168] fix: VecZobristHash reuses the hash values of the
 initial keys for keys beyond max_val

---
 library/util/zobrist_hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/util/zobrist_hash.hpp b/library/util/zobrist_hash.hpp
index 024e52c..3643862 100644
--- a/library/util/zobrist_hash.hpp
+++ b/library/util/zobrist_hash.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <map>
 #include <vector>
 #include <random>
@@ -53,7 +54,7 @@ namespace suisen {
 
         VecZobristHash() = default;
         VecZobristHash(typename Base::value_type max_val) : Base(max_val + 1) {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
 
     protected:
@@ -70,7 +71,7 @@ namespace suisen {
         using Base = ZobristHashBase<std::array<std::make_unsigned_t<HashType>, N + 1>, std::size_t, HashType, ArrZobristHash<N, HashType>>;
 
         ArrZobristHash() {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
     protected:
         static void ensure_key_existence(typename Base::container_type&, typename Base::value_type, typename Base::rng_type&) {}
-- 
2.43.0


From 036e014106b405fddf68b6ea5bbeefa1569ad95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:49 +0000
Subject: [PATCH 166/168] fix: Affine and AffineClamp stream operators are
 reversed

---
 library/algebra/monoid/affine.hpp       | 4 ++--
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..178d9a9 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -49,8 +49,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From ddce138d0c2139f66ac425778dcca17182477959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:53 +0000
Subject: [PATCH 167/168] fix: SparseTable over an empty sequence takes the
 logarithm of 0 (undefined __builtin_clz(0))

---
 library/datastructure/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/sparse_table.hpp b/library/datastructure/sparse_table.hpp
index a60c735..0e7c4be 100644
--- a/library/datastructure/sparse_table.hpp
+++ b/library/datastructure/sparse_table.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             std::fill(flog.begin() + (1 << log), flog.end(), log);
         }
         static int floor_log2(int i) {
-            return 31 - __builtin_clz(i);
+            return 31 - __builtin_clz(i | 1);
         }
     };
 } // namespace suisen
-- 
2.43.0


From 4a74210528d8e282e1be94dd1d8fb7da3dc96374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:16 +0000
Subject: [PATCH 168/168] fix: fenwick_tree_set::count_leq, count_gt,
 upper_bound, min_gt at INT_MAX and max_lt at INT_MIN overflow

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 82ad048..e1184f1 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -93,7 +93,7 @@ namespace suisen {
         }
         // O(log n).
         // Count elements <= `v`. `v` may be out of range.
-        int count_leq(int v) const { return count_lt(v + 1); }
+        int count_leq(int v) const { return v >= _n ? _siz : count_lt(v + 1); }
         // O(log n).
         // Count elements > `v`. `v` may be out of range.
         int count_gt(int v) const { return _siz - count_leq(v); }
@@ -142,7 +142,7 @@ namespace suisen {
         }
         // O(log n).
         // Max element < `v` or `-1` if not exists
-        int max_lt(int v) const { return max_leq(v - 1); }
+        int max_lt(int v) const { return v <= 0 ? -1 : max_leq(v - 1); }
         // O(log n).
         // Min element >= `v` or `-1` if not exists
         int min_geq(int v) const {
@@ -160,7 +160,7 @@ namespace suisen {
         }
         // O(log n).
         // Min element > `v` or `-1` if not exists
-        int min_gt(int v) const { return min_geq(v + 1); }
+        int min_gt(int v) const { return v >= _n ? -1 : min_geq(v + 1); }
     private:
         struct IndexHolder {
             friend fenwick_tree_set;
-- 
2.43.0

