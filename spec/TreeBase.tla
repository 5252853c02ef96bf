------------------------------ MODULE TreeBase ------------------------------
(* Trees and forests on the vertices 0..n-1 as the library sees them.       *)
EXTENDS Fold, MState
AdjOf(n, edges) == [u \in 0..n-1 |-> {edges[i][2] : i \in {j \in DOMAIN edges : edges[j][1] = u}} \cup {edges[i][1] : i \in {j \in DOMAIN edges : edges[j][2] = u}}]
RECURSIVE Bfs(_, _, _, _)
\* pd: vertex -> <<parent, depth>>; <<-2, 0>> while unreached
Bfs(adj, front, pd, d) ==
  IF front = {} THEN pd
  ELSE LET nx == UNION {{<<v, u>> : v \in {w \in adj[u] : pd[w][1] = -2}} : u \in front}
           vs == {q[1] : q \in nx}
       IN Bfs(adj, vs, [w \in DOMAIN pd |-> IF w \in vs THEN <<(CHOOSE q \in nx : q[1] = w)[2], d + 1>> ELSE pd[w]], d + 1)
RootedAt(adj, roots) == Bfs(adj, roots, [w \in DOMAIN adj |-> IF w \in roots THEN <<-1, 0>> ELSE <<-2, 0>>], 0)
ParOf(pd) == [u \in DOMAIN pd |-> pd[u][1]]
RECURSIVE RootPath(_, _)
RootPath(par, u) == IF par[u] < 0 THEN <<u>> ELSE Append(RootPath(par, par[u]), u)      \* root .. u
TreePath(par, u, v) == LET a == RootPath(par, u)  b == RootPath(par, v)  k == Lcp(a, b) IN Reverse(SubSeq(a, k, Len(a))) \o SubSeq(b, k + 1, Len(b))
SameTree(par, u, v) == RootPath(par, u)[1] = RootPath(par, v)[1]
LcaOf(par, u, v) == LET a == RootPath(par, u)  b == RootPath(par, v) IN a[Lcp(a, b)]
DistOf(par, u, v) == Len(TreePath(par, u, v)) - 1
IsAnc(par, a, u) == \E i \in DOMAIN RootPath(par, u) : RootPath(par, u)[i] = a
SubtreeOf(par, u) == {w \in DOMAIN par : IsAnc(par, u, w)}
\* canonical form of a rooted unordered tree (AHU code)
RECURSIVE Canon(_, _, _)
Canon(adj, u, p) ==
  LET ch == adj[u] \ {p}
      cs == SortSeq(SetToSeq({<<v, Canon(adj, v, u)>> : v \in ch}), LAMBDA a, b : LexLt(a[2], b[2]))
  IN <<0>> \o FlattenSeq([i \in DOMAIN cs |-> cs[i][2]]) \o <<1>>
=============================================================================
