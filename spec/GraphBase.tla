----------------------------- MODULE GraphBase ------------------------------
(* Finite graphs on the vertices 0..n-1. E is a sequence of edges           *)
(* <<u, v>> or <<u, v, w>>; loops and parallel edges are allowed.           *)
EXTENDS Fold, MState
INFTY == 2147483647                                  \* how an unreachable distance is recorded
V0(n) == 0..(n - 1)
Both(E) == E \o [i \in DOMAIN E |-> [E[i] EXCEPT ![1] = E[i][2], ![2] = E[i][1]]]
Unit(E) == [i \in DOMAIN E |-> <<E[i][1], E[i][2], 1>>]
OutOf(n, E) == TLCEval([u \in V0(n) |-> {E[i][2] : i \in {j \in DOMAIN E : E[j][1] = u}}])
\* vertices reachable in the adjacency adj from the set S
RECURSIVE ReachFrom(_, _, _)
ReachFrom(adj, S, fr) == LET nx == TLCEval((UNION {adj[u] : u \in fr}) \ S) IN IF nx = {} THEN S ELSE ReachFrom(adj, S \cup nx, nx)
Reach(adj, S) == ReachFrom(adj, S, S)
\* least weight of a walk from S to each vertex (INFTY if none); no negative cycle
RECURSIVE Relax(_, _, _, _)
Relax(n, inn, d, k) ==
  LET nd == TLCEval([v \in V0(n) |-> FoldSet(LAMBDA e, a : IF d[e[1]] # INFTY /\ d[e[1]] + e[3] < a THEN d[e[1]] + e[3] ELSE a, d[v], inn[v])])
  IN IF nd = d \/ k = 0 THEN d ELSE Relax(n, inn, nd, k - 1)
DistFrom(n, E, S) == Relax(n, TLCEval([v \in V0(n) |-> {E[i] : i \in {j \in DOMAIN E : E[j][2] = v}}]), TLCEval([v \in V0(n) |-> IF v \in S THEN 0 ELSE INFTY]), n)
\* connected components of an undirected graph, as a set of vertex sets
RECURSIVE CompsOf(_, _)
CompsOf(adj, left) == IF left = {} THEN {} ELSE LET c == Reach(adj, {CHOOSE v \in left : TRUE}) IN {c} \cup CompsOf(adj, left \ c)
Comps(n, E) == CompsOf(OutOf(n, Both(E)), V0(n))
\* components of the subgraph induced by the vertex set A, edges I (indices)
CompsIn(n, E, A, I) ==
  LET adj == TLCEval([u \in A |-> {E[i][2] : i \in {j \in I : E[j][1] = u /\ E[j][2] \in A}} \cup {E[i][1] : i \in {j \in I : E[j][2] = u /\ E[j][1] \in A}}])
  IN CompsOf(adj, A)
\* strongly connected components
Sccs(n, E) == LET adj == OutOf(n, E) r == TLCEval([u \in V0(n) |-> Reach(adj, {u})]) IN {{v \in r[u] : u \in r[v]} : u \in V0(n)}
IsDag(n, E) == LET adj == OutOf(n, E) IN \A u \in V0(n) : u \notin Reach(adj, adj[u])
\* a list of lists is a partition listing each class exactly once, without repetition
ListsPartition(ls, part) ==
  /\ {SeqToSet(ls[i]) : i \in DOMAIN ls} = part /\ Len(ls) = Cardinality(part)
  /\ \A i \in DOMAIN ls : Len(ls[i]) = Cardinality(SeqToSet(ls[i]))
Fn(s) == [i \in 0..(Len(s) - 1) |-> s[i + 1]]        \* a recorded array as a function on 0..
NoDup(s) == Len(s) = Cardinality(SeqToSet(s))
=============================================================================
