---------------------------- MODULE PathMachine -----------------------------
(* Shortest paths and reachability. st is the graph built so far.           *)
EXTENDS GraphBase
\* -------- undirected graph under construction: BFS and BFS in the complement
BfsInit(p) == [n |-> p[1], E |-> p[2]]
Hops(n, adj, S) == DistFrom(n, FlattenSeq([u \in 1..n |-> SetToSeq({<<u - 1, v, 1>> : v \in adj[u - 1]})]), S)
Minus1(d) == [v \in DOMAIN d |-> IF d[v] = INFTY THEN -1 ELSE d[v]]
GAdj(comp) == IF comp THEN LET o == OutOf(st.n, Both(st.E)) IN TLCEval([u \in V0(st.n) |-> (V0(st.n) \ {u}) \ o[u]]) ELSE OutOf(st.n, Both(st.E))
BfsStep(e, comp) ==
  \/ e[1] = "add" /\ st' = [st EXCEPT !.E = Append(@, <<e[2], e[3]>>)]
  \/ e[1] = "dist" /\ Fn(e[3]) = Minus1(Hops(st.n, GAdj(comp), SeqToSet(e[2]))) /\ UNCHANGED st
  \/ e[1] = "comps" /\ ListsPartition(e[2], CompsOf(GAdj(comp), V0(st.n))) /\ UNCHANGED st
\* -------- single source searches on a directed weighted graph
SsspStep(e) ==
  \/ /\ e[1] = "sssp"                                    \* n, E, sources, dist, reachable flags
     /\ Holds(
       /\ LET d == DistFrom(e[2], e[3], SeqToSet(e[4])) IN
          /\ Fn(e[5]) = d
          /\ \A v \in V0(e[2]) : e[6][v + 1] = (d[v] # INFTY)
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "paths"                                   \* n, E, source, paths to every reachable vertex
     /\ Holds(
       /\ LET d == DistFrom(e[2], e[3], {e[4]}) IN
          \A i \in DOMAIN e[5] : LET p == e[5][i][2] t == e[5][i][1] IN
            /\ p[1] = e[4] /\ p[Len(p)] = t
            /\ \A j \in 1..(Len(p) - 1) : \E x \in DOMAIN e[3] : e[3][x][1] = p[j] /\ e[3][x][2] = p[j + 1] /\ d[p[j]] + e[3][x][3] = d[p[j + 1]]
       )
     /\ UNCHANGED st
\* -------- bottleneck paths: D[i][j] = best over walks of length >= 1 of the worst edge
MinMax(n, C, lt) ==
  FoldLeft(LAMBDA D, k : TLCEval([i \in 1..n |-> LET dik == D[i][k] IN [j \in 1..n |->
        LET t == IF lt THEN MaxOf(dik, D[k][j]) ELSE MinOf(dik, D[k][j])
        IN IF (lt /\ t < D[i][j]) \/ (~lt /\ t > D[i][j]) THEN t ELSE D[i][j]]]), C, [k \in 1..n |-> k])
MinMaxStep(e) == e[1] = "minmax" /\ e[4] = MinMax(Len(e[2]), e[2], e[3] = "less") /\ UNCHANGED st
\* -------- graph with segment nodes: an edge to a segment reaches exactly its elements
\* st: n, orders (permutations); event "build": size, child edges, then per query edge: from, order, l, r, edges made
SegStep(e) ==
  \/ e[1] = "order" /\ e[3] = Len(st.ord) /\ st' = [st EXCEPT !.ord = Append(@, e[2])]
  \/ /\ e[1] = "graph"                                   \* size, tree edges, requests
     /\ Holds(
       /\ LET N == e[2]
              adj == OutOf(N, e[3])
              Leaf(S) == {v \in Reach(adj, S) : v < st.n}
          IN /\ N >= st.n
             /\ \A i \in DOMAIN e[3] : e[3][i][1] \in st.n..(N - 1) /\ e[3][i][2] \in 0..(N - 1)
             /\ \A i \in DOMAIN e[4] : LET r == e[4][i] IN       \* from, order, l, r, edges
                  /\ Leaf({r[5][j][2] : j \in DOMAIN r[5]}) = {st.ord[r[2] + 1][x] : x \in (r[3] + 1)..r[4]}
                  /\ \A j \in DOMAIN r[5] : r[5][j][1] = r[1]
             /\ \A i \in DOMAIN e[5] : LET s == e[5][i] IN       \* node id, order, l, r as reported for the node
                  /\ s[3] < s[4] => Leaf({s[1]}) = {st.ord[s[2] + 1][x] : x \in (s[3] + 1)..s[4]}
                  /\ s[3] < s[4]
             /\ \A v \in V0(st.n) : ~e[6][v + 1]
             /\ \A v \in st.n..(N - 1) : e[6][v + 1]
       )
     /\ UNCHANGED st
=============================================================================
