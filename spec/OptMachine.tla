----------------------------- MODULE OptMachine -----------------------------
(* Optimisation on graphs and set functions: results must be feasible and   *)
(* optimal. Optimality is stated by definition (small scopes) or by an      *)
(* exact criterion (no negative residual cycle, Koenig's min-max).          *)
EXTENDS GraphBase
BagOf(s) == [x \in SeqToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
BagLe(s, t) == LET a == BagOf(s) b == BagOf(t) IN \A x \in DOMAIN a : x \in DOMAIN b /\ a[x] <= b[x]
MinSet(S) == Min(S)
\* ---------------------------------------------------------------- bipartite graphs; st = [l, r, E]
Nb(E, S) == {E[i][2] : i \in {j \in DOMAIN E : E[j][1] \in S}}
NbR(E, T) == {E[i][1] : i \in {j \in DOMAIN E : E[j][2] \in T}}
Nu(l, E) == Min({Cardinality(Nb(E, S)) + l - Cardinality(S) : S \in SUBSET V0(l)})
EdgeSet == {<<st.E[i][1], st.E[i][2]>> : i \in DOMAIN st.E}
IsMatching(m) == (\A i \in DOMAIN m : m[i] \in EdgeSet) /\ NoDup([i \in DOMAIN m |-> m[i][1]]) /\ NoDup([i \in DOMAIN m |-> m[i][2]])
BmStep(e) ==
  \/ e[1] = "add" /\ st' = [st EXCEPT !.E = Append(@, <<e[2], e[3]>>)]
  \/ e[1] = "solve" /\ e[2] = Nu(st.l, st.E) /\ UNCHANGED st
  \/ /\ e[1] = "matching"    \* pairs, partner of each left vertex, of each right vertex
     /\ Holds(
       /\ IsMatching(e[2]) /\ Len(e[2]) = Nu(st.l, st.E)
       /\ \A u \in V0(st.l) : IF e[3][u + 1] = -1 THEN \A i \in DOMAIN e[2] : e[2][i][1] # u ELSE \E i \in DOMAIN e[2] : e[2][i] = <<u, e[3][u + 1]>>
       /\ \A v \in V0(st.r) : IF e[4][v + 1] = -1 THEN \A i \in DOMAIN e[2] : e[2][i][2] # v ELSE \E i \in DOMAIN e[2] : e[2][i] = <<e[4][v + 1], v>>
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "ecover"
     /\ Holds(LET L == NbR(st.E, V0(st.r))  R == Nb(st.E, V0(st.l))  c == SeqToSet(e[2]) IN
        /\ \A i \in DOMAIN e[2] : e[2][i] \in EdgeSet
        /\ {x[1] : x \in c} = L /\ {x[2] : x \in c} = R
        /\ Len(e[2]) = Cardinality(L) + Cardinality(R) - Nu(st.l, st.E))
     /\ UNCHANGED st
  \/ /\ e[1] = "vcover"
     /\ Holds(LET c == SeqToSet(e[2]) IN
        /\ NoDup(e[2]) /\ c \subseteq V0(st.l + st.r) /\ Len(e[2]) = Nu(st.l, st.E)
        /\ \A x \in EdgeSet : x[1] \in c \/ (st.l + x[2]) \in c)
     /\ UNCHANGED st
  \/ /\ e[1] = "indep"
     /\ Holds(LET c == SeqToSet(e[2]) IN
        /\ NoDup(e[2]) /\ c \subseteq V0(st.l + st.r) /\ Len(e[2]) = st.l + st.r - Nu(st.l, st.E)
        /\ \A x \in EdgeSet : ~(x[1] \in c /\ (st.l + x[2]) \in c))
     /\ UNCHANGED st
  \/ /\ e[1] = "cert"        \* size, matching, partners, vertex cover, independent set, edge cover: weak duality settles optimality at any size
     /\ Holds(LET c == SeqToSet(e[6])  i == SeqToSet(e[7])  f == SeqToSet(e[8])  L == NbR(st.E, V0(st.r))  R == Nb(st.E, V0(st.l))  lm == [u \in V0(st.l) |-> {x[2] : x \in {y \in SeqToSet(e[3]) : y[1] = u}}]  rm == [v \in V0(st.r) |-> {x[1] : x \in {y \in SeqToSet(e[3]) : y[2] = v}}] IN
        /\ IsMatching(e[3]) /\ Len(e[3]) = e[2]
        /\ (\A u \in V0(st.l) : lm[u] = {e[4][u + 1]} \ {-1}) /\ \A v \in V0(st.r) : rm[v] = {e[5][v + 1]} \ {-1}
        /\ NoDup(e[6]) /\ Len(e[6]) = e[2] /\ c \subseteq V0(st.l + st.r) /\ \A x \in EdgeSet : x[1] \in c \/ (st.l + x[2]) \in c
        /\ NoDup(e[7]) /\ Len(e[7]) = st.l + st.r - e[2] /\ i \subseteq V0(st.l + st.r) /\ \A x \in EdgeSet : ~(x[1] \in i /\ (st.l + x[2]) \in i)
        /\ f \subseteq EdgeSet /\ {x[1] : x \in f} = L /\ {x[2] : x \in f} = R /\ Len(e[8]) = Cardinality(L) + Cardinality(R) - e[2])
     /\ UNCHANGED st
  \/ /\ e[1] = "dm"          \* Dulmage-Mendelsohn: list of <<left vertices, right vertices>>
     /\ Holds(LET k == Len(e[2])  L == [i \in 1..k |-> SeqToSet(e[2][i][1])]  R == [i \in 1..k |-> SeqToSet(e[2][i][2])]
                  cl == [u \in V0(st.l) |-> {i \in 1..k : u \in L[i]}]  cr == [v \in V0(st.r) |-> {i \in 1..k : v \in R[i]}]
                  Big1(i, S) == Cardinality(Nb(st.E, S) \cap R[i]) > Cardinality(S) IN
        /\ k >= 2
        /\ \A i \in 1..k : NoDup(e[2][i][1]) /\ NoDup(e[2][i][2]) /\ L[i] \subseteq V0(st.l) /\ R[i] \subseteq V0(st.r)
        /\ (\A u \in V0(st.l) : Cardinality(cl[u]) = 1) /\ \A v \in V0(st.r) : Cardinality(cr[v]) = 1
        /\ \A x \in EdgeSet : \A i \in cl[x[1]], j \in cr[x[2]] : i <= j
        /\ (L[1] = {} /\ R[1] = {}) \/ Cardinality(L[1]) < Cardinality(R[1])
        /\ (L[k] = {} /\ R[k] = {}) \/ Cardinality(L[k]) > Cardinality(R[k])
        /\ \A S \in (SUBSET L[1]) \ {{}} : Big1(1, S)
        /\ \A T \in (SUBSET R[k]) \ {{}} : Cardinality(NbR(st.E, T) \cap L[k]) > Cardinality(T)
        /\ \A i \in 2..(k - 1) : L[i] # {} /\ Cardinality(L[i]) = Cardinality(R[i]) /\ Nb(st.E, L[i]) \cap R[i] = R[i] /\ \A S \in (SUBSET L[i]) \ {{}, L[i]} : Big1(i, S))
     /\ UNCHANGED st
\* ---------------------------------------------------------------- colourings, independent sets
RECURSIVE Colour(_, _, _, _, _)
Colour(adj, n, v, k, c) ==    \* vertices 0..v-1 are coloured by c; may use colours 1..k
  IF v = n THEN TRUE
  ELSE \E x \in 1..MinOf(k, (IF v = 0 THEN 0 ELSE Max({c[i] : i \in 1..v})) + 1) : (\A u \in adj[v] : u < v => c[u + 1] # x) /\ Colour(adj, n, v + 1, k, Append(c, x))
Chi(n, E) == IF n = 0 THEN 0 ELSE LET adj == OutOf(n, Both(E)) IN Min({k \in 1..n : Colour(adj, n, 0, k, <<>>)})
Indep(adj, S) == \A u \in S : adj[u] \cap S = {}
Alpha(n, adj) == Max({Cardinality(S) : S \in {T \in SUBSET V0(n) : Indep(adj, T)}})
\* the same by branching: a vertex of degree at most 1 can be taken; otherwise one of largest degree is taken or left
RECURSIVE AlphaR(_, _)
AlphaR(A, adj) ==
  IF A = {} THEN 0
  ELSE LET d == TLCEval([v \in A |-> Cardinality(adj[v] \cap A)])  low == {v \in A : d[v] <= 1} IN
       IF low # {} THEN LET v == CHOOSE x \in low : TRUE IN 1 + AlphaR(A \ (adj[v] \cup {v}), adj)
       ELSE LET v == CHOOSE x \in A : \A y \in A : d[x] >= d[y] IN MaxOf(AlphaR(A \ {v}, adj), 1 + AlphaR(A \ (adj[v] \cup {v}), adj))
SetStep(e) ==
  \/ /\ e[1] = "ecolor"      \* l, r, E, number of colours, colours
     /\ Holds(LET E == e[4] D == {Cardinality({i \in DOMAIN E : E[i][1] = u}) : u \in V0(e[2])} \cup {Cardinality({i \in DOMAIN E : E[i][2] = v}) : v \in V0(e[3])} IN
        /\ e[5] = Max(D \cup {0}) /\ Len(e[6]) = Len(E)
        /\ \A i \in DOMAIN E : e[6][i] \in 0..(e[5] - 1)
        /\ \A i, j \in DOMAIN E : (i < j /\ (E[i][1] = E[j][1] \/ E[i][2] = E[j][2])) => e[6][i] # e[6][j])
     /\ UNCHANGED st
  \/ e[1] = "chrom" /\ e[4] = Chi(e[2], e[3]) /\ UNCHANGED st
  \/ /\ e[1] = "mis"
     /\ Holds(LET adj == OutOf(e[2], Both(e[3])) IN NoDup(e[4]) /\ SeqToSet(e[4]) \subseteq V0(e[2]) /\ Indep(adj, SeqToSet(e[4])) /\ Len(e[4]) = AlphaR(V0(e[2]), adj))
     /\ UNCHANGED st
  \/ /\ e[1] = "clique"
     /\ Holds(LET adj == OutOf(e[2], Both(e[3]))  co == [u \in V0(e[2]) |-> (V0(e[2]) \ {u}) \ adj[u]] IN NoDup(e[4]) /\ SeqToSet(e[4]) \subseteq V0(e[2]) /\ Indep(co, SeqToSet(e[4])) /\ Len(e[4]) = AlphaR(V0(e[2]), co))
     /\ UNCHANGED st
  \/ /\ e[1] = "vc"
     /\ Holds(LET adj == OutOf(e[2], Both(e[3]))  C == SeqToSet(e[4]) IN NoDup(e[4]) /\ C \subseteq V0(e[2]) /\ Indep(adj, V0(e[2]) \ C) /\ Len(e[4]) = e[2] - AlphaR(V0(e[2]), adj))
     /\ UNCHANGED st
\* ---------------------------------------------------------------- minimum cost flow
RECURSIVE Settles(_, _, _, _)
Settles(n, A, d, k) == LET nd == TLCEval([v \in V0(n) |-> Min({d[v]} \cup {d[A[i][1]] + A[i][3] : i \in {j \in DOMAIN A : A[j][2] = v}})]) IN IF nd = d THEN TRUE ELSE IF k = 0 THEN FALSE ELSE Settles(n, A, nd, k - 1)
NoNegCycle(n, A) == Settles(n, A, [v \in V0(n) |-> 0], n)
Residual(E, f) == FlattenSeq([i \in DOMAIN E |-> (IF f[i] < E[i][3] THEN <<<<E[i][1], E[i][2], E[i][4]>>>> ELSE <<>>) \o (IF f[i] > 0 THEN <<<<E[i][2], E[i][1], -E[i][4]>>>> ELSE <<>>)])
Excess(E, f, v) == SumSeq([i \in DOMAIN E |-> (IF E[i][1] = v THEN f[i] ELSE 0) - (IF E[i][2] = v THEN f[i] ELSE 0)])
FlowStep(e) ==
  \/ /\ e[1] = "mcf"         \* n, E (u, v, cap, cost), s, t, mode, limit, flow, cost, edge records (from, to, cap, flow, cost)
     /\ Holds(LET n == e[2] E == e[3] s == e[4] t == e[5] f == [i \in DOMAIN E |-> e[10][i][4]]  A == Residual(E, f) IN
        /\ Len(e[10]) = Len(E) /\ \A i \in DOMAIN E : e[10][i] = <<E[i][1], E[i][2], E[i][3], f[i], E[i][4]>> /\ f[i] \in 0..E[i][3]
        /\ \A v \in V0(n) \ {s, t} : Excess(E, f, v) = 0
        /\ e[8] = Excess(E, f, s) /\ e[8] >= 0 /\ e[9] = SumSeq([i \in DOMAIN E |-> f[i] * E[i][4]])
        /\ NoNegCycle(n, A)
        /\ IF e[6] = "max" THEN (e[7] >= 0 /\ e[8] = e[7]) \/ ((e[7] < 0 \/ e[8] < e[7]) /\ t \notin Reach(OutOf(n, A), {s}))
           ELSE NoNegCycle(n, A \o <<<<t, s, 0>>>> \o (IF e[8] > 0 THEN <<<<s, t, 0>>>> ELSE <<>>)))
     /\ UNCHANGED st
  \/ /\ e[1] = "slope"       \* break points, and the (separately verified) least cost for every amount 0..F
     /\ Holds(LET p == e[2] c == Fn(e[3]) IN
        /\ p[1] = <<0, 0>> /\ p[Len(p)] = <<Len(e[3]) - 1, c[Len(e[3]) - 1]>>
        /\ \A i \in 1..(Len(p) - 1) : p[i][1] < p[i + 1][1]
        /\ \A i \in 1..(Len(p) - 2) : (p[i + 1][2] - p[i][2]) * (p[i + 2][1] - p[i + 1][1]) < (p[i + 2][2] - p[i + 1][2]) * (p[i + 1][1] - p[i][1])
        /\ \A i \in 1..(Len(p) - 1) : \A x \in p[i][1]..p[i + 1][1] : (c[x] - p[i][2]) * (p[i + 1][1] - p[i][1]) = (p[i + 1][2] - p[i][2]) * (x - p[i][1]))
     /\ UNCHANGED st
RECURSIVE BestAssign(_, _, _)
BestAssign(a, i, used) == IF i > Len(a) THEN 0 ELSE Min({a[i][j] + BestAssign(a, i + 1, used \cup {j}) : j \in (1..Len(a)) \ used})
AsgStep(e) ==
  /\ e[1] = "asg"            \* matrix, cost, assignment
  /\ Holds(
     /\ Len(e[4]) = Len(e[2]) /\ SeqToSet(e[4]) = V0(Len(e[2]))
     /\ e[3] = SumSeq([i \in DOMAIN e[2] |-> e[2][i][e[4][i] + 1]])
     /\ IF Len(e[2]) <= 5 THEN e[3] = BestAssign(e[2], 1, {})
        \* no cyclic exchange of columns between rows improves it
        ELSE NoNegCycle(Len(e[2]), SetToSeq({<<i - 1, j - 1, e[2][i][e[4][j] + 1] - e[2][i][e[4][i] + 1]>> : i \in DOMAIN e[2], j \in DOMAIN e[2]})))
  /\ UNCHANGED st
\* ---------------------------------------------------------------- spanning trees; st = [n, E, best |-> "min" or "max"]
RECURSIVE PrimGo(_, _, _)
PrimGo(pts, T, d) ==         \* d: distance of every point outside T to T
  IF DOMAIN d = {} THEN 0
  ELSE LET x == CHOOSE i \in DOMAIN d : \A j \in DOMAIN d : d[i] <= d[j] IN
       d[x] + PrimGo(pts, T \cup {x}, TLCEval([j \in DOMAIN d \ {x} |-> MinOf(d[j], Abs(pts[x][1] - pts[j][1]) + Abs(pts[x][2] - pts[j][2]))]))
Prim(pts) ==                 \* weight of a minimum spanning tree of points under the Manhattan metric
  LET n == Len(pts) IN IF n = 0 THEN 0 ELSE PrimGo(pts, {1}, [j \in 2..n |-> Abs(pts[1][1] - pts[j][1]) + Abs(pts[1][2] - pts[j][2])])
MstOk(n, E, best, con, w, T) ==
  LET NoWorse(a, b) == IF best = "min" THEN a <= b ELSE a >= b  ncomp == Cardinality(Comps(n, E)) IN
  /\ BagLe(T, E) /\ Len(T) = n - ncomp /\ Cardinality(Comps(n, T)) = ncomp
  /\ con = (ncomp <= 1) /\ w = SumSeq([i \in DOMAIN T |-> T[i][3]])
  /\ \A i \in 1..(Len(T) - 1) : NoWorse(T[i][3], T[i + 1][3])
  /\ \A i \in DOMAIN E : \E c \in Comps(n, SelectSeq(T, LAMBDA x : NoWorse(x[3], E[i][3]))) : E[i][1] \in c /\ E[i][2] \in c
MstStep(e) ==
  \/ e[1] = "add" /\ st' = [st EXCEPT !.E = Append(@, <<e[2], e[3], e[4]>>)]
  \/ e[1] = "build" /\ Holds(MstOk(st.n, st.E, st.best, e[2], e[3], e[4])) /\ UNCHANGED st
  \/ /\ e[1] = "manhattan"    \* points, weight, edges
     /\ Holds(LET n == Len(e[2]) IN
        /\ e[3] = Prim(e[2]) /\ Len(e[4]) = MaxOf(n - 1, 0) /\ (n > 0 => Cardinality(Comps(n, e[4])) = 1)
        /\ \A i \in DOMAIN e[4] : LET a == e[2][e[4][i][1] + 1] b == e[2][e[4][i][2] + 1] IN e[4][i][3] = Abs(a[1] - b[1]) + Abs(a[2] - b[2]))
     /\ UNCHANGED st
  \/ /\ e[1] = "nearest"      \* points, distance of each to its nearest other point
     /\ Holds(\A i \in DOMAIN e[2] : e[3][i] = Min({INFTY} \cup {Abs(e[2][i][1] - e[2][j][1]) + Abs(e[2][i][2] - e[2][j][2]) : j \in DOMAIN e[2] \ {i}}))
     /\ UNCHANGED st
\* ---------------------------------------------------------------- project selection; st = [ks, terms]
\* a term is <<items, table>>: its cost is the table entry selected by the items' values, first item most significant
RECURSIVE Ix(_, _, _)
Ix(ks, items, x) == IF items = <<>> THEN 0 ELSE Ix(ks, SubSeq(items, 1, Len(items) - 1), x) * ks[items[Len(items)] + 1] + x[items[Len(items)] + 1]
CostOf(x) == SumSeq([i \in DOMAIN st.terms |-> st.terms[i][2][Ix(st.ks, st.terms[i][1], x) + 1]])
Assignments(ks) == {x \in [1..Len(ks) -> 0..Max(SeqToSet(ks) \cup {1})] : \A i \in DOMAIN ks : x[i] < ks[i]}
PspStep(e) ==
  \/ e[1] = "term" /\ st' = [st EXCEPT !.terms = Append(@, <<e[2], e[3]>>)]
  \/ /\ e[1] = "min"
     /\ Holds(
       /\ Len(e[3]) = Len(st.ks) /\ (\A i \in DOMAIN st.ks : e[3][i] \in 0..(st.ks[i] - 1)) /\ CostOf(e[3]) = e[2]
       /\ \A x \in Assignments(st.ks) : CostOf(x) >= e[2]
       )
     /\ UNCHANGED st
  \/ e[1] = "alien" /\ e[4] = e[2][e[3] + 1] /\ UNCHANGED st      \* values of a convex/concave function, argument, result
=============================================================================
