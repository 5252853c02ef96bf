---------------------------- MODULE StructMachine ---------------------------
(* Structure of graphs: connectivity, orders, cycles, walks, decompositions. *)
EXTENDS GraphBase, Big
Bag(s) == [x \in SeqToSet(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameBag(s, t) == Len(s) = Len(t) /\ Bag(s) = Bag(t)
Norm(x) == IF x[1] <= x[2] THEN x ELSE [x EXCEPT ![1] = x[2], ![2] = x[1]]
IdSeq(n) == [i \in 1..n |-> i]
\* ---------------------------------------------------------------- connectivity of an undirected graph under construction
Idx(E) == DOMAIN E
NComp(n, E, A, I) == Cardinality(CompsIn(n, E, A, I))
BridgesOf(n, E) == LET c == NComp(n, E, V0(n), Idx(E)) IN {i \in Idx(E) : NComp(n, E, V0(n), Idx(E) \ {i}) > c}     \* 1-based edge indices
RemComps(n, E) == TLCEval([w \in V0(n) |-> CompsIn(n, E, V0(n) \ {w}, Idx(E))])
ArtsOf(n, E) == LET c == Cardinality(Comps(n, E)) r == RemComps(n, E) IN {w \in V0(n) : Cardinality(r[w]) > c}
\* two edges are in one block iff no single vertex separates them
SameBlock(E, r, i, j) ==
  \A w \in DOMAIN r : LET x == {E[i][1], E[i][2]} \ {w}  y == {E[j][1], E[j][2]} \ {w} IN
     \E c \in r[w] : x \subseteq c /\ y \subseteq c
Blocks(n, E) == LET r == RemComps(n, E)  all == Comps(n, E)

                IN IF n = 0 THEN {} ELSE {{j \in Idx(E) : SameBlock(E, r, i, j) /\ (\E c \in all : {E[i][1], E[i][2], E[j][1], E[j][2]} \subseteq c)} : i \in Idx(E)}
VertsOf(E, I) == UNION {{E[i][1], E[i][2]} : i \in I}
LowStep(e) ==
  \/ e[1] = "add" /\ e[4] = Len(st.E) /\ st' = [st EXCEPT !.E = Append(@, <<e[2], e[3]>>)]
  \/ /\ e[1] = "low"        \* bridge ids, articulation points, #components, per edge is_bridge & components without it, per vertex is_art & components without it, pre
     /\ Holds(
       /\ LET n == st.n  E == st.E  br == BridgesOf(n, E)  all == Comps(n, E)  r == RemComps(n, E) IN
          /\ NoDup(e[2]) /\ {i + 1 : i \in SeqToSet(e[2])} = br
          /\ NoDup(e[3]) /\ SeqToSet(e[3]) = {w \in V0(n) : Cardinality(r[w]) > Cardinality(all)}
          /\ e[4] = Cardinality(all)
          /\ \A i \in Idx(E) : e[5][i] = (i \in br) /\ e[6][i] = Cardinality(all) + (IF i \in br THEN 1 ELSE 0)
          /\ \A w \in V0(n) : e[7][w + 1] = (Cardinality(r[w]) > Cardinality(all)) /\ e[8][w + 1] = Cardinality(r[w])
          /\ SeqToSet(e[9]) = V0(n)
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "tecc"       \* component of each vertex, number, groups, reduced forest
     /\ Holds(
       /\ LET n == st.n  E == st.E  br == BridgesOf(n, E)  cs == CompsIn(n, E, V0(n), Idx(E) \ br)  c == Fn(e[2]) IN
          /\ e[3] = Cardinality(cs) /\ \A v \in V0(n) : c[v] \in 0..(e[3] - 1)
          /\ {{v \in V0(n) : c[v] = k} : k \in 0..(e[3] - 1)} = cs
          /\ Len(e[4]) = e[3] /\ \A k \in 1..e[3] : NoDup(e[4][k]) /\ SeqToSet(e[4][k]) = {v \in V0(n) : c[v] = k - 1}
          /\ Len(e[5]) = e[3]
          /\ \A k \in 1..e[3] : NoDup(e[5][k]) /\ SeqToSet(e[5][k]) = {<<c[E[i][2]], i - 1>> : i \in {j \in br : c[E[j][1]] = k - 1}} \cup {<<c[E[i][1]], i - 1>> : i \in {j \in br : c[E[j][2]] = k - 1}}
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "bcc"        \* block of each edge, #blocks, isolated vertices, component_num, components (vertices, edges), isolated flags
     /\ Holds(
       /\ LET n == st.n  E == st.E  bl == Blocks(n, E)  k == e[3]
              iso == {v \in V0(n) : \A i \in Idx(E) : v # E[i][1] /\ v # E[i][2]} IN
          /\ k = Cardinality(bl) /\ {{i \in Idx(E) : e[2][i] = b} : b \in 0..(k - 1)} = bl
          /\ NoDup(e[4]) /\ SeqToSet(e[4]) = iso /\ e[5] = k + Cardinality(iso) /\ Len(e[6]) = e[5]
          /\ \A b \in 1..k : /\ NoDup(e[6][b][1]) /\ NoDup(e[6][b][2])
                             /\ {i + 1 : i \in SeqToSet(e[6][b][2])} = {i \in Idx(E) : e[2][i] = b - 1}
                             /\ SeqToSet(e[6][b][1]) = VertsOf(E, {i \in Idx(E) : e[2][i] = b - 1})
          /\ \A b \in (k + 1)..e[5] : e[6][b] = <<<<e[4][b - k]>>, <<>>>>
          /\ \A b \in 1..e[5] : e[7][b] = (b > k)
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "bcf"        \* block of each edge, isolated vertices, articulation points, size, adjacency, vertex numbers, component of each vertex, flags (art, iso)
     /\ Holds(
       /\ LET n == st.n  E == st.E  k == Cardinality({e[2][i] : i \in Idx(E)})  z == Len(e[3])  a == Len(e[4])
              VB == [b \in 0..(k + z - 1) |-> IF b < k THEN VertsOf(E, {i \in Idx(E) : e[2][i] = b}) ELSE {e[3][b - k + 1]}]
              artv == [b \in (k + z)..(k + z + a - 1) |-> e[4][b - k - z + 1]] IN
          /\ e[5] = k + z + a /\ Len(e[6]) = e[5]
          /\ \A b \in 0..(e[5] - 1) :
               /\ NoDup(e[6][b + 1])
               /\ SeqToSet(e[6][b + 1]) = IF b < k + z THEN {x \in DOMAIN artv : artv[x] \in VB[b]} ELSE {x \in DOMAIN VB : artv[b] \in VB[x]}
               /\ e[7][b + 1] = IF b < k + z THEN Cardinality(VB[b]) ELSE 1
               /\ e[9][b + 1] = <<b >= k + z, b >= k /\ b < k + z>>
          /\ \A v \in V0(n) : e[8][v + 1] \in DOMAIN VB /\ v \in VB[e[8][v + 1]]
       )
     /\ UNCHANGED st
\* ---------------------------------------------------------------- orders and cycles
OrderStep(e) ==
  \/ /\ e[1] = "topo"       \* n, E, is_dag, order
     /\ Holds(
       /\ e[4] = IsDag(e[2], e[3])
       /\ e[4] => /\ Len(e[5]) = e[2] /\ SeqToSet(e[5]) = V0(e[2])
                  /\ LET at == [v \in V0(e[2]) |-> CHOOSE i \in 1..e[2] : e[5][i] = v] IN \A i \in DOMAIN e[3] : at[e[3][i][1]] < at[e[3][i][2]]
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "bigtour"    \* half sizes of the blocks, <<size, least, greatest>> of every component
     /\ Holds(LET Off[i \in 0..Len(e[2])] == IF i = 0 THEN 0 ELSE Off[i - 1] + 2 * e[2][i] + 1 IN e[3] = [i \in 1..Len(e[2]) |-> <<2 * e[2][i] + 1, Off[i - 1], Off[i] - 1>>]) /\ UNCHANGED st
  \/ /\ e[1] = "scct"       \* n, E (tournament), components in order
     /\ Holds(
       /\ ListsPartition(e[4], Sccs(e[2], e[3]))
       /\ LET c == [v \in V0(e[2]) |-> CHOOSE i \in DOMAIN e[4] : v \in SeqToSet(e[4][i])] IN \A i \in DOMAIN e[3] : c[e[3][i][1]] <= c[e[3][i][2]]
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "cycle"      \* n, E (weighted), directed, found, edges (to, weight) of the cycle
     /\ Holds(
       /\ LET n == e[2]  E == e[3]  acyc == IF e[4] THEN IsDag(n, E) ELSE Len(E) + Cardinality(Comps(n, E)) = n IN
          /\ e[5] = ~acyc
          /\ e[5] => LET c == e[6]  k == Len(c)
                         use == [i \in 1..k |-> <<c[IF i = 1 THEN k ELSE i - 1][1], c[i][1], c[i][2]>>]
                         U(x) == IF e[4] THEN x ELSE Norm(x)
                         have == Bag([i \in DOMAIN E |-> U(E[i])])
                         want == Bag([i \in 1..k |-> U(use[i])])
                     IN k >= 1 /\ NoDup([i \in 1..k |-> c[i][1]]) /\ \A x \in DOMAIN want : x \in DOMAIN have /\ want[x] <= have[x]
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "bip"        \* n, E, c0, c1, found, colours
     /\ Holds(
       /\ LET n == e[2]  E == e[3]  cov == [v \in 0..(2 * n - 1) |-> 0]
              \* double cover: 2u+p; bipartite iff no vertex is connected to its own copy
              dc == FlattenSeq([i \in DOMAIN E |-> <<<<2 * E[i][1], 2 * E[i][2] + 1>>, <<2 * E[i][1] + 1, 2 * E[i][2]>>>>])
              cs == Comps(2 * n, dc)
              isb == \A v \in V0(n) : \A c \in cs : ~(2 * v \in c /\ 2 * v + 1 \in c)
          IN /\ e[6] = isb
             /\ isb => Len(e[7]) = n /\ (\A v \in 1..n : e[7][v] \in {e[4], e[5]}) /\ \A i \in DOMAIN E : e[7][E[i][1] + 1] # e[7][E[i][2] + 1]
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "dedup"
     /\ Holds(
       /\ Len(e[3]) = Len(e[2])
       /\ \A i \in DOMAIN e[2] : NoDup(e[3][i]) /\ SeqToSet(e[3][i]) = SeqToSet(e[2][i])
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "tri"        \* n, E, triangles
     /\ Holds(
       /\ LET adj == OutOf(e[2], Both(e[3])) IN
          /\ {SeqToSet(e[4][i]) : i \in DOMAIN e[4]} = UNION {UNION {{{a, b, c} : c \in {x \in adj[a] \cap adj[b] : x > b}} : b \in {x \in adj[a] : x > a}} : a \in V0(e[2])}
          /\ Len(e[4]) = Cardinality({SeqToSet(e[4][i]) : i \in DOMAIN e[4]})
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "cliques"
     /\ Holds(
       /\ LET adj == OutOf(e[2], Both(e[3])) IN
          /\ {SeqToSet(e[4][i]) : i \in DOMAIN e[4]} = {t \in (SUBSET V0(e[2])) \ {{}} : \A x \in t : t \ {x} \subseteq adj[x]}
          /\ Len(e[4]) = Cardinality({SeqToSet(e[4][i]) : i \in DOMAIN e[4]}) /\ \A i \in DOMAIN e[4] : NoDup(e[4][i])
       )
     /\ UNCHANGED st
\* ---------------------------------------------------------------- Eulerian walks; st = [n, E, dir]
EulAdj(u) == {i \in DOMAIN st.E : st.E[i][1] = u}
Deg(u) == Cardinality({i \in DOMAIN st.E : st.E[i][1] = u}) + Cardinality({i \in DOMAIN st.E : st.E[i][2] = u})
OutD(u) == Cardinality({i \in DOMAIN st.E : st.E[i][1] = u})
InD(u) == Cardinality({i \in DOMAIN st.E : st.E[i][2] = u})
OneComp == Cardinality({c \in Comps(st.n, st.E) : \E i \in DOMAIN st.E : st.E[i][1] \in c}) <= 1
Covers(w) ==    \* the walk w uses every edge exactly once
  LET U(x) == IF st.dir THEN x ELSE Norm(x) IN
  Len(w) = Len(st.E) + 1 /\ SameBag([i \in 1..(Len(w) - 1) |-> U(<<w[i], w[i + 1]>>)], [i \in DOMAIN st.E |-> U(st.E[i])])
Balanced == \A u \in V0(st.n) : IF st.dir THEN OutD(u) = InD(u) ELSE Deg(u) % 2 = 0
EulerStep(e) ==
  \/ e[1] = "add" /\ st' = [st EXCEPT !.E = Append(@, <<e[2], e[3]>>)]
  \/ /\ e[1] = "circuit"     \* start or -1, found, walk
     /\ Holds(
       /\ e[3] = (Balanced /\ OneComp /\ (e[2] < 0 \/ st.E = <<>> \/ Deg(e[2]) > 0))
       /\ e[3] => Covers(e[4]) /\ e[4][1] = e[4][Len(e[4])] /\ (e[2] >= 0 => e[4][1] = e[2])
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "trail"       \* different endpoints required, found, walk
     /\ Holds(
       /\ LET odd == {u \in V0(st.n) : IF st.dir THEN OutD(u) # InD(u) ELSE Deg(u) % 2 = 1}
              two == Cardinality(odd) = 2 /\ \A u \in odd : Abs(OutD(u) - InD(u)) <= 1 \/ ~st.dir
          IN /\ e[3] = (OneComp /\ (two \/ (Balanced /\ ~e[2])))
             /\ e[3] => Covers(e[4]) /\ (e[2] => e[4][1] # e[4][Len(e[4])])
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "graph"       \* adjacency lists: answering questions left the graph alone
     /\ Holds(
       /\ \A u \in V0(st.n) : SameBag(e[2][u + 1], FlattenSeq([i \in DOMAIN st.E |-> (IF st.E[i][1] = u THEN <<st.E[i][2]>> ELSE <<>>) \o (IF ~st.dir /\ st.E[i][2] = u THEN <<st.E[i][1]>> ELSE <<>>)]))
       )
     /\ UNCHANGED st
\* ---------------------------------------------------------------- functional graph; st = next function
RECURSIVE WalkUntil(_, _)
WalkUntil(nx, s) == LET v == nx[s[Len(s)]] IN IF \E i \in DOMAIN s : s[i] = v THEN s ELSE WalkUntil(nx, Append(s, v))
RhoOf(u) == LET s == WalkUntil(st, <<u>>) IN [seq |-> s, mu |-> (CHOOSE i \in DOMAIN s : s[i] = st[s[Len(s)]]) - 1]
IterOf(r, k) == LET lam == Len(r.seq) - r.mu IN IF BLt(k, Len(r.seq)) THEN r.seq[BInt(k) + 1] ELSE r.seq[r.mu + BInt(BMod(BSub(k, r.mu), lam)) + 1]
Iter(u, k) == IterOf(RhoOf(u), k)
\* sum of the first k values of a function g on the walk, modulo PR
WalkSum(u, k, g) ==
  LET r == RhoOf(u)  lam == Len(r.seq) - r.mu
      S(a, b) == FoldLeft(LAMBDA x, i : (x + g[r.seq[i]]) % PR, 0, [j \in 1..(b - a + 1) |-> a + j - 1])      \* positions a..b of seq
  IN IF BLe(k, r.mu) THEN S(1, BInt(k))
     ELSE LET rest == BSub(k, r.mu)  q == BDiv(rest, lam)  t == BInt(BMod(rest, lam))
          IN BInt(BMod(BAdd(BAdd(S(1, r.mu), BMul(q, S(r.mu + 1, Len(r.seq)))), S(r.mu + 1, r.mu + t)), PR))
\* vertices and prefix sums along the walk from u until a sum exceeds B (or the sums have visibly stopped growing)
RECURSIVE Table(_, _, _)
Table(g, B, t) == LET l == t[Len(t)] IN IF l[2] > B \/ Len(t) > (B + 2) * (Cardinality(DOMAIN st) + 1) THEN t ELSE Table(g, B, Append(t, <<st[l[1]], l[2] + g[l[1]]>>))
WalkTable(u, g, B) == Table(g, B, <<<<u, 0>>>>)
FgStep(e) ==
  \/ e[1] = "set" /\ st' = [st EXCEPT ![e[2]] = e[3]]
  \/ /\ e[1] = "inf"        \* per vertex head_v, head_len, loop_v, loop_len
     /\ Holds(
       /\ \A u \in DOMAIN st : LET r == RhoOf(u) IN e[2][u + 1] = <<u, r.mu, r.seq[r.mu + 1], Len(r.seq) - r.mu>>
       )
     /\ UNCHANGED st
  \/ e[1] = "kth" /\ (\A u \in DOMAIN st : e[3][u + 1] = Iter(u, e[2])) /\ UNCHANGED st
  \/ e[1] = "query" /\ e[4] = Iter(e[2], e[3]) /\ UNCHANGED st
  \/ e[1] = "sum" /\ e[5] = Iter(e[2], e[3]) /\ e[6] = WalkSum(e[2], e[3], Fn(e[4])) /\ UNCHANGED st
  \/ /\ e[1] = "osum"       \* u, k small, values (affine maps), v, product in walk order
     /\ Holds(
       /\ e[5] = Iter(e[2], e[3])
       /\ e[6] = FoldLeft(LAMBDA x, i : LET f == e[4][Iter(e[2], i) + 1] IN <<(x[1] * f[1]) % PR, ((x[2] * f[1]) + f[2]) % PR>>, <<1, 0>>, [i \in 1..e[3] |-> i - 1])
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "maxstep"    \* u, bound B, step limit M, v, step: predicate "vertex <= B", monotone on this walk
     /\ Holds(
       /\ LET good == {u \in DOMAIN st : u <= e[3]}  s == WalkUntil(st, <<e[2]>>)
              bad == {i \in DOMAIN s : s[i] > e[3]}  first == IF bad = {} THEN -1 ELSE Min(bad) - 1 IN
          /\ e[5] = Iter(e[2], e[6]) /\ e[5] <= e[3]
          /\ IF first >= 0 /\ BLe(first, e[4]) THEN BEq(e[6], first - 1) ELSE BLe(e[4], e[6])
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "until"      \* u, bound B, step limit M, found, v, step: first vertex with index >= B
     /\ Holds(
       /\ LET s == WalkUntil(st, <<e[2]>>)  hit == {i \in DOMAIN s : s[i] >= e[3]}  k == IF hit = {} THEN -1 ELSE Min(hit) - 1 IN
          /\ IF k < 0 THEN ~e[5] ELSE (BLe(k, e[4]) => e[5])
          /\ e[5] => BEq(e[7], k) /\ e[6] = s[k + 1]
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "sumuntil"   \* u, values, bound B, limit M, found, v, sum, step: first prefix sum >= B (values >= 0)
     /\ Holds(
       /\ LET w == WalkTable(e[2], Fn(e[3]), e[4] - 1)  k == Len(w) - 1  hit == w[Len(w)][2] >= e[4] IN
          IF hit /\ BLe(k, e[5]) THEN e[6] /\ BEq(e[9], k) /\ e[8] = w[Len(w)][2] /\ e[7] = w[Len(w)][1]
          ELSE e[6] => hit /\ BEq(e[9], k)
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "summax"     \* u, values, bound B, limit M, v, sum, step: longest prefix with sum <= B
     /\ Holds(
       /\ LET w == WalkTable(e[2], Fn(e[3]), e[4])  k == Len(w) - 1  over == w[Len(w)][2] > e[4] IN
          /\ IF over /\ BLe(k, e[5]) THEN BEq(e[8], k - 1) ELSE BLe(e[5], e[8])
          /\ e[6] = Iter(e[2], e[8]) /\ (BLe(e[8], k) => e[7] = w[BInt(e[8]) + 1][2]) /\ e[7] <= e[4]
       )
     /\ UNCHANGED st
\* ---------------------------------------------------------------- tree decompositions of width 2
RECURSIVE Series(_, _)
\* A: remaining vertices, adj on A; treewidth <= 2 iff vertices of degree <= 2 can be eliminated one by one
Series(A, adj) ==
  IF A = {} THEN TRUE
  ELSE LET low == {v \in A : Cardinality(adj[v]) <= 2} IN
       IF low = {} THEN FALSE
       ELSE LET v == CHOOSE x \in low : TRUE  N == adj[v] IN
            Series(A \ {v}, TLCEval([u \in A \ {v} |-> IF u \in N THEN (adj[u] \cup N) \ {u, v} ELSE adj[u]]))
Tw2(n, E) == LET adj == OutOf(n, Both(E)) IN Series(V0(n), [u \in V0(n) |-> adj[u] \ {u}])
\* bags: 1-based sequence of vertex lists; TE: tree edges as a sequence of 0-based pairs
ValidTD(n, E, bags, TE) ==
  LET k == Len(bags)  B == [i \in V0(k) |-> SeqToSet(bags[i + 1])] IN
  /\ \A i \in V0(k) : Cardinality(B[i]) <= 3 /\ B[i] \subseteq V0(n) /\ NoDup(bags[i + 1])
  /\ Len(TE) = k - 1 /\ Cardinality(Comps(k, TE)) = 1
  /\ \A i \in DOMAIN E : \E b \in V0(k) : {E[i][1], E[i][2]} \subseteq B[b]
  /\ \A v \in V0(n) : LET A == {b \in V0(k) : v \in B[b]} IN A # {} /\ Cardinality(CompsIn(k, TE, A, DOMAIN TE)) = 1
\* number of independent sets inside A: those without the vertex v, and those with it (v of largest degree, so that the rest falls apart)
RECURSIVE CountIS(_, _)
CountIS(A, adj) ==
  IF \A v \in A : adj[v] \cap A = {} THEN 2 ^ Cardinality(A)
  ELSE LET d == [v \in A |-> Cardinality(adj[v] \cap A)]  v == CHOOSE x \in A : \A y \in A : d[x] >= d[y] IN CountIS(A \ {v}, adj) + CountIS(A \ (adj[v] \cup {v}), adj)
\* par proves that the graph is part of a 2-tree; then a decomposition exists: a tree whose bags of at most three vertices cover the edges,
\* in which the nodes holding a vertex are one more than the tree edges both ends of which hold it (a subforest with one tree)
TwBig(n, par, E, found, bags, TE) ==
  LET join(a, b) == {a, b} = {0, 1} \/ (b > 1 /\ (par[b + 1][1] = a \/ par[b + 1][2] = a)) \/ (a > 1 /\ (par[a + 1][1] = b \/ par[a + 1][2] = b))
      B == [i \in 1..Len(bags) |-> SeqToSet(bags[i])]
      At0 == [v \in 0..n-1 |-> {i \in 1..Len(bags) : v \in B[i]}]
      ends(S) == Cardinality({t \in DOMAIN TE : TE[t][1] + 1 \in S /\ TE[t][2] + 1 \in S})
  IN /\ \A i \in 3..n : par[i][1] < i - 1 /\ par[i][2] < i - 1 /\ par[i][1] # par[i][2] /\ join(par[i][1], par[i][2])
     /\ \A x \in DOMAIN E : join(E[x][1], E[x][2])
     /\ found
     /\ Len(TE) = Len(bags) - 1
     /\ \A i \in 1..Len(bags) : Len(bags[i]) <= 3 /\ Cardinality(B[i]) = Len(bags[i]) /\ B[i] \subseteq 0..n-1
     /\ \A x \in DOMAIN E : At0[E[x][1]] \cap At0[E[x][2]] # {}
     /\ \A v \in 0..n-1 : Cardinality(At0[v]) = ends(At0[v]) + 1
TwStep(e) ==
  \/ /\ e[1] = "twbig"
     /\ Holds(TwBig(e[2], e[3], e[4], e[5], e[6], e[7]))
     /\ UNCHANGED st
  \/ /\ e[1] = "decomp"     \* n, E, found, bags, adjacency
     /\ Holds(
       /\ e[4] = Tw2(e[2], e[3])
       /\ e[4] => LET half == FlattenSeq([i \in DOMAIN e[6] |-> FlattenSeq([j \in DOMAIN e[6][i] |-> IF e[6][i][j] > i - 1 THEN <<<<i - 1, e[6][i][j]>>>> ELSE <<>>])]) IN
                  /\ ValidTD(e[2], e[3], e[5], half)
                  /\ \A i \in DOMAIN e[6] : \A j \in DOMAIN e[6][i] : \E x \in DOMAIN e[6][e[6][i][j] + 1] : e[6][e[6][i][j] + 1][x] = i - 1
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "nice"       \* n, E, found, bags, parents, children, types
     /\ Holds(
       /\ e[4] = Tw2(e[2], e[3])
       /\ e[4] => LET k == Len(e[5])  TE == SelectSeq([i \in 1..k |-> <<i - 1, e[6][i]>>], LAMBDA x : x[2] >= 0)
                      B(i) == SeqToSet(e[5][i + 1]) IN
                  /\ ValidTD(e[2], e[3], e[5], TE)
                  /\ e[6][1] = -1 /\ \A i \in 2..k : e[6][i] >= 0
                  /\ \A i \in 1..k : LET ch == e[7][i] IN
                       /\ NoDup(ch) /\ SeqToSet(ch) = {j \in V0(k) : e[6][j + 1] = i - 1} /\ Len(ch) <= 2
                       /\ Len(ch) = 2 => B(ch[1]) = B(i - 1) /\ B(ch[2]) = B(i - 1) /\ e[8][i] = "join"
                       /\ Len(ch) = 1 => \/ FALSE
                                         \/ e[8][i] = "introduce" /\ B(ch[1]) \subseteq B(i - 1) /\ Cardinality(B(i - 1)) = Cardinality(B(ch[1])) + 1
                                         \/ e[8][i] = "forget" /\ B(i - 1) \subseteq B(ch[1]) /\ Cardinality(B(i - 1)) + 1 = Cardinality(B(ch[1]))
                       /\ Len(ch) = 0 => Cardinality(B(i - 1)) = 1 /\ e[8][i] = "leaf"
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "isets"      \* n, E, number of independent sets found by the dynamic programme
     /\ Holds(
       /\ e[4] = CountIS(V0(e[2]), OutOf(e[2], Both(e[3])))
       )
     /\ UNCHANGED st
\* ---------------------------------------------------------------- compressed adjacency; st = [adj |-> function to sequences of <<v, w>>]
CsrInit(p) ==   \* n, E (weighted), undirected
  LET n == p[1]  E == p[2] IN
  [n |-> n, adj |-> [u \in V0(n) |-> FlattenSeq([i \in DOMAIN E |-> (IF E[i][1] = u THEN <<<<E[i][2], E[i][3]>>>> ELSE <<>>) \o (IF p[3] /\ E[i][2] = u THEN <<<<E[i][1], E[i][3]>>>> ELSE <<>>)])]]
SetAdj(u, s) == st' = [st EXCEPT !.adj[u] = s]
EdgesOf(adj, n) == FlattenSeq([i \in 1..n |-> [j \in DOMAIN adj[i - 1] |-> <<i - 1, adj[i - 1][j][1], adj[i - 1][j][2]>>]])
CsrStep(e) ==
  \/ e[1] = "lists" /\ Fn(e[2]) = st.adj /\ UNCHANGED st
  \/ e[1] = "at" /\ e[4] = st.adj[e[2]][e[3] + 1] /\ UNCHANGED st
  \/ e[1] = "ends" /\ e[3] = st.adj[e[2]][1] /\ e[4] = st.adj[e[2]][Len(st.adj[e[2]])] /\ e[5] = Reverse(st.adj[e[2]]) /\ UNCHANGED st
  \/ e[1] = "setat" /\ SetAdj(e[2], [st.adj[e[2]] EXCEPT ![e[3] + 1] = e[4]])
  \/ e[1] = "push" /\ SetAdj(e[2], Append(st.adj[e[2]], e[3]))
  \/ e[1] = "pop" /\ SetAdj(e[2], SubSeq(st.adj[e[2]], 1, Len(st.adj[e[2]]) - 1))
  \/ e[1] = "clear" /\ SetAdj(e[2], <<>>)
  \/ e[1] = "erase" /\ SetAdj(e[2], Splice(st.adj[e[2]], e[3], e[4], <<>>))
  \/ e[1] = "insert" /\ SetAdj(e[2], Splice(st.adj[e[2]], e[3], e[3], e[4]))
  \/ /\ e[1] = "rev"
     /\ Holds(
       \* every edge turned round, whatever the order inside a list
       /\ LET all == EdgesOf(st.adj, st.n) IN Len(e[2]) = st.n /\ \A v \in V0(st.n) : LET into == SelectSeq(all, LAMBDA x : x[2] = v) IN SameBag(e[2][v + 1], [i \in DOMAIN into |-> <<into[i][1], into[i][3]>>])
       )
     /\ UNCHANGED st
  \/ /\ e[1] = "dfs"       \* start, undirected, par, pre, post, tree lists, back lists
     /\ Holds(
       /\ LET n == st.n  par == Fn(e[4])  pre == [v \in V0(n) |-> CHOOSE i \in 1..n : e[5][i] = v]  pst == [v \in V0(n) |-> CHOOSE i \in 1..n : e[6][i] = v]
              all == EdgesOf(st.adj, n)
              Anc(a, v) == pre[a] <= pre[v] /\ pst[v] <= pst[a]
              tree == EdgesOf(Fn(e[7]), n)  back == EdgesOf(Fn(e[8]), n) IN
          /\ Len(e[5]) = n /\ Len(e[6]) = n /\ SeqToSet(e[5]) = V0(n) /\ SeqToSet(e[6]) = V0(n)
          /\ \A v \in V0(n) : par[v] >= 0 => par[v] # v /\ Anc(par[v], v) /\ \A a \in V0(n) : (a # v /\ Anc(a, v)) => Anc(a, par[v])
          /\ \A v \in V0(n) : par[v] < 0 => par[v] = -1 /\ \A a \in V0(n) : a # v => ~Anc(a, v)
          /\ \A u, v \in V0(n) : pre[u] < pre[v] => Anc(u, v) \/ pst[u] < pst[v]
          \* depth-first: an edge never leads from a finished vertex to one visited later
          /\ \A i \in DOMAIN all : pre[all[i][1]] < pre[all[i][2]] => Anc(all[i][1], all[i][2])
          \* roots are taken in cyclic order from start
          /\ \A v \in V0(n) : par[v] = -1 => \A u \in V0(n) : ((u - e[2] + n) % n < (v - e[2] + n) % n) => pre[u] < pre[v]
          /\ Len(tree) = Cardinality({v \in V0(n) : par[v] >= 0})
          /\ \A i \in DOMAIN tree : par[tree[i][2]] = tree[i][1] /\ \E j \in DOMAIN all : all[j] = tree[i]
          /\ NoDup([i \in DOMAIN tree |-> tree[i][2]])
          /\ e[3] => /\ SameBag([i \in DOMAIN tree |-> Norm(tree[i])] \o [i \in DOMAIN back |-> Norm(back[i])], [i \in DOMAIN SelectSeq(all, LAMBDA x : x[1] < x[2]) |-> SelectSeq(all, LAMBDA x : x[1] < x[2])[i]])
                     /\ \A i \in DOMAIN back : Anc(back[i][2], back[i][1])
       )
     /\ UNCHANGED st
=============================================================================
