---------------------------- MODULE TreeMachine -----------------------------
(* Queries on a fixed tree or forest, and tree isomorphism classes.         *)
EXTENDS TreeBase, Big
\* p = <<n, edges, roots, values>>
TreeInit(p) == LET adj == AdjOf(p[1], p[2])  pd == RootedAt(adj, SeqToSet(p[3])) IN
   [n |-> p[1], adj |-> adj, par |-> ParOf(pd), dep |-> [u \in DOMAIN pd |-> pd[u][2]], val |-> p[4], roots |-> SeqToSet(p[3])]
Keep == UNCHANGED st
V0 == 0..st.n-1
At(s, u) == s[u + 1]
PVal(path) == [i \in DOMAIN path |-> At(st.val, path[i])]
SumM(s) == FoldLeft(LAMBDA a, x : (a + x) % PR, 0, s)
TP(u, v) == TreePath(st.par, u, v)
\* the vertices of a path without the topmost one (edge queries live on the lower ends)
NoTop(path, u, v) == LET a == LcaOf(st.par, u, v) IN SelectSeq(path, LAMBDA w : w # a)
QPath(u, v, edge) == IF edge THEN NoTop(TP(u, v), u, v) ELSE TP(u, v)
IsPerm(s, S) == Len(s) = Cardinality(S) /\ SeqToSet(s) = S
\* heavy-light numbering: exact parents, depths, sizes; preorder; heads
HldOk(visit, leave, head, ord, siz, par, dep, roots) ==
  /\ IsPerm(visit, V0)
  /\ \A u \in V0 : /\ ord[At(visit, u) + 1] = u
                   /\ At(par, u) = st.par[u] /\ At(dep, u) = st.dep[u]
                   /\ At(siz, u) = Cardinality(SubtreeOf(st.par, u))
                   /\ At(leave, u) = At(visit, u) + At(siz, u)
                   /\ st.par[u] >= 0 => At(visit, st.par[u]) < At(visit, u) /\ At(leave, u) <= At(leave, st.par[u])
                   /\ LET ch == {w \in V0 : st.par[w] = u} IN
                        ch # {} => LET hs == {w \in ch : At(head, w) = At(head, u)} IN
                                   /\ Cardinality(hs) = 1
                                   /\ \A h \in hs : At(visit, h) = At(visit, u) + 1 /\ \A w \in ch : At(siz, w) <= At(siz, h)
                                   /\ \A w \in ch \ hs : At(head, w) = w
                   /\ st.par[u] < 0 => At(head, u) = u
  /\ IsPerm(roots, st.roots)
EulerOk(visit, leave, par, dep) ==
  /\ {At(visit, u) : u \in V0} \cup {At(leave, u) : u \in V0} = 0..2*st.n-1
  /\ \A u \in V0 : At(par, u) = st.par[u] /\ At(dep, u) = st.dep[u] /\ At(visit, u) < At(leave, u)
                   /\ st.par[u] >= 0 => At(visit, st.par[u]) < At(visit, u) /\ At(leave, u) < At(leave, st.par[u])
\* auxiliary (virtual) tree of S: closure under lca, each vertex tied to its nearest ancestor in it
Closure(S) == {LcaOf(st.par, q[1], q[2]) : q \in S \X S}
NearAnc(C, u) == LET a == RootPath(st.par, u)  is == {i \in 1..Len(a)-1 : a[i] \in C} IN IF is = {} THEN -1 ELSE a[Max(is)]
AuxAdj(S) == LET C == Closure(S)  near == [u \in C |-> NearAnc(C, u)] IN
   [u \in V0 |-> IF u \notin C THEN {} ELSE {w \in C : near[w] = u} \cup ({near[u]} \ {-1})]
\* centroid decomposition
RECURSIVE Reach(_, _, _)
Reach(front, seen, ok) == IF front = {} THEN seen ELSE LET nx == (UNION {st.adj[u] : u \in front} \cap ok) \ seen IN Reach(nx, seen \cup nx, ok)
Deeper(cdep, c) == {v \in V0 : At(cdep, v) > At(cdep, c)}
Comp(cdep, c) == Reach({c}, {c}, Deeper(cdep, c))
CdOk(cpar, cdep, csiz) ==
  \A c \in V0 : LET K == Comp(cdep, c) IN
    /\ At(csiz, c) = Cardinality(K)
    /\ IF At(cdep, c) = 0 THEN At(cpar, c) = -1 ELSE At(cdep, At(cpar, c)) = At(cdep, c) - 1 /\ c \in Comp(cdep, At(cpar, c))
    /\ \A v \in st.adj[c] \cap K : 2 * Cardinality(Reach({v}, {v}, K \ {c})) <= Cardinality(K)
    /\ At(cdep, c) = 0 => K = V0
    /\ \A v \in K \ {c} : At(cdep, v) > At(cdep, c)
CollectOk(cdep, c, val0, res, D(_, _)) ==
  LET K == Comp(cdep, c)
      lab(S) == {<<v, val0 + D(c, v)>> : v \in S}
      brs == {lab(Reach({v}, {v}, K \ {c})) : v \in st.adj[c] \cap K}
  IN /\ Len(res) >= 1 /\ Len(res[1]) = Cardinality(K) /\ SeqToSet(res[1]) = lab(K) /\ res[1][1] = <<c, val0>>
     /\ Len(res) - 1 = Cardinality(brs) /\ {SeqToSet(res[i]) : i \in 2..Len(res)} = brs
     /\ \A i \in 2..Len(res) : Len(res[i]) = Cardinality(SeqToSet(res[i]))
Centroids == {c \in V0 : \A v \in st.adj[c] : 2 * Cardinality(Reach({v}, {v}, V0 \ {c})) <= st.n}
PairsAt(k) == Cardinality({q \in V0 \X V0 : q[1] < q[2] /\ DistOf(st.par, q[1], q[2]) = k})
WDist(u, v) == SumSeq(PVal(NoTop(TP(u, v), u, v)))     \* edge weights live on the lower ends
TreeStep(e) ==
  CASE e[1] = "lca" -> e[4] = LcaOf(st.par, e[2], e[3]) /\ Keep
    [] e[1] = "dist" -> e[4] = DistOf(st.par, e[2], e[3]) /\ Keep
    [] e[1] = "la" -> e[4] = (LET a == RootPath(st.par, e[2]) IN IF 0 <= e[3] /\ e[3] < Len(a) THEN a[Len(a) - e[3]] ELSE -1) /\ Keep
    [] e[1] = "jump" -> e[5] = (LET a == TP(e[2], e[3]) IN IF 0 <= e[4] /\ e[4] < Len(a) THEN a[e[4] + 1] ELSE -1) /\ Keep
    [] e[1] = "path" -> e[4] = TP(e[2], e[3]) /\ Keep
    [] e[1] = "hld" -> HldOk(e[2], e[3], e[4], e[5], e[6], e[7], e[8], e[9]) /\ Keep
    [] e[1] = "euler" -> EulerOk(e[2], e[3], e[4], e[5]) /\ Keep
    [] e[1] = "foldp" -> e[5] = SumM(PVal(QPath(e[2], e[3], e[4]))) /\ Keep
    [] e[1] = "foldnc" -> e[5] = FoldOf(PVal(QPath(e[2], e[3], e[4]))) /\ Keep
    [] e[1] = "updp" -> IsPerm(e[5], SeqToSet(QPath(e[2], e[3], e[4]))) /\ Keep
    [] e[1] = "subt" -> IsPerm(e[4], SubtreeOf(st.par, e[2]) \ (IF e[3] THEN {e[2]} ELSE {})) /\ Keep
    [] e[1] = "lav" -> /\ Keep /\ IsPerm(e[2], V0) /\ \A u \in V0 : At(e[3], At(e[2], u)) = u /\ At(e[4], u) = st.dep[u]
                       /\ \A u \in V0 : st.par[u] >= 0 => At(e[2], st.par[u]) < At(e[2], u)
    [] e[1] = "aux" -> LET A == AuxAdj(SeqToSet(e[2])) IN (\A u \in V0 : IsPerm(At(e[3], u), A[u])) /\ Keep
    [] e[1] = "cd" -> CdOk(e[2], e[3], e[4]) /\ Keep
    [] e[1] = "collect" -> CollectOk(e[2], e[3], e[4], e[5], LAMBDA u, v : DistOf(st.par, u, v)) /\ Keep
    [] e[1] = "wcollect" -> CollectOk(e[2], e[3], e[4], e[5], WDist) /\ Keep
    [] e[1] = "centroids" -> IsPerm(e[2], Centroids) /\ Keep
    [] e[1] = "freq" -> Len(e[2]) = st.n /\ (\A k \in 1..st.n-1 : At(e[2], k) = PairsAt(k)) /\ Keep
    [] OTHER -> FALSE
\* large trees with a closed form: path and star on n vertices
BigTreeStep(e) ==
  CASE e[1] = "pathfreq" -> e[4] = e[2] - e[3] /\ Keep                        \* n, k, count
    [] e[1] = "starfreq" -> BEq(e[4], IF e[3] = 1 THEN e[2] - 1 ELSE IF e[3] = 2 THEN BDiv(BMul(e[2] - 1, e[2] - 2), 2) ELSE 0) /\ Keep
    [] OTHER -> FALSE
\* isomorphism: st is the set of <<id, canonical form>> handed out so far by one classifier
IdsOk(S) == \A a \in S, b \in S : (a[1] = b[1]) = (a[2] = b[2])
IsoStep(e) ==
  CASE e[1] = "sub" -> LET adj == AdjOf(e[2], e[3])  par == ParOf(RootedAt(adj, {e[4]}))
                           S == st \cup {<<e[5][u + 1], Canon(adj, u, par[u])>> : u \in 0..e[2]-1} IN IdsOk(S) /\ st' = S
    [] e[1] = "reroot" -> LET adj == AdjOf(e[2], e[3])  S == st \cup {<<e[4][u + 1], Canon(adj, u, -1)>> : u \in 0..e[2]-1} IN IdsOk(S) /\ st' = S
    [] e[1] = "iso" -> /\ Keep
                       /\ LET a == AdjOf(e[2], e[3])  b == AdjOf(e[4], e[5])
                              c0 == Canon(a, 0, -1)
                              is == \E v \in 0..e[4]-1 : Canon(b, v, -1) = c0
                          IN IF is THEN Len(e[6]) = 2 /\ Canon(a, e[6][1], -1) = Canon(b, e[6][2], -1) ELSE e[6] = <<>>
    [] e[1] = "isor" -> e[8] = (Canon(AdjOf(e[2], e[3]), e[4], -1) = Canon(AdjOf(e[5], e[6]), e[7], -1)) /\ Keep
    [] OTHER -> FALSE
=============================================================================
