--------------------------- MODULE VersionMachine ---------------------------
(* Fully persistent structures.  st is the sequence of all versions made so *)
(* far (version numbers are 0-based); an update of version v appends a new  *)
(* version and changes no other; every query is about one version.          *)
EXTENDS Fold, MState
V(v) == st[v + 1]
New(s) == st' = Append(st, s)
New2(s, t) == st' = Append(Append(st, s), t)
Same == UNCHANGED st
SumMod(s) == FoldLeft(LAMBDA a, x : (a + x) % PR, 0, s)
VSeqStep(e) ==
  CASE e[1] = "set" -> New([V(e[2]) EXCEPT ![e[3] + 1] = e[4]])
    [] e[1] = "clone" -> New(V(e[2]))
    [] e[1] = "mset" -> e[5] = V(e[2])[e[3] + 1] /\ st' = [st EXCEPT ![e[2] + 1][e[3] + 1] = e[4]]
    [] e[1] = "add" -> New([V(e[2]) EXCEPT ![e[3] + 1] = @ + e[4]])
    [] e[1] = "act" -> New(ActOn(V(e[2]), e[3], e[4], e[5]))
    [] e[1] = "insert" -> New(InsSeq(V(e[2]), e[3], e[4]))
    [] e[1] = "erase" -> e[4] = V(e[2])[e[3] + 1] /\ New(DelSeq(V(e[2]), e[3]))
    [] e[1] = "getp" -> e[4] = V(e[2])[e[3] + 1] /\ New(V(e[2]))
    [] e[1] = "split" -> New2(Sl(V(e[2]), 0, e[3]), Sl(V(e[2]), e[3], Len(V(e[2]))))
    [] e[1] = "merge" -> New(V(e[2]) \o V(e[3]))
    [] e[1] = "cut" -> New(Sl(V(e[2]), e[3], e[4]))
    [] e[1] = "swap" -> New2(Splice(V(e[2]), e[3], e[4], Sl(V(e[5]), e[6], e[7])), Splice(V(e[5]), e[6], e[7], Sl(V(e[2]), e[3], e[4])))
    [] e[1] = "replace" -> New(Splice(V(e[3]), e[4], e[5], V(e[2])))
    [] e[1] = "reverse" -> New(Splice(V(e[2]), e[3], e[4], Reverse(Sl(V(e[2]), e[3], e[4]))))
    [] e[1] = "prodp" -> e[5] = FoldOf(Sl(V(e[2]), e[3], e[4])) /\ New(V(e[2]))
    [] e[1] = "sumqp" -> e[5] = SumMod(Sl(V(e[2]), e[3], e[4])) /\ e[6] = e[4] - e[3] /\ New(V(e[2]))
    [] e[1] = "sumq" -> e[5] = SumMod(Sl(V(e[2]), e[3], e[4])) /\ e[6] = e[4] - e[3] /\ Same
    [] e[1] = "get" -> e[4] = V(e[2])[e[3] + 1] /\ Same
    [] e[1] = "len" -> e[3] = Len(V(e[2])) /\ Same
    [] e[1] = "prod" -> e[5] = FoldOf(Sl(V(e[2]), e[3], e[4])) /\ Same
    [] e[1] = "sum" -> e[5] = SumSeq(Sl(V(e[2]), e[3], e[4])) /\ Same
    [] e[1] = "mr" -> e[5] = e[3] + Lcp(Sl(V(e[2]), e[3], Len(V(e[2]))), e[4]) /\ Same
    [] e[1] = "ml" -> e[5] = e[3] - Lcs(Sl(V(e[2]), 0, e[3]), e[4]) /\ Same
    [] e[1] = "cr" -> e[5] = MinOf(Len(V(e[2])), e[3] + e[4]) /\ Same    \* at most e[4] elements
    [] e[1] = "cl" -> e[5] = MaxOf(0, e[3] - e[4]) /\ Same
    [] e[1] = "dump" -> e[3] = V(e[2]) /\ Same
    [] OTHER -> FALSE
VDualStep(e) ==
  CASE e[1] = "comp" -> New([i \in DOMAIN V(e[2]) |-> IF e[3] < i /\ i <= e[4] THEN After(e[5], V(e[2])[i]) ELSE V(e[2])[i]])
    [] e[1] = "get" -> e[4] = V(e[2])[e[3] + 1] /\ Same
    [] e[1] = "dump" -> e[3] = V(e[2]) /\ Same
    [] OTHER -> FALSE
\* persistent partitions (labels: least member of the class)
VJoin(l, x, y) == LET a == MinOf(l[x + 1], l[y + 1]) b == MaxOf(l[x + 1], l[y + 1]) IN [i \in DOMAIN l |-> IF l[i] = b THEN a ELSE l[i]]
VUFStep(e) ==
  LET l == V(e[2]) IN
  CASE e[1] = "merge" -> e[5] = (l[e[3] + 1] # l[e[4] + 1]) /\ New(VJoin(l, e[3], e[4]))
    [] e[1] = "same" -> e[5] = (l[e[3] + 1] = l[e[4] + 1]) /\ Same
    [] e[1] = "size" -> e[4] = Cardinality({i \in DOMAIN l : l[i] = l[e[3] + 1]}) /\ Same
    [] e[1] = "roots" -> l[e[5] + 1] = l[e[3] + 1] /\ l[e[6] + 1] = l[e[4] + 1] /\ ((e[5] = e[6]) = (l[e[3] + 1] = l[e[4] + 1])) /\ Same
    [] e[1] = "groups" -> /\ Same
                          /\ LET g == e[3] IN
                             /\ Len(g) = Cardinality(SeqToSet(l))
                             /\ (\A j \in DOMAIN g : g[j] # <<>> /\ \A k \in DOMAIN g[j] : l[g[j][k] + 1] = l[g[j][1] + 1])
                             /\ LET f == FlattenSeq(g) IN Len(f) = Len(l) /\ Cardinality(SeqToSet(f)) = Len(l)
    [] OTHER -> FALSE
=============================================================================
