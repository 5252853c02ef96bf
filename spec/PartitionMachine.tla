-------------------------- MODULE PartitionMachine --------------------------
(* Disjoint sets: a labelling of 0..n-1 (lab[v+1] is the least member of    *)
(* v's class).  Extensions: an undo log, potentials in a non-commutative    *)
(* group along the merges, integer potentials, values acted on by class,    *)
(* and the whole history of partitions.                                     *)
EXTENDS Fold, MState
GMul(f, g) == <<(f[1] * g[1]) % 7, (f[1] * g[2] + f[2]) % 7>>
GInv(f) == LET i == CHOOSE i \in 1..6 : (i * f[1]) % 7 = 1 IN <<i, (7 - ((i * f[2]) % 7)) % 7>>
PInit(n, vals) == [lab |-> [i \in 1..n |-> i - 1], log |-> <<>>, w |-> [i \in 1..n |-> <<1, 0>>], z |-> [i \in 1..n |-> 0], val |-> vals, hist |-> << [i \in 1..n |-> i - 1] >>]
Lab(l, v) == l[v + 1]
Join(l, x, y) == LET a == MinOf(Lab(l, x), Lab(l, y)) b == MaxOf(Lab(l, x), Lab(l, y)) IN [i \in DOMAIN l |-> IF l[i] = b THEN a ELSE l[i]]
Same(l, x, y) == Lab(l, x) = Lab(l, y)
Class(l, x) == {i - 1 : i \in {i \in DOMAIN l : l[i] = Lab(l, x)}}
IsListing(s, S) == Len(s) = Cardinality(S) /\ SeqToSet(s) = S            \* each member exactly once
\* g lists every element exactly once, each group is within one class, and there are as many groups as classes
IsGrouping(g, l) == /\ Len(g) = Cardinality(SeqToSet(l))
                    /\ (\A j \in DOMAIN g : g[j] # <<>> /\ \A k \in DOMAIN g[j] : g[j][k] + 1 \in DOMAIN l /\ Lab(l, g[j][k]) = Lab(l, g[j][1]))
                    /\ LET f == FlattenSeq(g) IN Len(f) = Len(l) /\ Cardinality(SeqToSet(f)) = Len(l)
Q == UNCHANGED st
ClassSum(x) == FoldLeft(LAMBDA a, i : IF st.lab[i] = Lab(st.lab, x) THEN (a + st.val[i]) % PR ELSE a, 0, [i \in DOMAIN st.lab |-> i])
JoinAll(l, es) == FoldLeft(LAMBDA a, q : Join(a, q[1], q[2]), l, es)
Merge(x, y) == [st EXCEPT !.lab = Join(st.lab, x, y), !.log = IF Same(st.lab, x, y) THEN st.log ELSE Append(st.log, st.lab)]
PartitionStep(e) ==
  CASE e[1] = "merge" -> e[4] = ~Same(st.lab, e[2], e[3]) /\ st' = Merge(e[2], e[3])
    [] e[1] = "same" -> e[4] = Same(st.lab, e[2], e[3]) /\ Q
    [] e[1] = "size" -> e[3] = Cardinality(Class(st.lab, e[2])) /\ Q
    [] e[1] = "roots" -> /\ Q /\ Len(e[2]) = Len(st.lab)       \* one canonical member per class
                         /\ \A i \in DOMAIN st.lab : e[2][i] \in Class(st.lab, i - 1) /\ e[2][i] = e[2][st.lab[i] + 1]
    [] e[1] = "groups" -> IsGrouping(e[2], st.lab) /\ Q
    [] e[1] = "comp" -> IsListing(e[3], Class(st.lab, e[2])) /\ Q
    [] e[1] = "undo" -> st.log # <<>> /\ st' = [st EXCEPT !.lab = Last(st.log), !.log = Front(st.log)]
    [] e[1] = "snapshot" -> st' = [st EXCEPT !.log = <<>>]
    [] e[1] = "rollback" -> st' = IF st.log = <<>> THEN st ELSE [st EXCEPT !.lab = Head(st.log), !.log = <<>>]
    \* potentials: w[y] = w[x] * d is imposed unless x and y are already joined
    [] e[1] = "wmerge" -> /\ e[5] = ~Same(st.lab, e[2], e[3])
                          /\ st' = IF Same(st.lab, e[2], e[3]) THEN st ELSE
                               LET k == GMul(GMul(st.w[e[2] + 1], e[4]), GInv(st.w[e[3] + 1]))
                               IN [Merge(e[2], e[3]) EXCEPT !.w = [i \in DOMAIN st.w |-> IF st.lab[i] = Lab(st.lab, e[3]) THEN GMul(k, st.w[i]) ELSE st.w[i]]]
    [] e[1] = "diff" -> Same(st.lab, e[2], e[3]) /\ e[4] = GMul(GInv(st.w[e[2] + 1]), st.w[e[3] + 1]) /\ Q
    [] e[1] = "imerge" -> /\ e[5] = ~Same(st.lab, e[2], e[3])
                          /\ st' = IF Same(st.lab, e[2], e[3]) THEN st ELSE
                               LET k == st.z[e[2] + 1] + e[4] - st.z[e[3] + 1]
                               IN [Merge(e[2], e[3]) EXCEPT !.z = [i \in DOMAIN st.z |-> IF st.lab[i] = Lab(st.lab, e[3]) THEN k + st.z[i] ELSE st.z[i]]]
    [] e[1] = "idiff" -> Same(st.lab, e[2], e[3]) /\ e[4] = st.z[e[3] + 1] - st.z[e[2] + 1] /\ Q
    \* values with class-wide actions
    [] e[1] = "actc" -> st' = [st EXCEPT !.val = [i \in DOMAIN st.val |-> IF st.lab[i] = Lab(st.lab, e[2]) THEN Aff(e[3], st.val[i]) ELSE st.val[i]]]
    [] e[1] = "actp" -> st' = [st EXCEPT !.val[e[2] + 1] = Aff(e[3], st.val[e[2] + 1])]
    [] e[1] = "setp" -> st' = [st EXCEPT !.val[e[2] + 1] = e[3]]
    [] e[1] = "getp" -> e[3] = st.val[e[2] + 1] /\ Q
    [] e[1] = "getc" -> e[3] = ClassSum(e[2]) /\ Q
    \* history: hist[t + 1] is the partition after t merge calls
    [] e[1] = "hmerge" -> LET l == JoinAll(st.lab, e[2]) IN st' = [st EXCEPT !.lab = l, !.hist = Append(st.hist, l)]
    [] e[1] = "time" -> e[2] = Len(st.hist) - 1 /\ Q
    [] e[1] = "hgroup" -> IsListing(e[4], Class(st.hist[e[3] + 1], e[2])) /\ Q
    [] e[1] = "hgroups" -> IsGrouping(e[3], st.hist[e[2] + 1]) /\ Q
    [] e[1] = "hsame" -> e[5] = Same(st.hist[e[4] + 1], e[2], e[3]) /\ Q
    [] e[1] = "true" -> e[2] = TRUE /\ Q
    [] OTHER -> FALSE
=============================================================================
