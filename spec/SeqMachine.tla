----------------------------- MODULE SeqMachine -----------------------------
(* A fixed-length array with point writes, range actions, ordered range     *)
(* folds and monotone searches: the meaning of every segment-tree-like      *)
(* structure.  st is the sequence of current elements.                      *)
EXTENDS Fold, MState
InRange(l, r) == 0 <= l /\ l <= r /\ r <= Len(st)
Read(i, res) == res = st[i + 1] /\ UNCHANGED st
Write(i, v) == st' = [st EXCEPT ![i + 1] = v]
Act1(i, f) == st' = [st EXCEPT ![i + 1] = Aff(f, st[i + 1])]
ActR(l, r, f) == st' = ActOn(st, l, r, f)
Prod(l, r, res) == res = FoldOf(Sl(st, l, r)) /\ UNCHANGED st
\* the largest r such that the fold of [l, r) is a prefix of w, and the mirror image
MaxRight(l, w, res) == res = l + Lcp(Sl(st, l, Len(st)), w) /\ UNCHANGED st
MinLeft(r, w, res) == res = r - Lcs(Sl(st, 0, r), w) /\ UNCHANGED st
\* searches skipping identity elements: largest r with at most c present elements in [l, r)
\* --- numeric arrays with + as the monoid
SumQ(l, r, res) == res = SumSeq(Sl(st, l, r)) /\ UNCHANGED st
MinQ(l, r, d, res) == res = SeqMin(Sl(st, l, r), d) /\ UNCHANGED st
MaxQ(l, r, d, res) == res = SeqMax(Sl(st, l, r), d) /\ UNCHANGED st
MapR(l, r, G(_)) == st' = [i \in DOMAIN st |-> IF l < i /\ i <= r THEN G(st[i]) ELSE st[i]]
RECURSIVE SumRight(_, _, _)
SumRight(i, acc, x) == IF i >= Len(st) \/ acc + st[i + 1] > x THEN i ELSE SumRight(i + 1, acc + st[i + 1], x)
RECURSIVE SumLeft(_, _, _)
SumLeft(i, acc, x) == IF i <= 0 \/ acc + st[i] > x THEN i ELSE SumLeft(i - 1, acc + st[i], x)

SeqStep(e) ==
  CASE e[1] = "get" -> Read(e[2], e[3])
    [] e[1] = "set" -> Write(e[2], e[3])
    [] e[1] = "act1" -> Act1(e[2], e[3])
    [] e[1] = "act" -> ActR(e[2], e[3], e[4])
    [] e[1] = "prod" -> Prod(e[2], e[3], e[4])
    [] e[1] = "mr" -> MaxRight(e[2], e[3], e[4])
    [] e[1] = "ml" -> MinLeft(e[2], e[3], e[4])
    [] e[1] = "dump" -> e[2] = st /\ UNCHANGED st
    [] OTHER -> FALSE
\* integer array under +, with the compound assignments of element proxies
NumStep(e) ==
  CASE e[1] = "get" -> Read(e[2], e[3])
    [] e[1] = "set" -> Write(e[2], e[3])
    [] e[1] = "add" -> Write(e[2], st[e[2] + 1] + e[3])
    [] e[1] = "mul" -> Write(e[2], st[e[2] + 1] * e[3])
    [] e[1] = "div" -> Write(e[2], CDiv(st[e[2] + 1], e[3]))
    [] e[1] = "mod" -> Write(e[2], CMod(st[e[2] + 1], e[3]))
    [] e[1] = "sum" -> SumQ(e[2], e[3], e[4])
    [] e[1] = "min" -> MinQ(e[2], e[3], e[4], e[5])
    [] e[1] = "max" -> MaxQ(e[2], e[3], e[4], e[5])
    [] e[1] = "mr" -> e[4] = SumRight(e[2], 0, e[3]) /\ UNCHANGED st
    [] e[1] = "ml" -> e[4] = SumLeft(e[2], 0, e[3]) /\ UNCHANGED st
    \* l, r, min, second distinct min, its count, max, second distinct max, count, sum
    [] e[1] = "ext" -> LET w == Sl(st, e[2], e[3])
                           S == ToSet(w)
                           Times(x) == Cardinality({i \in DOMAIN w : w[i] = x})
                           lo == Min(S)
                           hi == Max(S)
                       IN /\ e[4] = lo /\ e[5] = (IF S = {lo} THEN <<>> ELSE <<Min(S \ {lo})>>) /\ e[6] = Times(lo)
                          /\ e[7] = hi /\ e[8] = (IF S = {hi} THEN <<>> ELSE <<Max(S \ {hi})>>) /\ e[9] = Times(hi)
                          /\ e[10] = SumSeq(w) /\ UNCHANGED st
    \* furthest bound such that every element between is at most v
    [] e[1] = "mrle" -> e[4] = (LET C == {i \in (e[2] + 1)..Len(st) : st[i] > e[3]} IN IF C = {} THEN Len(st) ELSE Min(C) - 1) /\ UNCHANGED st
    [] e[1] = "mlle" -> e[4] = (LET C == {i \in 1..e[2] : st[i] > e[3]} IN IF C = {} THEN 0 ELSE Max(C)) /\ UNCHANGED st
    [] e[1] = "radd" -> LET v == e[4] IN MapR(e[2], e[3], LAMBDA x : x + v)
    [] e[1] = "rset" -> LET v == e[4] IN MapR(e[2], e[3], LAMBDA x : v)
    [] e[1] = "chmin" -> LET v == e[4] IN MapR(e[2], e[3], LAMBDA x : MinOf(x, v))
    [] e[1] = "chmax" -> LET v == e[4] IN MapR(e[2], e[3], LAMBDA x : MaxOf(x, v))
    [] e[1] = "dump" -> e[2] = st /\ UNCHANGED st
    [] OTHER -> FALSE
\* growing array with range sums and strided sums over i = k (mod step)
LogStep(e) ==
  CASE e[1] = "sum" -> SumQ(e[2], e[3], e[4])
    [] e[1] = "push" -> st' = Append(st, e[2])
    [] e[1] = "step" -> /\ UNCHANGED st
                        /\ e[6] = SumSeq([i \in 1..Len(st) |-> IF (i - 1) % e[2] = e[3] /\ e[4] <= i - 1 /\ i - 1 < e[5] THEN st[i] ELSE 0])
    [] OTHER -> FALSE
\* idempotent band (first element, last element, maximum) for disjoint-cover tables
BandStep(e) ==
  CASE e[1] = "prod" -> /\ UNCHANGED st
                        /\ LET w == Sl(st, e[2], e[3])
                           IN e[4] = (IF w = <<>> THEN <<-1, -1, -1>> ELSE <<Head(w), Last(w), SeqMax(w, -1)>>)
    [] OTHER -> FALSE
\* weighted segments <<sum, len>> under affine range actions (sparse arrays over huge index ranges)
SegSum(s) == <<FoldLeft(LAMBDA a, x : (a + x[1]) % PR, 0, s), FoldLeft(LAMBDA a, x : (a + x[2]) % PR, 0, s)>>
WSegStep(e) ==
  CASE e[1] = "sum" -> e[4] = SegSum(Sl(st, e[2], e[3])) /\ UNCHANGED st
    [] e[1] = "act" -> LET f == e[4] IN MapR(e[2], e[3], LAMBDA x : <<(f[1] * x[1] + f[2] * x[2]) % PR, x[2]>>)
    [] e[1] = "get" -> e[3] = st[e[2] + 1][1] /\ UNCHANGED st
    [] e[1] = "set" -> Write(e[2], <<e[3], st[e[2] + 1][2]>>)
    [] OTHER -> FALSE
=============================================================================
