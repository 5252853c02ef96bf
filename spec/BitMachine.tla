----------------------------- MODULE BitMachine -----------------------------
(* Sequences of bits, static sequences of integers under rank / selection / *)
(* xor-order queries, multisets of fixed-width integers (binary tries).     *)
EXTENDS Common, Big, MState
Same == UNCHANGED st
\* two bitsets st[1], st[2]: sequences of 0/1; numeric order has the last bit most significant
BN(b) == IF b THEN 1 ELSE 0
NLt(a, b) == LET d == {i \in DOMAIN a : a[i] # b[i]} IN d # {} /\ LET m == Max(d) IN a[m] < b[m]
Ones(s) == SumSeq(s)
Upd(h, s) == st' = [st EXCEPT ![h + 1] = s]
Rng(s, l, r, F(_)) == [i \in DOMAIN s |-> IF l < i /\ i <= r THEN F(s[i]) ELSE s[i]]
FirstFrom(s, k) == LET o == {i \in (k + 1)..Len(s) : s[i] = 1} IN IF o = {} THEN Len(s) ELSE Min(o) - 1
BitStep(e) ==
  LET h == e[2] A == st[h + 1] O == st[2 - h] n == Len(A) IN
  CASE e[1] = "new" -> Upd(h, Const(e[3], BN(e[4])))
    [] e[1] = "rs" -> Upd(h, IF e[3] <= n THEN SubSeq(A, 1, e[3]) ELSE A \o Const(e[3] - n, BN(e[4])))
    [] e[1] = "pb" -> Upd(h, Append(A, BN(e[3])))
    [] e[1] = "pop" -> Upd(h, SubSeq(A, 1, n - 1))
    [] e[1] = "put" -> Upd(h, [A EXCEPT ![e[3] + 1] = BN(e[4])])
    [] e[1] = "flip" -> Upd(h, [A EXCEPT ![e[3] + 1] = 1 - @])
    [] e[1] = "and1" -> Upd(h, [A EXCEPT ![e[3] + 1] = IF e[4] THEN @ ELSE 0])
    [] e[1] = "or1" -> Upd(h, [A EXCEPT ![e[3] + 1] = IF e[4] THEN 1 ELSE @])
    [] e[1] = "xor1" -> Upd(h, [A EXCEPT ![e[3] + 1] = IF e[4] THEN 1 - @ ELSE @])
    [] e[1] = "rput" -> Upd(h, Rng(A, e[3], e[4], LAMBDA x : BN(e[5])))
    [] e[1] = "rflip" -> Upd(h, Rng(A, e[3], e[4], LAMBDA x : 1 - x))
    [] e[1] = "rcnt" -> Same /\ e[5] = Ones(Sl(A, e[3], e[4]))
    [] e[1] = "all" -> Upd(h, Const(n, BN(e[3])))
    [] e[1] = "and" -> Upd(h, [i \in DOMAIN A |-> A[i] * O[i]])
    [] e[1] = "or" -> Upd(h, [i \in DOMAIN A |-> MaxOf(A[i], O[i])])
    [] e[1] = "xor" -> Upd(h, [i \in DOMAIN A |-> IF A[i] = O[i] THEN 0 ELSE 1])
    [] e[1] = "shl" -> Upd(h, [i \in DOMAIN A |-> IF i > e[3] THEN A[i - e[3]] ELSE 0])
    [] e[1] = "shr" -> Upd(h, [i \in DOMAIN A |-> IF i + e[3] <= n THEN A[i + e[3]] ELSE 0])
    [] e[1] = "not" -> Upd(h, [i \in DOMAIN A |-> 1 - A[i]])
    [] e[1] = "copy" -> Upd(h, O)
    [] e[1] = "dump" -> Same /\ e[3] = A
    [] e[1] = "str" -> Same /\ Codes(e[3]) = [i \in DOMAIN A |-> 48 + A[n + 1 - i]]
    [] e[1] = "get" -> Same /\ e[4] = (A[e[3] + 1] = 1)
    [] e[1] = "cmp" -> Same /\ e[3] = <<A = O, A # O, NLt(A, O), ~NLt(O, A), NLt(O, A), ~NLt(A, O)>>
    [] e[1] = "eq" -> Same /\ e[3] = (A = O)
    [] e[1] = "bool" -> Same /\ e[3] = (Ones(A) > 0)
    [] e[1] = "stat" -> Same /\ e[3] = <<Ones(A) = n, Ones(A) = 0, Ones(A) > 0, n = 0>> /\ e[4] = <<Ones(A), FirstFrom(A, 0), n>>
    [] e[1] = "next" -> Same /\ e[4] = FirstFrom(A, e[3] + 1)
    [] e[1] = "inter" -> Same /\ e[3] = (\E i \in 1..MinOf(n, Len(O)) : A[i] = 1 /\ O[i] = 1) /\ e[4] = ~e[3]
    [] OTHER -> FALSE
\* st: bits
Rank(v, i) == IF v THEN Ones(Sl(st, 0, i)) ELSE i - Ones(Sl(st, 0, i))
BvStep(e) == Same /\
  CASE e[1] = "acc" -> e[3] = (st[e[2] + 1] = 1)
    [] e[1] = "rank" -> e[4] = Rank(e[2], e[3])
    [] e[1] = "rank2" -> e[5] = Rank(e[2], e[4]) - Rank(e[2], e[3])
    \* the shortest prefix holding num occurrences of v
    [] e[1] = "sel" -> IF Rank(e[2], Len(st)) < e[3] THEN e[5] = e[4] ELSE Rank(e[2], e[5]) = e[3] /\ (e[5] = 0 \/ Rank(e[2], e[5] - 1) < e[3])
    [] OTHER -> FALSE
\* st: a sequence of integers; order by x ^ v
Key(x, v) == BXor(x, v)
CntLt(s, x, u) == Count(s, LAMBDA v : BLt(Key(x, v), u))
CntLe(s, x, u) == Count(s, LAMBDA v : BLe(Key(x, v), u))
Has(s, v) == \E i \in DOMAIN s : s[i] = v
\* v is the element of s with exactly k smaller-or-equal predecessors in the x-order
IsKth(s, x, k, v) == Has(s, v) /\ CntLt(s, x, Key(x, v)) <= k /\ k < CntLe(s, x, Key(x, v))
KthOr(s, x, k, v, d) == IF 0 <= k /\ k < Len(s) THEN IsKth(s, x, k, v) ELSE v = d
WavStep(e) == Same /\
  CASE e[1] = "acc" -> e[3] = st[e[2] + 1]
    [] e[1] = "rank" -> e[4] = Count(Sl(st, 0, e[3]), LAMBDA v : v = e[2])
    [] e[1] = "ks" -> KthOr(Sl(st, e[2], e[3]), e[5], e[4], e[7], e[6])
    [] e[1] = "kl" -> KthOr(Sl(st, e[2], e[3]), e[5], e[3] - e[2] - 1 - e[4], e[7], e[6])
    [] e[1] = "f1" -> e[6] = CntLt(Sl(st, e[2], e[3]), e[4], e[5])
    [] e[1] = "f2" -> e[7] = Count(Sl(st, e[2], e[3]), LAMBDA v : BLe(e[5], Key(e[4], v)) /\ BLt(Key(e[4], v), e[6]))
    [] e[1] = "ge" -> LET s == Sl(st, e[2], e[3]) IN KthOr(s, e[4], CntLt(s, e[4], e[5]), e[7], e[6])
    [] e[1] = "gt" -> LET s == Sl(st, e[2], e[3]) IN KthOr(s, e[4], CntLe(s, e[4], e[5]), e[7], e[6])
    [] e[1] = "lt" -> LET s == Sl(st, e[2], e[3]) IN KthOr(s, e[4], CntLt(s, e[4], e[5]) - 1, e[7], e[6])
    [] e[1] = "le" -> LET s == Sl(st, e[2], e[3]) IN KthOr(s, e[4], CntLe(s, e[4], e[5]) - 1, e[7], e[6])
    [] OTHER -> FALSE
\* st: a multiset of integers, as a sequence (order irrelevant); queries return x ^ v
Copies(v) == Count(st, LAMBDA x : x = v)
RECURSIVE Drop(_, _, _)
Drop(s, v, k) == IF k = 0 \/ s = <<>> THEN s ELSE IF Head(s) = v THEN Drop(Tail(s), v, k - 1) ELSE <<Head(s)>> \o Drop(Tail(s), v, k)
TrieStep(e) ==
  CASE e[1] = "ins" -> st' = st \o Const(e[3], e[2]) /\ e[4] = (IF e[3] = 0 THEN 0 ELSE Copies(e[2]) + e[3])
    [] e[1] = "insv" -> st' = st \o Const(e[3], e[2])
    [] e[1] = "insabs" -> e[3] = (Copies(e[2]) = 0) /\ st' = IF e[3] THEN Append(st, e[2]) ELSE st
    [] e[1] = "era" -> LET k == MinOf(Copies(e[2]), e[3]) IN e[4] = k /\ st' = Drop(st, e[2], k)
    [] e[1] = "clear" -> st' = <<>>
    [] e[1] = "size" -> Same /\ e[2] = Len(st) /\ e[3] = (st = <<>>)
    [] e[1] = "cnt" -> Same /\ e[3] = Copies(e[2]) /\ e[4] = (Copies(e[2]) > 0)
    [] e[1] = "pre" -> Same /\ e[4] = Count(st, LAMBDA v : BShr(v, e[3]) = BShr(e[2], e[3]))
    [] e[1] = "kmin" -> Same /\ IsKth(st, e[2], e[3], BXor(e[2], e[4]))
    [] e[1] = "kmax" -> Same /\ IsKth(st, e[2], Len(st) - 1 - e[3], BXor(e[2], e[4]))
    [] e[1] = "cnts" -> Same /\ LET l == CntLt(st, e[2], e[3]) q == CntLe(st, e[2], e[3]) n == Len(st) IN e[4] = <<l, q, n - q, n - l>>
    \* nearest elements: below, at most, at least, above; "none" where there is no such element
    [] e[1] = "near" -> /\ Same
                        /\ LET l == CntLt(st, e[2], e[3]) q == CntLe(st, e[2], e[3])
                               ok(k, r) == IF 0 <= k /\ k < Len(st) THEN r # "none" /\ IsKth(st, e[2], k, BXor(e[2], r)) ELSE r = "none"
                           IN ok(l - 1, e[4][1]) /\ ok(q - 1, e[4][2]) /\ ok(l, e[4][3]) /\ ok(q, e[4][4])
    [] OTHER -> FALSE
\* pure functions on one machine word
WordStep(e) == Same /\
  CASE e[1] = "bits" -> \* width, value (mod 2^width), <<popcount, lz, tz, parity>>
         LET x == e[3] w == e[2] pc == BPopcount(x) IN
         e[4] = <<pc, w - BBits(x), IF BEq(x, 0) THEN w ELSE Min({i \in 0..(w - 1) : BBit(x, i) = 1}), pc % 2>>
    [] e[1] = "log" -> e[4] = <<BBits(e[3]) - 1, BBits(BSub(e[3], 1))>>
    [] e[1] = "kbit" -> e[4] = BBit(e[2], e[3])
    [] OTHER -> FALSE
=============================================================================
