----------------------------- MODULE MapMachine -----------------------------
(* Ordered maps and sets of integers.                                       *)
(* MapStep: st is a pair of maps (handles 0 and 1), each the ascending      *)
(* sequence of its <<key, value>> entries; NoElem is a value that is the    *)
(* identity of the fold.                                                    *)
EXTENDS Fold, MState
M(h) == st[h + 1]
UpdM(h, m) == st' = [st EXCEPT ![h + 1] = m]
Same == UNCHANGED st
KBelow(m, k) == Count(m, LAMBDA x : x[1] < k)                 \* entries with a smaller key
HasKey(m, k) == LET i == KBelow(m, k) IN i < Len(m) /\ m[i + 1][1] = k
Put(m, k, v) == LET i == KBelow(m, k) IN IF HasKey(m, k) THEN [m EXCEPT ![i + 1] = <<k, v>>] ELSE InsSeq(m, i, <<k, v>>)
PutNew(m, k, v) == IF HasKey(m, k) THEN m ELSE Put(m, k, v)
ValAt(m, k) == m[KBelow(m, k) + 1][2]
MVals(m) == [i \in DOMAIN m |-> m[i][2]]
VOut(v) == IF v = NoElem THEN <<0, 0>> ELSE <<v, 1>>
VAct(f, v) == IF v = NoElem THEN NoElem ELSE Aff(f, v)
ActM(m, l, r, f) == [i \in DOMAIN m |-> IF l < i /\ i <= r THEN <<m[i][1], VAct(f, m[i][2])>> ELSE m[i]]
MapStep(e) ==
  CASE e[1] = "size" -> e[3] = Len(M(e[2])) /\ Same
    [] e[1] = "has" -> e[4] = HasKey(M(e[2]), e[3]) /\ Same
    [] e[1] = "ins" -> UpdM(e[2], Put(M(e[2]), e[3], e[4]))
    [] e[1] = "insabs" -> UpdM(e[2], PutNew(M(e[2]), e[3], e[4]))
    [] e[1] = "goc" -> UpdM(e[2], PutNew(M(e[2]), e[3], e[4])) /\ e[5] = VOut(ValAt(PutNew(M(e[2]), e[3], e[4]), e[3]))
    [] e[1] = "god" -> Same /\ e[5] = VOut(IF HasKey(M(e[2]), e[3]) THEN ValAt(M(e[2]), e[3]) ELSE e[4])
    [] e[1] = "erk" -> /\ e[4] = HasKey(M(e[2]), e[3])
                       /\ UpdM(e[2], IF e[4] THEN DelSeq(M(e[2]), KBelow(M(e[2]), e[3])) ELSE M(e[2]))
    [] e[1] = "eri" -> UpdM(e[2], DelSeq(M(e[2]), e[3]))
    [] e[1] = "kth" -> Same /\ e[4] = M(e[2])[e[3] + 1][1] /\ e[5] = VOut(M(e[2])[e[3] + 1][2])
    [] e[1] = "kkey" -> Same /\ e[4] = M(e[2])[e[3] + 1][1]
    [] e[1] = "spi" -> st' = [i \in 1..2 |-> IF i = e[2] + 1 THEN Sl(M(e[2]), 0, e[3]) ELSE Sl(M(e[2]), e[3], Len(M(e[2])))]
    [] e[1] = "spk" -> LET p == KBelow(M(e[2]), e[3]) IN st' = [i \in 1..2 |-> IF i = e[2] + 1 THEN Sl(M(e[2]), 0, p) ELSE Sl(M(e[2]), p, Len(M(e[2])))]
    [] e[1] = "mrg" -> st' = [i \in 1..2 |-> IF i = e[2] + 1 THEN M(e[2]) \o M(1 - e[2]) ELSE <<>>]
    [] e[1] = "swap" -> st' = <<st[2], st[1]>>
    [] e[1] = "move" -> st' = [i \in 1..2 |-> IF i = e[2] + 1 THEN M(1 - e[2]) ELSE <<>>]   \* h receives the other
    [] e[1] = "pri" -> e[5] = FoldOf(MVals(Sl(M(e[2]), e[3], e[4]))) /\ Same
    [] e[1] = "prk" -> e[5] = FoldOf(MVals(Sl(M(e[2]), KBelow(M(e[2]), e[3]), KBelow(M(e[2]), e[4])))) /\ Same
    [] e[1] = "api" -> UpdM(e[2], ActM(M(e[2]), e[3], e[4], e[5]))
    [] e[1] = "apk" -> UpdM(e[2], ActM(M(e[2]), KBelow(M(e[2]), e[3]), KBelow(M(e[2]), e[4]), e[5]))
    [] OTHER -> FALSE
(* ISetStep: st = <<n, elements in ascending order>>, subset of 0..n-1.     *)
E0 == st[2]
Lt(v) == Count(E0, LAMBDA x : x < v)
Le(v) == Count(E0, LAMBDA x : x <= v)
Kth(k) == IF 0 <= k /\ k < Len(E0) THEN E0[k + 1] ELSE -1
InSet(v) == LET i == Lt(v) IN i < Len(E0) /\ E0[i + 1] = v
ISetStep(e) ==
  CASE e[1] = "ins" -> /\ e[3] = ~InSet(e[2])
                       /\ st' = IF e[3] THEN [st EXCEPT ![2] = InsSeq(E0, Lt(e[2]), e[2])] ELSE st
    [] e[1] = "era" -> /\ e[3] = InSet(e[2])
                       /\ st' = IF e[3] THEN [st EXCEPT ![2] = DelSeq(E0, Lt(e[2]))] ELSE st
    [] e[1] = "eraat" -> /\ st' = [st EXCEPT ![2] = DelSeq(E0, e[2])] /\ e[3] = (IF e[2] + 1 < Len(E0) THEN E0[e[2] + 2] ELSE -1)
    [] e[1] = "q" -> /\ Same                             \* everything about one threshold v
                     /\ e[3] = <<InSet(e[2]), Len(E0)>>
                     /\ e[4] = <<Lt(e[2]), Le(e[2]), Len(E0) - Le(e[2]), Len(E0) - Lt(e[2])>>
                     /\ e[5] = <<Kth(Le(e[2]) - 1), Kth(Lt(e[2]) - 1), Kth(Lt(e[2])), Kth(Le(e[2]))>>
                     /\ e[6] = <<Lt(e[2]), Le(e[2]), IF InSet(e[2]) THEN Lt(e[2]) ELSE Len(E0)>>
    [] e[1] = "kth" -> Same /\ e[3] = Kth(e[2]) /\ e[4] = Kth(e[2])
    [] e[1] = "it" -> Same /\ e[4] = Kth(e[2] + e[3]) /\ e[5] = (e[2] + e[3] >= 0 /\ e[2] + e[3] < Len(E0)) /\ e[6] = e[2] + e[3] /\ e[7] = -e[3] /\ e[8] = <<e[3] < 0, e[3] <= 0, e[3] > 0, e[3] >= 0, e[3] = 0, e[3] # 0>>
    [] e[1] = "dump" -> Same /\ e[2] = E0
    [] OTHER -> FALSE
(* RSetStep: st = <<m, ranges>>: the ascending disjoint closed ranges of a  *)
(* set of integers; with m = 1 adjacent ranges are one range.               *)
MA == st[1]
RR == st[2]
Touch(x, l, r) == x[1] <= r + MA /\ l <= x[2] + MA            \* would be united with [l, r]
Overlap(x, l, r) == x[1] <= r /\ l <= x[2]
RLen(s) == FoldLeft(LAMBDA a, x : a + x[2] - x[1] + 1, 0, s)
RInsert(l, r) == IF l > r THEN RR ELSE
    SelectSeq(RR, LAMBDA x : x[2] < l /\ ~Touch(x, l, r))
    \o << LET t == SelectSeq(RR, LAMBDA x : Touch(x, l, r)) IN FoldLeft(LAMBDA a, x : <<MinOf(a[1], x[1]), MaxOf(a[2], x[2])>>, <<l, r>>, t) >>
    \o SelectSeq(RR, LAMBDA x : x[1] > r /\ ~Touch(x, l, r))
RErase(l, r) == IF l > r THEN RR ELSE
    FlattenSeq([i \in DOMAIN RR |-> IF ~Overlap(RR[i], l, r) THEN <<RR[i]>>
        ELSE (IF RR[i][1] < l THEN << <<RR[i][1], l - 1>> >> ELSE <<>>) \o (IF r < RR[i][2] THEN << <<r + 1, RR[i][2]>> >> ELSE <<>>)])
RFind(x) == SelectSeq(RR, LAMBDA a : a[1] <= x /\ x <= a[2])
RSetStep(e) ==
  CASE e[1] = "ins" -> LET n == RInsert(e[2], e[3]) IN e[4] = RLen(n) - RLen(RR) /\ st' = [st EXCEPT ![2] = n]
    [] e[1] = "era" -> LET n == RErase(e[2], e[3]) IN e[4] = RLen(RR) - RLen(n) /\ st' = [st EXCEPT ![2] = n]
    [] e[1] = "size" -> e[2] = RLen(RR) /\ e[3] = RLen(RR) /\ e[4] = Len(RR) /\ Same
    [] e[1] = "has" -> e[3] = (RFind(e[2]) # <<>>) /\ e[4] = RFind(e[2]) /\ Same
    [] e[1] = "same" -> e[4] = (RFind(e[2]) # <<>> /\ RFind(e[2])[1][1] <= e[3] /\ e[3] <= RFind(e[2])[1][2]) /\ Same
    [] e[1] = "mex" -> /\ Same /\ e[3] = (IF RFind(e[2]) = <<>> THEN e[2] ELSE RFind(e[2])[1][2] + 1)
                       /\ e[4] = (IF RFind(e[2]) = <<>> THEN e[2] ELSE RFind(e[2])[1][1] - 1)
    [] e[1] = "dump" -> e[2] = RR /\ Same
    [] OTHER -> FALSE
(* RComStep: a fixed-length array with range assignment and ordered folds.  *)
RComStep(e) ==
  CASE e[1] = "set" -> st' = [i \in DOMAIN st |-> IF e[2] < i /\ i <= e[3] THEN e[4] ELSE st[i]]
    [] e[1] = "prod" -> e[4] = FoldOf(Sl(st, e[2], e[3])) /\ Same
    [] OTHER -> FALSE
=============================================================================
