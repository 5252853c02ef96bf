---------------------------- MODULE DSeqMachine -----------------------------
(* Dynamic sequences.  st is the sequence of live sequences (handles are    *)
(* 0-based positions); split creates a handle, merge empties one.           *)
EXTENDS Fold, MState
Q(h) == st[h + 1]
Upd(h, s) == st' = [st EXCEPT ![h + 1] = s]
Keep == UNCHANGED st
SumM(s) == FoldLeft(LAMBDA a, x : (a + x) % PR, 0, s)
Below(s, v) == Count(s, LAMBDA x : x < v)
AtMost(s, v) == Count(s, LAMBDA x : x <= v)
\* {pos, optional value} of position p; the optional is a sequence of length 0 or 1
Found(s, p, res) == res[1] = p /\ res[2] = (IF p < Len(s) THEN <<s[p + 1]>> ELSE <<>>)
\* erase position p if ok: the optional {pos, value} removed
Erased(h, p, ok, res) == LET s == Q(h) IN IF p < Len(s) /\ ok THEN res = <<p, s[p + 1]>> /\ Upd(h, DelSeq(s, p)) ELSE res = <<>> /\ Keep
SplitAt(h, p) == st' = Append([st EXCEPT ![h + 1] = Sl(Q(h), 0, p)], Sl(Q(h), p, Len(Q(h))))
DSeqStep(e) ==
  CASE e[1] = "new" -> st' = Append(st, e[2])
    [] e[1] = "ins" -> Upd(e[2], InsSeq(Q(e[2]), e[3], e[4]))
    [] e[1] = "del" -> e[4] = Q(e[2])[e[3] + 1] /\ Upd(e[2], DelSeq(Q(e[2]), e[3]))
    [] e[1] = "del0" -> e[3] < Len(Q(e[2])) /\ Upd(e[2], DelSeq(Q(e[2]), e[3]))          \* returns nothing
    [] e[1] = "set" -> Upd(e[2], [Q(e[2]) EXCEPT ![e[3] + 1] = e[4]])
    [] e[1] = "act" -> Upd(e[2], ActOn(Q(e[2]), e[3], e[4], e[5]))
    [] e[1] = "split" -> SplitAt(e[2], e[3])
    [] e[1] = "merge" -> e[2] # e[3] /\ st' = [st EXCEPT ![e[2] + 1] = Q(e[2]) \o Q(e[3]), ![e[3] + 1] = <<>>]
    [] e[1] = "mergel" -> e[2] # e[3] /\ st' = [st EXCEPT ![e[2] + 1] = Q(e[3]) \o Q(e[2]), ![e[3] + 1] = <<>>]
    [] e[1] = "move" -> e[2] # e[3] /\ st' = [st EXCEPT ![e[2] + 1] = Q(e[3]), ![e[3] + 1] = <<>>]
    [] e[1] = "swap" -> st' = [st EXCEPT ![e[2] + 1] = Q(e[3]), ![e[3] + 1] = Q(e[2])]
    [] e[1] = "rev" -> Upd(e[2], Splice(Q(e[2]), e[3], e[4], Reverse(Sl(Q(e[2]), e[3], e[4]))))
    [] e[1] = "rot" -> Upd(e[2], Splice(Q(e[2]), e[3], e[5], Sl(Q(e[2]), e[4], e[5]) \o Sl(Q(e[2]), e[3], e[4])))
    [] e[1] = "clear" -> Upd(e[2], <<>>)
    [] e[1] = "get" -> e[4] = Q(e[2])[e[3] + 1] /\ Keep
    [] e[1] = "len" -> e[3] = Len(Q(e[2])) /\ e[4] = (Len(Q(e[2])) = 0) /\ Keep
    [] e[1] = "ends" -> e[3] = Q(e[2])[1] /\ e[4] = Last(Q(e[2])) /\ Keep
    [] e[1] = "dump" -> e[3] = Q(e[2]) /\ Keep
    [] e[1] = "rdump" -> e[3] = Reverse(Q(e[2])) /\ Keep
    [] e[1] = "prod" -> e[5] = FoldOf(Sl(Q(e[2]), e[3], e[4])) /\ Keep
    [] e[1] = "sumq" -> e[5] = SumM(Sl(Q(e[2]), e[3], e[4])) /\ e[6] = e[4] - e[3] /\ Keep
    [] e[1] = "mr" -> e[5] = e[3] + Lcp(Sl(Q(e[2]), e[3], Len(Q(e[2]))), e[4]) /\ Keep
    [] e[1] = "ml" -> e[5] = e[3] - Lcs(Sl(Q(e[2]), 0, e[3]), e[4]) /\ Keep
    \* a walk of a random-access iterator: positions visited and elements read
    [] e[1] = "walk" -> /\ Keep
                        /\ LET s == IF e[3] THEN Reverse(Q(e[2])) ELSE Q(e[2]) IN
                           \A j \in 1..Len(e[4]) : e[4][j][2] = (IF e[4][j][1] < Len(s) THEN s[e[4][j][1] + 1] ELSE -1)
    [] e[1] = "itdiff" -> e[5] = e[3] - e[4] /\ e[6] = (e[3] < e[4]) /\ e[7] = (e[3] = e[4]) /\ Keep
    [] e[1] = "itcmp" -> e[5] = <<e[3] <= e[4], e[3] > e[4], e[3] >= e[4], e[3] # e[4]>> /\ Keep
    \* sorted sequences
    [] e[1] = "lb" -> Found(Q(e[2]), Below(Q(e[2]), e[3]), e[4]) /\ Keep
    [] e[1] = "ub" -> Found(Q(e[2]), AtMost(Q(e[2]), e[3]), e[4]) /\ Keep
    [] e[1] = "inslb" -> e[4] = Below(Q(e[2]), e[3]) /\ Upd(e[2], InsSeq(Q(e[2]), e[4], e[3]))
    [] e[1] = "insub" -> e[4] = AtMost(Q(e[2]), e[3]) /\ Upd(e[2], InsSeq(Q(e[2]), e[4], e[3]))
    [] e[1] = "dellb" -> Erased(e[2], Below(Q(e[2]), e[3]), TRUE, e[4])
    [] e[1] = "delub" -> Erased(e[2], AtMost(Q(e[2]), e[3]), TRUE, e[4])
    [] e[1] = "delif" -> LET p == Below(Q(e[2]), e[3]) IN Erased(e[2], p, p < Len(Q(e[2])) /\ Q(e[2])[p + 1] = e[3], e[4])
    [] e[1] = "delbs" -> LET p == Below(Q(e[2]), e[3]) IN Erased(e[2], p, p < Len(Q(e[2])) /\ Q(e[2])[p + 1] % 2 = 0, e[4])
    [] e[1] = "splitlb" -> SplitAt(e[2], Below(Q(e[2]), e[3]))
    [] e[1] = "splitub" -> SplitAt(e[2], AtMost(Q(e[2]), e[3]))
    [] OTHER -> FALSE
\* sequences of <<key, value>> whose ranges can be sorted by key (keys distinct); folds are over the values
Vals(s) == [i \in DOMAIN s |-> s[i][2]]
SortRange(s, asc) == SortSeq(s, LAMBDA a, b : IF asc THEN a[1] < b[1] ELSE a[1] > b[1])
KSeqStep(e) ==
  CASE e[1] = "ins" -> Upd(e[2], InsSeq(Q(e[2]), e[3], e[4]))
    [] e[1] = "del" -> e[4] = Q(e[2])[e[3] + 1] /\ Upd(e[2], DelSeq(Q(e[2]), e[3]))
    [] e[1] = "setkv" -> e[5] = Q(e[2])[e[3] + 1] /\ Upd(e[2], [Q(e[2]) EXCEPT ![e[3] + 1] = e[4]])
    [] e[1] = "setv" -> e[5] = Q(e[2])[e[3] + 1][2] /\ Upd(e[2], [Q(e[2]) EXCEPT ![e[3] + 1][2] = e[4]])
    [] e[1] = "get" -> e[4] = Q(e[2])[e[3] + 1][2] /\ Keep
    [] e[1] = "split" -> SplitAt(e[2], e[3])
    [] e[1] = "merge" -> e[2] # e[3] /\ st' = [st EXCEPT ![e[2] + 1] = Q(e[2]) \o Q(e[3]), ![e[3] + 1] = <<>>]
    [] e[1] = "sort" -> Upd(e[2], Splice(Q(e[2]), e[3], e[4], SortRange(Sl(Q(e[2]), e[3], e[4]), e[5])))
    [] e[1] = "prod" -> e[5] = FoldOf(Vals(Sl(Q(e[2]), e[3], e[4]))) /\ Keep
    [] e[1] = "mr" -> LET r == e[3] + Lcp(Vals(Sl(Q(e[2]), e[3], Len(Q(e[2])))), e[4]) IN e[5] = r /\ e[6] = FoldOf(Vals(Sl(Q(e[2]), e[3], r))) /\ Keep
    [] e[1] = "ml" -> LET l == e[3] - Lcs(Vals(Sl(Q(e[2]), 0, e[3])), e[4]) IN e[5] = l /\ e[6] = FoldOf(Vals(Sl(Q(e[2]), l, e[3]))) /\ Keep
    [] e[1] = "dump" -> e[3] = Q(e[2]) /\ Keep
    [] e[1] = "rdump" -> e[3] = Reverse(Q(e[2])) /\ Keep
    [] e[1] = "keys" -> e[3] = [i \in DOMAIN Q(e[2]) |-> Q(e[2])[i][1]] /\ Keep
    [] e[1] = "len" -> e[3] = Len(Q(e[2])) /\ Keep
    [] OTHER -> FALSE
=============================================================================
