---------------------------- MODULE QueueMachine ----------------------------
(* Priority queues, aggregating queues and windows.                         *)
EXTENDS Fold, MState
Same == UNCHANGED st
(* PQStep: st = <<d, elements>>: a multiset (ascending) ordered by x \div d,*)
(* so with d > 1 several elements compare equal.                            *)
Key(x) == x \div st[1]
Low(s, x) == Count(s, LAMBDA y : y < x)
AddTo(s, x) == InsSeq(s, Low(s, x), x)
Member(s, x) == LET i == Low(s, x) IN i < Len(s) /\ s[i + 1] = x
Drop(s, x) == DelSeq(s, Low(s, x))
PQStep(e) ==
  CASE e[1] = "push" -> st' = <<st[1], AddTo(st[2], e[2])>>
    [] e[1] = "min" -> Member(st[2], e[2]) /\ Key(e[2]) = Key(st[2][1]) /\ Same
    [] e[1] = "max" -> Member(st[2], e[2]) /\ Key(e[2]) = Key(Last(st[2])) /\ Same
    [] e[1] = "popmin" -> Member(st[2], e[2]) /\ Key(e[2]) = Key(st[2][1]) /\ st' = <<st[1], Drop(st[2], e[2])>>
    [] e[1] = "popmax" -> Member(st[2], e[2]) /\ Key(e[2]) = Key(Last(st[2])) /\ st' = <<st[1], Drop(st[2], e[2])>>
    [] e[1] = "size" -> e[2] = Len(st[2]) /\ e[3] = (st[2] = <<>>) /\ Same
    [] e[1] = "clear" -> st' = <<st[1], <<>> >>
    [] e[1] = "dump" -> /\ Same /\ Sorted(e[2]) = st[2]                       \* the elements, ascending by key
                        /\ (e[3] => \A i \in 1..(Len(e[2]) - 1) : Key(e[2][i]) <= Key(e[2][i + 1]))
    [] OTHER -> FALSE
(* PSumStep: st = <<k, elements ascending, first>>: the sum of the k least  *)
(* (first) or greatest elements of a changing multiset.                     *)
PSumStep(e) ==
  CASE e[1] = "ins" -> st' = [st EXCEPT ![2] = AddTo(st[2], e[2])]
    [] e[1] = "era" -> st' = [st EXCEPT ![2] = Drop(st[2], e[2])]
    [] e[1] = "setk" -> st' = [st EXCEPT ![1] = e[2]]
    [] e[1] = "sum" -> /\ Same /\ e[3] = st[1] /\ e[4] = Len(st[2])
                       /\ LET n == Len(st[2]) k == MinOf(st[1], n) IN e[2] = SumSeq(IF st[3] THEN Sl(st[2], 0, k) ELSE Sl(st[2], n - k, n))
    [] OTHER -> FALSE
(* AggStep: st is the queue, front first.                                   *)
AggStep(e) ==
  CASE e[1] = "pushb" -> st' = Append(st, e[2])
    [] e[1] = "pushf" -> st' = <<e[2]>> \o st
    [] e[1] = "popb" -> st # <<>> /\ st' = Front(st)
    [] e[1] = "popf" -> st # <<>> /\ st' = Tail(st)
    [] e[1] = "ends" -> e[2] = st[1] /\ e[3] = Last(st) /\ Same
    [] e[1] = "at" -> e[3] = st[e[2] + 1] /\ Same
    [] e[1] = "size" -> e[2] = Len(st) /\ Same
    [] e[1] = "prod" -> e[2] = FoldOf(st) /\ Same
    [] e[1] = "dump" -> e[2] = st /\ Same
    [] e[1] = "it" -> (e[2] + e[3] < Len(st) => e[4] = st[e[2] + e[3] + 1]) /\ e[5] = e[3] /\ e[6] = <<e[3] < 0, e[3] <= 0, e[3] > 0, e[3] >= 0, e[3] = 0>> /\ Same
    [] e[1] = "clear" -> st' = <<>>
    [] OTHER -> FALSE
(* WinStep: st = <<array, l, r, best is min, prefer leftmost>>              *)
Better(mn, a, b) == IF mn THEN a < b ELSE a > b
WinStep(e) ==
  CASE e[1] = "right" -> st' = [st EXCEPT ![3] = MaxOf(st[3], e[2])]
    [] e[1] = "left" -> st' = [st EXCEPT ![2] = MaxOf(st[2], e[2])]
    [] e[1] = "q" -> /\ Same /\ e[2] = <<st[2], st[3], st[3] - st[2]>>
                     /\ LET a == st[1] i == e[3] + 1 IN
                        /\ st[2] < i /\ i <= st[3] /\ e[4] = a[i]
                        /\ \A j \in (st[2] + 1)..st[3] : ~Better(st[4], a[j], a[i]) /\ (a[j] = a[i] => IF st[5] THEN i <= j ELSE j <= i)
    [] OTHER -> FALSE
(* CartStep: the Cartesian tree of an array; among equals the leftmost is   *)
(* the ancestor.  The subtree of i spans the largest interval in which i is *)
(* the leftmost best element.                                               *)
CartStep(e) ==
  CASE e[1] = "cart" ->
    LET a == e[2] n == Len(a) mn == e[3]
        L(i) == MaxOf(0, SeqMax([j \in 1..(i - 1) |-> IF ~Better(mn, a[i], a[j]) THEN j ELSE 0], 0))         \* 1-based, 0: none
        R(i) == SeqMin([j \in 1..(n - i) |-> IF Better(mn, a[i + j], a[i]) THEN i + j ELSE n + 1], n + 1)
        par(i) == LET l == L(i) r == R(i) IN
                  IF l = 0 /\ r = n + 1 THEN -1 ELSE IF l = 0 THEN r - 1 ELSE IF r = n + 1 THEN l - 1
                  ELSE IF Better(mn, a[r], a[l]) THEN l - 1 ELSE r - 1
        ps == [i \in 1..n |-> par(i)]
        Kid(p, left) == LET c == SelectSeq([i \in 1..n |-> i], LAMBDA i : ps[i] = p - 1 /\ (IF left THEN i < p ELSE i > p)) IN IF c = <<>> THEN -1 ELSE c[1] - 1
    IN /\ Same /\ e[4] = ps
       /\ e[5] = (IF n = 0 THEN -1 ELSE (CHOOSE i \in 1..n : ps[i] = -1) - 1)
       /\ e[6] = [p \in 1..n |-> <<Kid(p, TRUE), Kid(p, FALSE)>>]
       /\ e[7] = [i \in 1..n |-> <<L(i), R(i) - 1>>]
    [] OTHER -> FALSE
=============================================================================
