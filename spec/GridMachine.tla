----------------------------- MODULE GridMachine ----------------------------
(* A two-dimensional array (matrix or sparse points) under point updates,   *)
(* rectangle updates and rectangle aggregates; half-open ranges.            *)
EXTENDS Fold, MState
\* st: sequence of rows
Cells(u, d, l, r) == FlattenSeq([i \in 1..(d - u) |-> SubSeq(st[u + i], l + 1, r)])
CellWrite(i, j, v) == st' = [st EXCEPT ![i + 1][j + 1] = v]
Cell(i, j) == st[i + 1][j + 1]
RectMap(u, d, l, r, G(_)) == st' = [i \in DOMAIN st |-> IF u < i /\ i <= d
     THEN [j \in DOMAIN st[i] |-> IF l < j /\ j <= r THEN G(st[i][j]) ELSE st[i][j]] ELSE st[i]]
Above(u, d, j, v) == \E i \in (u + 1)..d : st[i][j] > v
FirstAbove(u, d, l, v) == LET C == {j \in (l + 1)..Len(st[1]) : Above(u, d, j, v)} IN IF C = {} THEN Len(st[1]) ELSE Min(C) - 1
LastAbove(u, d, r, v) == LET C == {j \in 1..r : Above(u, d, j, v)} IN IF C = {} THEN 0 ELSE Max(C)
GridStep(e) ==
  CASE e[1] = "get" -> e[4] = Cell(e[2], e[3]) /\ UNCHANGED st
    [] e[1] = "set" -> CellWrite(e[2], e[3], e[4])
    [] e[1] = "add" -> CellWrite(e[2], e[3], Cell(e[2], e[3]) + e[4])
    [] e[1] = "mul" -> CellWrite(e[2], e[3], Cell(e[2], e[3]) * e[4])
    [] e[1] = "div" -> CellWrite(e[2], e[3], CDiv(Cell(e[2], e[3]), e[4]))
    [] e[1] = "mod" -> CellWrite(e[2], e[3], CMod(Cell(e[2], e[3]), e[4]))
    [] e[1] = "chmax" -> CellWrite(e[2], e[3], MaxOf(Cell(e[2], e[3]), e[4]))
    [] e[1] = "radd" -> LET v == e[6] IN RectMap(e[2], e[3], e[4], e[5], LAMBDA x : x + v)
    [] e[1] = "sum" -> e[6] = SumSeq(Cells(e[2], e[3], e[4], e[5])) /\ UNCHANGED st
    [] e[1] = "none" -> e[2] = 0 /\ UNCHANGED st
    [] e[1] = "max" -> e[6] = SeqMax(Cells(e[2], e[3], e[4], e[5]), -1) /\ UNCHANGED st
    \* rows u..d-1: the first column from l on (the column after the last one before r) holding a value above v
    [] e[1] = "up" -> e[6] = FirstAbove(e[2], e[3], e[4], e[5]) /\ UNCHANGED st
    [] e[1] = "down" -> e[6] = LastAbove(e[2], e[3], e[4], e[5]) /\ UNCHANGED st
    [] OTHER -> FALSE
\* integer plane under rectangle additions; st is the set-sequence of additions <<l, r, d, u, v>>
Ov(a, b, c, d) == MaxOf(0, MinOf(b, d) - MaxOf(a, c))
PlaneSum(l, r, d, u) == FoldLeft(LAMBDA a, q : a + q[5] * Ov(l, r, q[1], q[2]) * Ov(d, u, q[3], q[4]), 0, st)
\* the same with residues mod PR as values (huge coordinates)
PlaneSumM(l, r, d, u) == FoldLeft(LAMBDA a, q : (a + ((((q[5] * (Ov(l, r, q[1], q[2]) % PR)) % PR) * (Ov(d, u, q[3], q[4]) % PR)) % PR)) % PR, 0, st)
PlaneMStep(e) ==
  CASE e[1] = "radd" -> st' = Append(st, <<e[2], e[3], e[4], e[5], e[6] % PR>>)
    [] e[1] = "rsum" -> e[6] = PlaneSumM(e[2], e[3], e[4], e[5]) /\ UNCHANGED st
    [] OTHER -> FALSE
PlaneStep(e) ==
  CASE e[1] = "radd" -> st' = Append(st, <<e[2], e[3], e[4], e[5], e[6]>>)
    [] e[1] = "rsum" -> e[6] = PlaneSum(e[2], e[3], e[4], e[5]) /\ UNCHANGED st
    [] e[1] = "pget" -> e[4] = PlaneSum(e[2], e[2] + 1, e[3], e[3] + 1) /\ UNCHANGED st
    [] OTHER -> FALSE
\* 3-d point cloud; st is a sequence of <<x, y, z, v>> cells (ranks)
CubeSum(b) == FoldLeft(LAMBDA a, c : IF \A k \in 1..Len(b) : b[k][1] <= c[k] /\ c[k] < b[k][2] THEN a + c[Len(c)] ELSE a, 0, st)
CubeStep(e) ==
  CASE e[1] = "add" -> st' = [i \in DOMAIN st |-> IF Front(st[i]) = e[2] THEN Append(e[2], Last(st[i]) + e[3]) ELSE st[i]]
    [] e[1] = "set" -> st' = [i \in DOMAIN st |-> IF Front(st[i]) = e[2] THEN Append(e[2], e[3]) ELSE st[i]]
    [] e[1] = "sum" -> e[3] = CubeSum(e[2]) /\ UNCHANGED st
    [] e[1] = "get" -> e[3] = FoldLeft(LAMBDA a, c : IF Front(c) = e[2] THEN a + Last(c) ELSE a, 0, st) /\ UNCHANGED st
    [] OTHER -> FALSE
=============================================================================
