----------------------------- MODULE LineMachine ----------------------------
(* Envelopes of lines, convex piecewise-linear functions, hulls of changing *)
(* point sets, totally monotone rows.                                       *)
EXTENDS Common, Big, MState
Same == UNCHANGED st
At(f, x) == BAdd(BMul(f[1], x), f[2])
Best(mn, a, b) == IF mn THEN BMin(a, b) ELSE BMax(a, b)
BestAt(mn, fs, x) == FoldLeft(LAMBDA a, f : IF a = "none" THEN At(f, x) ELSE Best(mn, a, At(f, x)), "none", fs)
\* st = <<minimum?, segments <<a, b, lo, hi>> >>; a line has lo = "-inf"
LineStep(e) ==
  CASE e[1] = "line" -> st' = [st EXCEPT ![2] = Append(@, <<e[2], e[3]>>)]
    [] e[1] = "seg" -> st' = [st EXCEPT ![2] = Append(@, <<e[4], e[5], e[2], e[3]>>)]
    [] e[1] = "q" -> Same /\ e[3] = BestAt(st[1], SelectSeq(st[2], LAMBDA f : Len(f) = 2 \/ (BLe(f[3], e[2]) /\ BLe(e[2], f[4]))), e[2])
    [] e[1] = "has" -> Same /\ e[2] = (st[2] # <<>>)
    [] OTHER -> FALSE
\* st: values of a convex function at -B..B (all breakpoints strictly inside), linear beyond
B == 40
Val(f, x) == IF x < -B THEN f[1] + (-B - x) * (f[1] - f[2]) ELSE IF x > B THEN f[2 * B + 1] + (x - B) * (f[2 * B + 1] - f[2 * B]) ELSE f[x + B + 1]
Tab(F(_)) == [i \in 1..(2 * B + 1) |-> F(i - B - 1)]
WinMin(f, lo, hi) == SeqMin([j \in 1..(hi - lo + 1) |-> Val(f, lo + j - 1)], Val(f, lo))
FMin == SeqMin(st, st[1])
Zero == Tab(LAMBDA x : 0)
ArgLo == IF st[1] = FMin THEN -2147483647 ELSE (CHOOSE i \in 1..(2 * B + 1) : st[i] = FMin /\ st[i - 1] # FMin) - B - 1
ArgHi == IF st[2 * B + 1] = FMin THEN 2147483647 ELSE (CHOOSE i \in 1..(2 * B + 1) : st[i] = FMin /\ st[i + 1] # FMin) - B - 1
\* breakpoints with multiplicity, ascending
Breaks == FlattenSeq([i \in 1..(2 * B - 1) |-> Const(st[i + 2] - 2 * st[i + 1] + st[i], i - B)])
SlopeStep(e) ==
  CASE e[1] = "const" -> st' = Tab(LAMBDA x : st[x + B + 1] + e[2])
    [] e[1] = "right" -> st' = Tab(LAMBDA x : st[x + B + 1] + MaxOf(0, x - e[2]))
    [] e[1] = "left" -> st' = Tab(LAMBDA x : st[x + B + 1] + MaxOf(0, e[2] - x))
    [] e[1] = "abs" -> st' = Tab(LAMBDA x : st[x + B + 1] + Abs(x - e[2]))
    [] e[1] = "cml" -> st' = Tab(LAMBDA x : WinMin(st, -B, x))
    [] e[1] = "cmr" -> st' = Tab(LAMBDA x : WinMin(st, x, B))
    [] e[1] = "tr" -> st' = Tab(LAMBDA x : Val(st, x - e[2]))
    [] e[1] = "win" -> st' = Tab(LAMBDA x : WinMin(st, x - e[3], x - e[2]))
    [] e[1] = "q" -> Same /\ e[2] = FMin /\ e[3] = <<ArgLo, ArgHi>>
    [] e[1] = "lines" -> /\ Same /\ e[3] = FMin
                         /\ LET k == st[1] - st[2] IN e[2] = Sl(Breaks, 0, k) /\ e[4] = Sl(Breaks, k, Len(Breaks))
    [] OTHER -> FALSE
\* st: the set of points, as a sequence without repetitions
Cross(o, p, q) == BSub(BMul(BSub(p[1], o[1]), BSub(q[2], o[2])), BMul(BSub(p[2], o[2]), BSub(q[1], o[1])))
\* the points of s on its upper (sg = 1) or lower (sg = -1) boundary, by increasing x
OnHull(s, sg) ==
  LET top == SelectSeq(s, LAMBDA p : \A i \in DOMAIN s : s[i][1] = p[1] => BLe(sg * s[i][2], sg * p[2]))
      ok(p) == \A i, j \in DOMAIN top : (top[i][1] < p[1] /\ p[1] < top[j][1]) => BLe(0, BMul(sg, Cross(top[i], top[j], p)))
  IN SortSeq(SelectSeq(top, ok), LAMBDA p, q : p[1] < q[1])
Boundary(s) == LET u == OnHull(s, 1) l == OnHull(s, -1)
                   xs == {u[i][1] : i \in DOMAIN u}
                   ends == {u[1][1], Last(u)[1]}
               IN SeqToSet(u) \cup SeqToSet(l) \cup {p \in SeqToSet(s) : p[1] \in ends}
HullStep(e) ==
  CASE e[1] = "ins" -> st' = IF \E i \in DOMAIN st : st[i] = e[2] THEN st ELSE Append(st, e[2])
    [] e[1] = "era" -> st' = SelectSeq(st, LAMBDA p : p # e[2])
    [] e[1] = "lin" -> /\ Same
                       /\ LET v == [i \in DOMAIN st |-> BAdd(BMul(e[2], st[i][1]), BMul(e[3], st[i][2]))]
                          IN e[4] = FoldLeft(LAMBDA a, x : BMax(a, x), v[1], v) /\ e[5] = FoldLeft(LAMBDA a, x : BMin(a, x), v[1], v)
    [] e[1] = "hull" -> /\ Same
                        /\ e[2] = OnHull(st, 1) /\ e[3] = OnHull(st, -1)
                        /\ (st = <<>> => e[4] = <<>>)
                        /\ (st # <<>> => /\ SeqToSet(e[4]) = Boundary(st) /\ Len(e[4]) = Cardinality(Boundary(st))
                                         \* in clockwise order: no counter-clockwise turn, starting at the top of the leftmost column
                                         /\ e[4][1] = OnHull(st, 1)[1]
                                         /\ \A i \in 1..(Len(e[4]) - 2) : BLe(Cross(e[4][i], e[4][i + 1], e[4][i + 2]), 0))
    [] OTHER -> FALSE
\* rows of a totally monotone matrix: leftmost minima
RowStep(e) ==
  CASE e[1] = "mm" -> /\ Same /\ Len(e[3]) = Len(e[2])
                      /\ \A i \in DOMAIN e[2] : LET r == e[2][i] k == e[3][i] + 1 IN
                            k \in DOMAIN r /\ \A j \in DOMAIN r : r[k] <= r[j] /\ (j < k => r[k] < r[j])
    [] OTHER -> FALSE
=============================================================================
