----------------------------- MODULE OffMachine -----------------------------
(* Off-line algorithms and static range queries.                            *)
(* Kinds: "off"  stateless questions about a given array, grid or history   *)
(*        "mo"   the moving window [l, r) of Mo's algorithm                 *)
(*        "sat"  a growing set of clauses (Horn, 2-SAT)                     *)
(*        "odc"  a multiset of edges changing over time                     *)
(*        "gc"   a grid grown row by row and its connected components       *)
EXTENDS Common, Big, MState, Bitwise
OffInit(k, p) ==
  CASE k = "off" -> [a |-> IF p = <<>> THEN <<>> ELSE p[1]]
    [] k = "mo"  -> [l |-> 0, r |-> 0, qs |-> p[2], n |-> p[1], done |-> {}]
    [] k = "sat" -> [n |-> p[1], cl |-> <<>>]
    [] k = "odc" -> [n |-> p[1], w |-> p[2], es |-> <<>>, ans |-> <<>>]
    [] k = "gc"  -> [m |-> p[1], rows |-> <<>>]
\* -------------------------------------------------- satisfiability
\* a clause is a set of literals <<variable, value>>; FALSE is the empty clause
Sat(n, cl) == \E v \in [0..(n - 1) -> BOOLEAN] : \A c \in SeqToSet(cl) : \E q \in c : v[q[1]] = q[2]
Model(n, cl, x) == Len(x) = n /\ \A c \in SeqToSet(cl) : \E q \in c : x[q[1] + 1] = q[2]
SatStep(e) ==
  CASE e[1] = "horn" -> \* (and of e[2]) => (e[3] = e[4]); e[3] < 0: a contradiction
          st' = [st EXCEPT !.cl = Append(@, {<<e[2][i], FALSE>> : i \in DOMAIN e[2]} \cup (IF e[3] < 0 THEN {} ELSE {<<e[3], e[4]>>}))]
    [] e[1] = "implies" -> st' = [st EXCEPT !.cl = Append(@, {<<e[2], ~e[3]>>, <<e[4], e[5]>>})]
    [] e[1] = "set" -> st' = [st EXCEPT !.cl = Append(@, {<<e[2], e[3]>>})]
    [] e[1] = "clause" -> st' = [st EXCEPT !.cl = Append(@, {<<e[2], e[3]>>, <<e[4], e[5]>>})]
    [] e[1] = "at_most_one" -> st' = [st EXCEPT !.cl = Append(@, {<<e[2], ~e[3]>>, <<e[4], ~e[5]>>})]
    [] e[1] = "exactly_one" -> st' = [st EXCEPT !.cl = @ \o << {<<e[2], e[3]>>, <<e[4], e[5]>>}, {<<e[2], ~e[3]>>, <<e[4], ~e[5]>>} >>]
    [] e[1] = "solve" -> UNCHANGED st /\ Holds(e[2] = Sat(st.n, st.cl) /\ (e[2] => Model(st.n, st.cl, e[3])))
    [] OTHER -> FALSE
\* -------------------------------------------------- Mo's window
MoStep(e) ==
  CASE e[1] = "addl" -> e[2] = st.l - 1 /\ st.l > 0 /\ e[3] = <<st.l - 1, st.r>> /\ st' = [st EXCEPT !.l = @ - 1]
    [] e[1] = "dell" -> e[2] = st.l /\ st.l < st.r /\ e[3] = <<st.l, st.r>> /\ st' = [st EXCEPT !.l = @ + 1]
    [] e[1] = "addr" -> e[2] = st.r /\ st.r < st.n /\ e[3] = <<st.l, st.r>> /\ st' = [st EXCEPT !.r = @ + 1]
    [] e[1] = "delr" -> e[2] = st.r - 1 /\ st.l < st.r /\ e[3] = <<st.l, st.r - 1>> /\ st' = [st EXCEPT !.r = @ - 1]
    \* one callback for both ends: the reported range tells which end moves
    [] e[1] = "add" -> IF e[2] = st.r /\ e[3] = <<st.l, st.r>> THEN st.r < st.n /\ st' = [st EXCEPT !.r = @ + 1]
                       ELSE e[2] = st.l - 1 /\ st.l > 0 /\ e[3] = <<st.l - 1, st.r>> /\ st' = [st EXCEPT !.l = @ - 1]
    [] e[1] = "del" -> st.l < st.r /\ IF e[2] = st.l /\ e[3] = <<st.l, st.r>> THEN st' = [st EXCEPT !.l = @ + 1]
                       ELSE e[2] = st.r - 1 /\ e[3] = <<st.l, st.r - 1>> /\ st' = [st EXCEPT !.r = @ - 1]
    \* the answer of query e[2] is taken exactly when the window is that query
    [] e[1] = "eval" -> e[2] \in 0..(Len(st.qs) - 1) /\ e[2] \notin st.done /\ st.qs[e[2] + 1] = <<st.l, st.r>> /\ e[3] = <<st.l, st.r>> /\ st' = [st EXCEPT !.done = @ \cup {e[2]}]
    \* results are delivered in query order: the driver's answer is the pair <<query id, number>>
    [] e[1] = "result" -> st.done = 0..(Len(st.qs) - 1) /\ e[2] = [i \in 1..Len(st.qs) |-> i - 1] /\ st' = [st EXCEPT !.l = 0, !.r = 0, !.done = {}]
    [] OTHER -> FALSE
\* -------------------------------------------------- edges over time
RECURSIVE OReach(_, _)
OReach(S, E) == LET T == S \cup {q[2] : q \in {x \in E : x[1] \in S}} \cup {q[1] : q \in {x \in E : x[2] \in S}} IN IF T = S THEN S ELSE OReach(T, E)
Comp(u) == OReach({u}, SeqToSet(st.es))
Norm(u, v) == <<MinOf(u, v), MaxOf(u, v)>>
OdcStep(e) ==
  CASE e[1] = "add" -> st' = [st EXCEPT !.es = Append(@, Norm(e[2], e[3]))]
    [] e[1] = "del" -> LET i == CHOOSE i \in DOMAIN st.es : st.es[i] = Norm(e[2], e[3]) IN st' = [st EXCEPT !.es = DelSeq(@, i - 1)]
    [] e[1] = "conn" -> st' = [st EXCEPT !.ans = Append(@, <<0, e[3] \in Comp(e[2])>>)]
    [] e[1] = "sum" -> st' = [st EXCEPT !.ans = Append(@, <<1, SumSeq([i \in 1..st.n |-> IF (i - 1) \in Comp(e[2]) THEN st.w[i] ELSE 0])>>)]
    [] e[1] = "answer" -> e[2] = st.ans /\ UNCHANGED st
    [] OTHER -> FALSE
\* -------------------------------------------------- grid connectivity
GCells == {<<i, j>> \in (1..Len(st.rows)) \X (1..st.m) : st.rows[i][j] = 1}
RECURSIVE GReach(_, _)
GReach(S, C) == LET T == S \cup {c \in C : \E q \in S : Abs(q[1] - c[1]) + Abs(q[2] - c[2]) = 1} IN IF T = S THEN S ELSE GReach(T, C)
\* components (as sets of cells) that meet row i, in the grid cut after row i
CompsAt(rows, m) == LET h == Len(rows)  C == {<<i, j>> \in (1..h) \X (1..m) : rows[i][j] = 1} IN {GReach({c}, C) : c \in {x \in C : x[1] = h}}
Labels(rows, m) == LET h == Len(rows)  K == CompsAt(rows, m)
                       first(j) == Min({q[2] : q \in {x \in (CHOOSE G \in K : <<h, j>> \in G) : x[1] = h}})
                   IN [j \in 1..m |-> IF rows[h][j] = 0 THEN -1 ELSE Cardinality({first(i) : i \in {x \in 1..(first(j) - 1) : rows[h][x] = 1}})]
GcStep(e) == LET rows == Append(st.rows, e[2])  old == IF st.rows = <<>> THEN {} ELSE CompsAt(st.rows, st.m)  new == CompsAt(rows, st.m) IN
  /\ st' = [st EXCEPT !.rows = rows]
  /\ Holds(e[3] = Labels(rows, st.m) /\ e[4] = Cardinality(new) /\ e[5] = Cardinality({G \in old : \A H \in new : ~(G \subseteq H)}))
\* -------------------------------------------------- stateless
Inversions(a) == Cardinality({q \in (1..Len(a)) \X (1..Len(a)) : q[1] < q[2] /\ a[q[1]] > a[q[2]]})
Freq(a, v) == Count(a, LAMBDA x : x = v)
IsMode(a, v, f) == Freq(a, v) = f /\ \A w \in SeqToSet(a) : Freq(a, w) <= f
Mex(S) == Min({v \in 0..Cardinality(S) : v \notin S})
IsRmq(s, v, mn) == v \in SeqToSet(s) /\ \A i \in 1..Len(s) : IF mn THEN s[i] >= v ELSE s[i] <= v
Area(rs) == LET X == UNION {{q[1], q[2]} : q \in SeqToSet(rs)}  Y == UNION {{q[3], q[4]} : q \in SeqToSet(rs)}
                xs == Sorted(SetToSeq(X))  ys == Sorted(SetToSeq(Y))
            IN BSum(FlattenSeq([i \in 1..(Len(xs) - 1) |-> [j \in 1..(Len(ys) - 1) |->
                 IF \E q \in SeqToSet(rs) : q[1] <= xs[i] /\ q[2] >= xs[i + 1] /\ q[3] <= ys[j] /\ q[4] >= ys[j + 1] THEN BMul(BSub(xs[i + 1], xs[i]), BSub(ys[j + 1], ys[j])) ELSE 0]]))
\* rectangles <<u, d, l, r>> (half-open) of a 0/1 grid
AllOnes(g, u, d, l, r) == \A i \in (u + 1)..d, j \in (l + 1)..r : g[i][j] = 1
InGrid(g, q) == 0 <= q[1] /\ q[1] <= q[2] /\ q[2] <= Len(g) /\ 0 <= q[3] /\ q[3] <= q[4] /\ q[4] <= Len(g[1])
Rects(g) == IF g = <<>> THEN {} ELSE {q \in (0..Len(g)) \X (1..Len(g)) \X (0..Len(g[1])) \X (1..Len(g[1])) : q[1] < q[2] /\ q[3] < q[4] /\ AllOnes(g, q[1], q[2], q[3], q[4])}
Inside(q, t) == t[1] <= q[1] /\ q[2] <= t[2] /\ t[3] <= q[3] /\ q[4] <= t[4]
MaximalIn(R) == {q \in R : \A t \in R : Inside(q, t) => t = q}
RArea(q) == (q[2] - q[1]) * (q[4] - q[3])
IsMaximals(g, out) == LET R == Rects(g) IN /\ \A i \in DOMAIN out : InGrid(g, out[i]) /\ AllOnes(g, out[i][1], out[i][2], out[i][3], out[i][4])
                                            /\ MaximalIn(R) \subseteq SeqToSet(out)
IsMaximum(g, ar, q, sq) == LET R == {t \in Rects(g) : sq => t[2] - t[1] = t[4] - t[3]} IN
  IF R = {} THEN ar = 0 ELSE q \in R /\ RArea(q) = ar /\ \A t \in R : RArea(t) <= ar
HistRects(h) == {q \in (0..Len(h)) \X (1..Len(h)) : q[1] < q[2]}
IsHist(h, out) == LET mn(q) == SeqMin(Sl(h, q[1], q[2]), h[q[1] + 1])
                      mx == {q \in HistRects(h) : mn(q) > 0 /\ (q[1] = 0 \/ h[q[1]] < mn(q)) /\ (q[2] = Len(h) \/ h[q[2] + 1] < mn(q))} IN
  /\ \A i \in DOMAIN out : LET q == out[i] IN 0 <= q[1] /\ q[1] < q[2] /\ q[2] <= Len(h) /\ q[3] <= mn(<<q[1], q[2]>>)
  /\ \A q \in mx : \E i \in DOMAIN out : out[i] = <<q[1], q[2], mn(q)>>
\* longest subsequences: index lists
Rel(c, x, y) == CASE c = "inc" -> x < y [] c = "nondec" -> x <= y [] c = "noninc" -> x >= y [] c = "dec" -> x > y
RECURSIVE LisFrom(_, _, _, _)
LisFrom(a, c, i, d) == IF i > Len(a) THEN SeqMax(d, 0) ELSE LisFrom(a, c, i + 1, TLCEval(Append(d, 1 + SeqMax([j \in 1..(i - 1) |-> IF Rel(c, a[j], a[i]) THEN d[j] ELSE 0], 0))))
IsLis(a, c, r) == /\ Len(r) = LisFrom(a, c, 1, <<>>)
                  /\ \A i \in 1..Len(r) : r[i] \in 0..(Len(a) - 1)
                  /\ \A i \in 2..Len(r) : r[i - 1] < r[i] /\ Rel(c, a[r[i - 1] + 1], a[r[i] + 1])
RECURSIVE Subseqs(_)
Subseqs(a) == IF a = <<>> THEN {<<>>} ELSE LET S == Subseqs(Front(a)) IN S \cup {Append(s, Last(a)) : s \in S}
\* common intervals of a permutation p of 0..n-1: index ranges whose values are consecutive
Ivs(p) == {q \in (0..Len(p)) \X (0..Len(p)) : q[1] < q[2] /\ LET s == SeqToSet(Sl(p, q[1], q[2])) IN Max(s) - Min(s) = q[2] - q[1] - 1}
Overlap(q, t) == q[1] < t[1] /\ t[1] < q[2] /\ q[2] < t[2]
Strong(p) == LET I == TLCEval(Ivs(p)) IN {q \in I : \A t \in I : ~Overlap(q, t) /\ ~Overlap(t, q)}
\* nodes <<l, r, vl, vr, join, <<l of each child>>>> in preorder
IsPermTree(p, nodes) == LET S == TLCEval(Strong(p))  I == TLCEval(Ivs(p)) IN
  /\ Len(nodes) = Cardinality(S) /\ {<<nodes[i][1], nodes[i][2]>> : i \in DOMAIN nodes} = S
  /\ (p # <<>> => nodes[1][1] = 0 /\ nodes[1][2] = Len(p))
  /\ \A i \in DOMAIN nodes : LET q == nodes[i]  c == q[6]
         kids == {t \in S : t # <<q[1], q[2]>> /\ Inside(<<0, 0, t[1], t[2]>>, <<0, 0, q[1], q[2]>>) /\ ~\E v \in S : v # t /\ v # <<q[1], q[2]>> /\ v[1] <= t[1] /\ t[2] <= v[2] /\ q[1] <= v[1] /\ v[2] <= q[2]} IN
      /\ LET s == SeqToSet(Sl(p, q[1], q[2])) IN q[3] = Min(s) /\ q[4] = Max(s) + 1
      /\ c = Sorted(SetToSeq({t[1] : t \in kids}))
      /\ (c # <<>> => q[5] = (<<c[1], IF Len(c) = 2 THEN q[2] ELSE c[3]>> \in I))
OffOk(e) ==
  CASE e[1] = "inv" -> e[3] = Inversions(e[2])
    \* a descending array: every pair of a range is an inversion. n, all, <<l, r, answer>>...
    [] e[1] = "invdesc" -> BEq(BMul(2, e[3]), BMul(e[2], e[2] - 1)) /\ \A i \in DOMAIN e[4] : LET w == e[4][i][2] - e[4][i][1] IN BEq(BMul(2, e[4][i][3]), BMul(w, w - 1))
    [] e[1] = "rinv" -> e[4] = Inversions(Sl(st.a, e[2], e[3]))
    [] e[1] = "mode" -> IsMode(Sl(st.a, e[2], e[3]), e[4], e[5])
    [] e[1] = "distinct" -> \A i \in DOMAIN e[2] : e[3][i] = Cardinality(SeqToSet(Sl(st.a, e[2][i][1], e[2][i][2])))
    [] e[1] = "mex" -> BEq(e[5], Mex({BInt(v) : v \in {u \in {BXor(x, e[4]) : x \in SeqToSet(Sl(st.a, e[2], e[3]))} : BLe(u, Len(st.a))}}))
    [] e[1] = "rmq" -> IF e[3] = e[4] THEN TRUE ELSE IsRmq(Sl(st.a, e[3], e[4]), e[5], e[2])
    [] e[1] = "rmqi" -> IF e[3] = e[4] THEN TRUE ELSE IsRmq(Sl(st.a, e[3], e[4]), e[5], e[2]) /\ e[6] \in e[3]..(e[4] - 1) /\ st.a[e[6] + 1] = e[5]
    [] e[1] = "area" -> BEq(e[3], Area(e[2]))
    [] e[1] = "maximals" -> IsMaximals(e[2], e[3])
    [] e[1] = "maxrect" -> IsMaximum(e[2], e[3], e[4], FALSE)
    [] e[1] = "maxsquare" -> IsMaximum(e[2], e[3], e[4], TRUE)
    [] e[1] = "hist" -> IsHist(e[2], e[3])
    [] e[1] = "lis" -> IsLis(e[3], e[2], e[4])
    [] e[1] = "nsub" -> e[3] = Cardinality(Subseqs(e[2])) - 1
    [] e[1] = "ptree" -> IsPermTree(e[2], e[3])
    [] OTHER -> FALSE
OffNext(k, p, e) ==
  CASE k = "off" -> UNCHANGED st /\ Holds(OffOk(e))
    [] k = "mo" -> MoStep(e)
    [] k = "sat" -> SatStep(e)
    [] k = "odc" -> OdcStep(e)
    [] k = "gc" -> e[1] = "row" /\ GcStep(e)
=============================================================================
