----------------------------- MODULE UtilMachine ----------------------------
(* Utilities.  Stateless helpers report arguments and answer in one event;  *)
(* the stateful ones (compressor builder, run-length encoder, pools,        *)
(* pointers, zobrist hashes, default vector) keep their contents in st.     *)
EXTENDS Common, Big, MState
Same(p) == p = TRUE /\ UNCHANGED st
None == <<>>
Opt(S, Pick(_)) == IF S = {} THEN None ELSE <<Pick(S)>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
IsPerm(p) == SeqToSet(p) = 0..(Len(p) - 1)
Ix(p, i) == p[i + 1]
Pos(p, v) == (CHOOSE i \in 1..Len(p) : p[i] = v) - 1
Inv(p) == [i \in 1..Len(p) |-> Pos(p, i - 1)]
Mulp(p, q) == [i \in 1..Len(p) |-> Ix(p, q[i])]
Ident(n) == [i \in 1..n |-> i - 1]
RECURSIVE CycleFrom(_, _, _)
CycleFrom(p, s, v) == IF v = s THEN <<>> ELSE <<v>> \o CycleFrom(p, s, Ix(p, v))
Cycle(p, s) == <<s>> \o CycleFrom(p, s, Ix(p, s))
PowAt(p, k, v) == LET c == Cycle(p, v) IN c[BInt(BMod(k, Len(c))) + 1]
Fact(n) == BProd([i \in 1..n |-> i])
\* runs of a sequence
RECURSIVE Runs(_)
Runs(s) == IF s = <<>> THEN <<>> ELSE
  LET k == Min({i \in 1..Len(s) : i = Len(s) \/ s[i + 1] # s[1]}) IN <<<<s[1], k>>>> \o Runs(SubSeq(s, k + 1, Len(s)))
RECURSIVE SplitBy(_, _)
SplitBy(s, d) == IF \E i \in 1..Len(s) : s[i] = d
  THEN LET k == Min({i \in 1..Len(s) : s[i] = d}) IN <<SubSeq(s, 1, k - 1)>> \o SplitBy(SubSeq(s, k + 1, Len(s)), d) ELSE <<s>>
Steps4 == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
Steps8 == ((-1..1) \X (-1..1)) \ {<<0, 0>>}
NumPairs(la, ra, lb, rb, T(_)) == \* number of (a, b) in the box whose sum satisfies T, small boxes
  Cardinality({ab \in (la..ra) \X (lb..rb) : T(ab[1] + ab[2])})
\* number of pairs with a + b <= s, any size: sums of the clipped row lengths, in closed form
Tri(n) == IF BLt(n, 0) THEN "0" ELSE BDiv(BMul(n, BAdd(n, 1)), 2)
LeqCount(la, ra, lb, rb, s) ==   \* inclusion-exclusion over the two upper bounds
  IF BLt(ra, la) \/ BLt(rb, lb) THEN "0" ELSE
  LET q == BSub(s, BAdd(la, lb))  A == BAdd(BSub(ra, la), 1)  B == BAdd(BSub(rb, lb), 1)
      U(x) == IF BLt(x, 0) THEN "0" ELSE Tri(BAdd(x, 1)) IN
  BAdd(BSub(BSub(U(q), U(BSub(q, A))), U(BSub(q, B))), U(BSub(BSub(q, A), B)))
BoxSize(la, ra, lb, rb) == IF BLt(ra, la) \/ BLt(rb, lb) THEN "0" ELSE BMul(BAdd(BSub(ra, la), 1), BAdd(BSub(rb, lb), 1))
ValueOf(ds, base) == FoldLeft(LAMBDA a, d : BAdd(BMul(a, base), d), "0", Rev(ds))
SetBits(x) == {i \in 0..(BBits(x) - 1) : BBit(x, i) = 1}
Mat(a, n, m, F(_, _)) == Len(a) = n /\ \A i \in 1..n : Len(a[i]) = m /\ \A j \in 1..m : a[i][j] = F(i, j)
Cols(a) == IF a = <<>> THEN 0 ELSE Len(a[1])
Ups(l, r, d) == IF r <= l THEN <<>> ELSE [i \in 1..(((r - l - 1) \div d) + 1) |-> l + (i - 1) * d]
UtilStep(e) ==
  CASE e[1] = "count" -> Same(LET s == e[2]  k == e[3] IN    \* sorted vector s, key k
         e[4] = <<Count(s, LAMBDA x : x <= k), Count(s, LAMBDA x : x < k), Count(s, LAMBDA x : x >= k), Count(s, LAMBDA x : x > k)>>)
    [] e[1] = "near" -> Same(LET S == SeqToSet(e[2])  k == e[3] IN
         e[4] = <<Opt({x \in S : x >= k}, Min), Opt({x \in S : x > k}, Min), Opt({x \in S : x <= k}, Max), Opt({x \in S : x < k}, Max)>>)
    [] e[1] = "split" -> Same(e[4] = SplitBy(e[2], e[3]))
    [] e[1] = "concat" -> Same(e[4] = e[2] \o e[3])
    [] e[1] = "repeat" -> Same(e[4] = FoldLeft(LAMBDA a, i : a \o e[2], <<>>, [i \in 1..e[3] |-> i]))
    [] e[1] = "mapped" -> Same(e[5] = [i \in 1..Len(e[2]) |-> e[2][i] * e[3] + e[4]])
    [] e[1] = "digits" -> Same(/\ \A i \in DOMAIN e[4] : e[4][i] \in 0..(e[3] - 1)
                               /\ BEq(ValueOf(e[4], e[3]), e[2]) /\ Len(e[4]) >= e[5]
                               /\ (Len(e[4]) > MaxOf(e[5], 1) => Last(e[4]) # 0))        \* no superfluous zeros
    [] e[1] = "charmap" -> Same(e[4] = (CASE e[2] = "fd" -> e[3] - 48 [] e[2] = "fa" -> e[3] - 97 [] e[2] = "fA" -> e[3] - 65 [] OTHER -> IF e[3] <= 90 THEN e[3] - 65 ELSE 26 + (e[3] - 97)))
    \* the template: loops, sorting by key, nested vectors
    [] e[1] = "urep" -> Same(e[5] = Ups(e[2], e[3], e[4]))
    [] e[1] = "drep" -> Same(e[5] = Rev(Ups(e[2], e[3], e[4])))
    [] e[1] = "repinf" -> Same(e[4] = [i \in 1..9 |-> e[2] + (i - 1) * e[3]])
    [] e[1] = "loop" -> Same(e[3] = MaxOf(e[2], 0))
    [] e[1] = "sorted_idx" -> Same(SeqToSet(e[3]) = 0..(Len(e[2]) - 1) /\ Len(e[3]) = Len(e[2]) /\ \A i \in 1..(Len(e[3]) - 1) : e[4] * e[2][e[3][i] + 1] <= e[4] * e[2][e[3][i + 1] + 1])
    [] e[1] = "uniq" -> Same(SeqToSet(e[3]) = SeqToSet(e[2]) /\ \A i \in 1..(Len(e[3]) - 1) : e[3][i] < e[3][i + 1])
    [] e[1] = "bykey" -> Same(Perm(e[2], e[3]) /\ \A i \in 1..(Len(e[3]) - 1) : (3 * e[3][i]) % 7 <= (3 * e[3][i + 1]) % 7)
    [] e[1] = "pq" -> Same(/\ Perm(e[2], e[3]) /\ (\A i \in 1..(Len(e[3]) - 1) : <<e[3][i] % 3, e[3][i]>> = <<e[3][i + 1] % 3, e[3][i + 1]>> \/ LexLt(<<e[3][i + 1] % 3, e[3][i + 1]>>, <<e[3][i] % 3, e[3][i]>>))
                           /\ e[4] = Sorted(e[2]) /\ e[5] = Rev(Sorted(e[2])))
    [] e[1] = "nd" -> Same(e[6] = Const(e[2], Const(e[3], Const(e[4], e[5]))) /\ e[7] = Const(e[2], Const(e[3], e[5])) /\ e[8] = Const(e[2], e[5]))
    [] e[1] = "m1" -> Same(e[3] = (IF e[2] % 2 = 0 THEN 1 ELSE -1))
    \* permutations
    [] e[1] = "permute" -> Same(e[4] = [i \in 1..Len(e[2]) |-> Ix(e[3], e[2][i])] /\ e[5] = [i \in 1..Len(e[2]) |-> Ix(e[3], Pos(e[2], i - 1))])
    [] e[1] = "pmul" -> Same(e[4] = Mulp(e[2], e[3]))
    [] e[1] = "pinv" -> Same(e[3] = Inv(e[2]))
    [] e[1] = "ppow" -> Same(e[4] = [i \in 1..Len(e[2]) |-> PowAt(e[2], e[3], i - 1)])
    [] e[1] = "pident" -> Same(e[3] = Ident(e[2]))
    [] e[1] = "isort" -> Same(IsPerm(e[3]) /\ Len(e[3]) = Len(e[2]) /\ \A i \in 1..(Len(e[2]) - 1) :
                              IF e[4] THEN Ix(e[2], e[3][i]) <= Ix(e[2], e[3][i + 1]) ELSE Ix(e[2], e[3][i]) >= Ix(e[2], e[3][i + 1]))
    [] e[1] = "phash" -> Same(BLe(0, e[3]) /\ BLt(e[3], Fact(Len(e[2]))) /\ e[4] = e[2])
    [] e[1] = "punhash" -> Same(IsPerm(e[4]) /\ Len(e[4]) = e[2] /\ e[5] = e[3])          \* unhash, then hash again
    \* grids
    [] e[1] = "adj" -> Same(LET D == IF e[2] = 4 THEN Steps4 ELSE Steps8  all == {<<e[3] + d[1], e[4] + d[2]>> : d \in D}
                                want == IF e[5] = <<>> THEN all ELSE {c \in all : c[1] >= e[5][1] /\ c[1] < e[5][2] /\ c[2] >= e[5][3] /\ c[2] < e[5][4]} IN
                            SeqToSet(e[6]) = want /\ Len(e[6]) = Cardinality(want) /\ e[7] = e[6])
    [] e[1] = "range" -> Same(LET in == e[3] <= e[2] /\ e[2] < e[4]  in0 == 0 <= e[2] /\ e[2] < e[4] IN e[5] = <<in, ~in>> /\ (e[4] >= 0 => e[6] = <<in0, ~in0>>))
    [] e[1] = "rot90" -> Same(LET a == e[2]  n == Len(a)  m == Cols(a) IN IF n = 0 THEN e[3] = a ELSE Mat(e[3], m, n, LAMBDA i, j : a[j][m + 1 - i]))
    [] e[1] = "transpose" -> Same(LET a == e[2]  n == Len(a)  m == Cols(a) IN IF n = 0 THEN e[3] = a ELSE Mat(e[3], m, n, LAMBDA i, j : a[j][i]))
    \* iteration
    [] e[1] = "product" -> Same(LET n == e[2]  all == [1..Len(n) -> 0..(Max(SeqToSet(n) \cup {1}) - 1)]
                                    want == {t \in all : \A i \in 1..Len(n) : t[i] < n[i]} IN
                                /\ SeqToSet(e[3]) = want /\ Len(e[3]) = Cardinality(want)
                                /\ \A i \in 1..(Len(e[3]) - 1) : LexLt(e[3][i], e[3][i + 1]))
    [] e[1] = "subsets" -> Same(LET want == SUBSET SetBits(e[2]) IN                        \* every subset once, descending
                                {SetBits(x) : x \in SeqToSet(e[3])} = want /\ Len(e[3]) = Cardinality(want)
                                /\ \A i \in 1..(Len(e[3]) - 1) : BLt(e[3][i + 1], e[3][i]))
    [] e[1] = "ksubsets" -> Same(LET S == SetBits(e[2])  n == Cardinality(S) IN            \* every k-subset once, ascending
                                 /\ \A i \in DOMAIN e[4] : SetBits(e[4][i]) \subseteq S /\ Cardinality(SetBits(e[4][i])) = e[3]
                                 /\ \A i \in 1..(Len(e[4]) - 1) : BLt(e[4][i], e[4][i + 1])
                                 /\ BEq(Len(e[4]), IF e[3] > n THEN 0 ELSE BDiv(Fact(n), BMul(Fact(e[3]), Fact(n - e[3])))))
    [] e[1] = "setbits" -> Same(SeqToSet(e[3]) = SetBits(e[2]) /\ \A i \in 1..(Len(e[3]) - 1) : e[3][i] < e[3][i + 1])
    [] e[1] = "rep" -> Same(LET l == e[2]  r == e[3]  s == e[4]  n == IF r <= l THEN 0 ELSE (r - l + s - 1) \div s  up == [i \in 1..n |-> l + (i - 1) * s] IN
                            e[6] = (IF e[5] THEN Rev(up) ELSE up))
    [] e[1] = "step" -> Same(LET a == e[2]  at(k) == a[e[3] + k * e[4] + 1] IN             \* view of every e[4]-th element from e[3]
                             e[6] = [i \in 1..e[5] |-> at(i - 1)])
    [] e[1] = "stepit" -> Same(LET a == e[2] IN e[6] = [i \in 1..Len(e[5]) |-> a[e[3] + (e[5][i] * e[4]) + 1]] /\ e[7] = <<TRUE, TRUE, TRUE>>)
    \* searching: f given by its values at l .. r
    [] e[1] = "ternary" -> Same(LET q == e[4]  best == IF e[2] THEN Min(SeqToSet(q)) ELSE Max(SeqToSet(q)) IN
                                e[5] - e[3] \in 0..(Len(q) - 1) /\ q[e[5] - e[3] + 1] = best /\ BEq(e[6], BMul(best, e[7])))
    [] e[1] = "ternaryr" -> Same(Abs(e[2] - e[3]) <= 2)                                    \* in units of 10^-6
    [] e[1] = "bsearch" -> Same(e[2] = e[3])                                               \* f is x >= e[2]
    [] e[1] = "sumcount" -> Same(LET la == e[2]  ra == e[3]  lb == e[4]  rb == e[5]  s == e[6]  le == LeqCount(la, ra, lb, rb, s)  lt == LeqCount(la, ra, lb, rb, BSub(s, 1))  n == BoxSize(la, ra, lb, rb) IN
                                 /\ BEq(e[7][1], BSub(le, lt)) /\ BEq(e[7][2], le) /\ BEq(e[7][3], lt) /\ BEq(e[7][4], BSub(n, lt)) /\ BEq(e[7][5], BSub(n, le)))
    [] e[1] = "sumsmall" -> Same(LET la == e[2]  ra == e[3]  lb == e[4]  rb == e[5]  s == e[6] IN
                                 e[7] = <<NumPairs(la, ra, lb, rb, LAMBDA x : x = s), NumPairs(la, ra, lb, rb, LAMBDA x : x <= s), NumPairs(la, ra, lb, rb, LAMBDA x : x < s),
                                          NumPairs(la, ra, lb, rb, LAMBDA x : x >= s), NumPairs(la, ra, lb, rb, LAMBDA x : x > s)>>)
    \* componentwise arithmetic of pairs and tuples: e[2], e[3] operands, e[4] a factor
    [] e[1] = "tuple" -> Same(LET x == e[2]  y == e[3]  D == DOMAIN x IN
                              e[5] = <<[i \in D |-> x[i] + y[i]], [i \in D |-> x[i] - y[i]], [i \in D |-> x[i] * e[4]], [i \in D |-> e[4] * x[i]]>>)
    [] e[1] = "tuplediv" -> Same(e[4] = [i \in DOMAIN e[2] |-> CDiv(e[2][i], e[3])])
    [] e[1] = "ops" -> Same(LET x == e[2]  y == e[3] IN e[4] = <<x + y, x - y, x * y, CDiv(x, y), CMod(x, y), -x, 0, 1>>)
    [] e[1] = "fldcld" -> Same(BEq(e[4], BDiv(e[2], e[3])) /\ BEq(e[5], BNeg(BDiv(BNeg(e[2]), e[3]))))
    [] e[1] = "chm" -> Same(e[4] = <<e[3] < e[2], MinOf(e[2], e[3])>> /\ e[5] = <<e[3] > e[2], MaxOf(e[2], e[3])>>)
    [] e[1] = "powm1" -> Same(e[3] = IF e[2] % 2 = 0 THEN 1 ELSE -1)
    [] e[1] = "sortu" -> Same(e[3] = SetToSortSeq(SeqToSet(e[2]), <))
    [] e[1] = "proxy" -> Same(e[5] = 1 /\ e[4] = (CASE e[2] = "++" -> e[3][1] + 1 [] e[2] = "--" -> e[3][1] - 1 [] e[2] = "+=" -> e[3][1] + e[3][2] [] e[2] = "-=" -> e[3][1] - e[3][2]
                                   [] e[2] = "*=" -> e[3][1] * e[3][2] [] e[2] = "/=" -> CDiv(e[3][1], e[3][2]) [] e[2] = "%=" -> CMod(e[3][1], e[3][2]) [] e[2] = "=" -> e[3][2]
                                   [] e[2] = "<<=" -> e[3][1] * (2 ^ e[3][2]) [] e[2] = ">>=" -> e[3][1] \div (2 ^ e[3][2]) [] e[2] = "apply" -> 3 * e[3][1] + 1 [] OTHER -> FALSE))
    [] e[1] = "match" -> Same(e[3] = e[2])                                                 \* the alternatives that ran
    [] e[1] = "hash" -> Same((e[2] = e[3]) => (e[4] = e[5]))                               \* equal keys hash equal
    [] OTHER -> FALSE
(* CompStep: coordinate compressor; st = the registered values (a set).     *)
CompStep(e) ==
  LET q == SetToSortSeq(st, <)  n == Len(q)  Low(x) == Cardinality({v \in st : v < x})  Leq(x) == Cardinality({v \in st : v <= x}) IN
  CASE e[1] = "push" -> st' = st \cup SeqToSet(e[2])
    [] e[1] = "size" -> Same(e[2] = n /\ e[3] = q)
    [] e[1] = "ask" -> Same(LET x == e[2]  d == e[3] IN
         /\ e[4] = (x \in st) /\ e[5] = (IF x \in st THEN Low(x) ELSE d) /\ e[6] = (IF x \in st THEN Low(x) ELSE -1)
         /\ e[7] = <<IF Leq(x) = n THEN d ELSE q[Leq(x) + 1], IF Low(x) = n THEN d ELSE q[Low(x) + 1], IF Low(x) = 0 THEN d ELSE q[Low(x)], IF Leq(x) = 0 THEN d ELSE q[Leq(x)]>>
         /\ e[8] = <<Leq(x), Low(x), Low(x) - 1, Leq(x) - 1>>)
    [] OTHER -> FALSE
(* RleStep: run-length encoder; st = the sequence.                          *)
RleStep(e) ==
  CASE e[1] = "init" -> st' = e[2]
    [] e[1] = "push" -> st' = st \o [i \in 1..e[3] |-> e[2]]
    [] e[1] = "pop" -> LET k == MinOf(e[2], Len(st)) IN e[3] = k /\ st' = SubSeq(st, 1, Len(st) - k)
    [] e[1] = "clear" -> st' = <<>>
    [] e[1] = "read" -> Same(e[2] = Runs(st) /\ e[3] = Len(st))
    [] OTHER -> FALSE
(* RlewStep: the same with counts beyond 32 bits; st = the runs.            *)
RECURSIVE PopRuns(_, _)
PopRuns(s, k) == IF s = <<>> THEN <<>> ELSE
  IF BLt(k, Last(s)[2]) THEN [s EXCEPT ![Len(s)] = <<@[1], BSub(@[2], k)>>] ELSE PopRuns(Front(s), BSub(k, Last(s)[2]))
TotalLen(s) == FoldLeft(LAMBDA a, x : BAdd(a, x[2]), "0", s)
RlewStep(e) ==
  CASE e[1] = "push" -> st' = (IF st # <<>> /\ Last(st)[1] = e[2] THEN [st EXCEPT ![Len(st)] = <<@[1], BAdd(@[2], e[3])>>] ELSE Append(st, <<e[2], e[3]>>))
    [] e[1] = "pop" -> BEq(e[3], BMin(e[2], TotalLen(st))) /\ st' = PopRuns(st, e[2])
    [] e[1] = "read" -> Same(e[2] = st /\ BEq(e[3], TotalLen(st)) /\ e[4] = st /\ e[5] = Rev(st) /\ e[6] = Rev(st) /\ e[7] = (IF st = <<>> THEN <<>> ELSE <<Head(st), Last(st)>>))
    [] OTHER -> FALSE
(* PoolStep: st = <<live objects (function id -> value)>>: allocated objects *)
(* are distinct and keep their value until freed.                           *)
PoolStep(e) ==
  CASE e[1] = "alloc" -> e[2] \notin DOMAIN st /\ st' = (e[2] :> e[3]) @@ st
    [] e[1] = "free" -> e[2] \in DOMAIN st /\ st' = [x \in DOMAIN st \ {e[2]} |-> st[x]]
    [] e[1] = "write" -> e[2] \in DOMAIN st /\ st' = [st EXCEPT ![e[2]] = e[3]]
    [] e[1] = "read" -> Same(e[2] \in DOMAIN st /\ st[e[2]] = e[3])
    [] e[1] = "clear" -> st' = <<>>
    [] e[1] = "size" -> Same(e[2] = Cardinality(DOMAIN st) /\ e[3] >= e[2])
    [] e[1] = "pcmp" -> Same(e[4] = <<e[2] = e[3], e[2] # e[3], e[2] < e[3], e[2] <= e[3], e[2] > e[3], e[2] >= e[3]>>)
    [] e[1] = "null" -> Same(e[2] = TRUE)
    [] OTHER -> FALSE
(* ZobStep: st = the hash reported for each set so far (0 for the empty set)*)
ZobStep(e) ==
  LET s == SeqToSet(e[2]) IN
  /\ e[1] = "hash"
  /\ \A t \in DOMAIN st : (st[t] = e[3]) <=> (t = s)
  /\ st' = (s :> e[3]) @@ st
(* DvStep: st = <<default, contents>>.                                      *)
DvStep(e) ==
  LET d == st[1]  s == st[2]  Grow(n) == IF n <= Len(s) THEN s ELSE s \o Const(n - Len(s), d) IN
  CASE e[1] = "default" -> st' = <<e[2], s>>
    [] e[1] = "init" -> st' = <<d, e[2]>>
    [] e[1] = "set" -> st' = <<d, [Grow(e[2] + 1) EXCEPT ![e[2] + 1] = e[3]]>>
    [] e[1] = "ref" -> st' = <<d, Grow(e[2] + 1)>> /\ e[3] = Grow(e[2] + 1)[e[2] + 1]
    [] e[1] = "get" -> Same(e[4] = (IF e[2] \in 0..(Len(s) - 1) THEN s[e[2] + 1] ELSE d) /\ e[5] = (IF e[2] \in 0..(Len(s) - 1) THEN s[e[2] + 1] ELSE e[3]))
    [] e[1] = "resize" -> st' = <<d, SubSeq(Grow(e[2]), 1, e[2])>>
    [] e[1] = "all" -> Same(e[2] = Len(s) /\ e[3] = s)
    [] OTHER -> FALSE
UtilInit(k, p) == CASE k = "comp" -> {} [] k \in {"rle", "rlew"} -> <<>> [] k = "pool" -> <<>> [] k = "zob" -> ({} :> 0) [] k = "dv" -> <<p[1], <<>>>> [] OTHER -> 0
UtilNext(k, p, e) == CASE k = "util" -> UtilStep(e) [] k = "comp" -> CompStep(e) [] k = "rle" -> RleStep(e) [] k = "rlew" -> RlewStep(e) [] k = "pool" -> PoolStep(e) [] k = "zob" -> ZobStep(e) [] k = "dv" -> DvStep(e) [] OTHER -> FALSE
=============================================================================
