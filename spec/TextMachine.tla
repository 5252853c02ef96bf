---------------------------- MODULE TextMachine ----------------------------
(* Text in, text out, and what is computed from text: streams of tokens,    *)
(* printed values, arithmetic expressions; nimbers and affine maps.  Text   *)
(* is a sequence of character codes.                                        *)
EXTENDS Common, Big, MState
Same(p) == p = TRUE /\ UNCHANGED st
Digit(c) == c \in 48..57
Space(c) == c \in {9, 10, 11, 12, 13, 32}
Chr(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE DigitsFrom(_, _, _)
DigitsFrom(s, i, acc) == IF Digit(Chr(s, i)) THEN DigitsFrom(s, i + 1, BAdd(BMul(acc, 10), s[i] - 48)) ELSE <<acc, i>>
(* ---- expressions: <<accepted, value, next position>> ---- *)
Fail(i) == <<FALSE, 0, i>>
RECURSIVE Expr(_, _), ExprTail(_, _), Term(_, _), TermTail(_, _), Factor(_, _)
Expr(s, i) == ExprTail(s, Term(s, i))
ExprTail(s, r) ==
  IF ~r[1] THEN r
  ELSE IF Chr(s, r[3]) \in {43, 45} THEN LET t == Term(s, r[3] + 1) IN
         IF ~t[1] THEN t ELSE ExprTail(s, <<TRUE, IF s[r[3]] = 43 THEN BAdd(r[2], t[2]) ELSE BSub(r[2], t[2]), t[3]>>)
  ELSE r
Term(s, i) == TermTail(s, Factor(s, i))
TermTail(s, r) ==
  IF ~r[1] THEN r
  ELSE IF Chr(s, r[3]) \in {42, 47} THEN LET t == Factor(s, r[3] + 1) IN
         IF ~t[1] THEN t ELSE TermTail(s, <<TRUE, IF s[r[3]] = 42 THEN BMul(r[2], t[2]) ELSE BQuo(r[2], t[2]), t[3]>>)
  ELSE r
Factor(s, i) ==
  CASE Chr(s, i) = 45 -> LET r == Factor(s, i + 1) IN <<r[1], BNeg(r[2]), r[3]>>
    [] Chr(s, i) = 40 -> LET r == Expr(s, i + 1) IN IF r[1] /\ Chr(s, r[3]) = 41 THEN <<TRUE, r[2], r[3] + 1>> ELSE Fail(i)
    [] Digit(Chr(s, i)) -> LET d == DigitsFrom(s, i, 0) IN <<TRUE, d[1], d[2]>>
    [] OTHER -> Fail(i)
RECURSIVE Signed(_, _)
Signed(s, i) == IF Chr(s, i) = 45 THEN LET r == Signed(s, i + 1) IN <<BNeg(r[1]), r[2]>> ELSE DigitsFrom(s, i, 0)
(* an outcome is <<accepted, value, position>> with 0-based position; a      *)
(* rejected text only has to be rejected                                     *)
Outcome(want, got) == got[1] = want[1] /\ (want[1] => (BEq(got[2], want[2]) /\ got[3] = want[3] - 1))
(* ---- tokens ---- *)
RECURSIVE SkipWs(_, _), TokEnd(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ Space(s[i]) THEN SkipWs(s, i + 1) ELSE i
TokEnd(s, i) == IF i <= Len(s) /\ ~Space(s[i]) THEN TokEnd(s, i + 1) ELSE i
NumOf(t) == IF t[1] \in {43, 45} THEN (IF t[1] = 45 THEN BNeg(DigitsFrom(t, 2, 0)[1]) ELSE DigitsFrom(t, 2, 0)[1]) ELSE DigitsFrom(t, 1, 0)[1]
(* one scalar of kind "int", "char" or "str" from position i: <<value, next>> *)
Scalar(s, i, kind) ==
  LET b == SkipWs(s, i)  e == TokEnd(s, b) IN
  CASE kind = "char" -> <<s[b], b + 1>>
    [] kind = "str" -> <<SubSeq(s, b, e - 1), e>>
    [] kind = "int" -> <<NumOf(SubSeq(s, b, e - 1)), e>>
SameScalar(kind, want, got) == IF kind = "int" THEN BEq(want, got) ELSE want = got
RECURSIVE ReadAll(_, _, _, _, _)
ReadAll(s, i, kinds, vals, k) ==       \* -1 or the position after the last scalar
  IF k > Len(kinds) THEN i
  ELSE LET r == Scalar(s, i, kinds[k]) IN IF SameScalar(kinds[k], r[1], vals[k]) THEN ReadAll(s, r[2], kinds, vals, k + 1) ELSE -1
(* InStep: st = <<text, position>>                                          *)
InStep(e) ==
  CASE e[1] = "text" -> st' = <<e[2], 1>>
    [] e[1] = "read" -> LET q == ReadAll(st[1], st[2], e[2], e[3], 1) IN q # -1 /\ st' = <<st[1], q>>
    [] OTHER -> FALSE
(* OutStep: st = the text written so far.  A value is <<"i", number>>,      *)
(* <<"c", code>>, <<"s", codes>> or <<"l", values>> (pairs, tuples and      *)
(* containers: their elements separated by blanks).                         *)
RECURSIVE Joined(_, _)
Joined(q, sep) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Joined(Tail(q), sep)
RECURSIVE Shown(_)
Shown(v) == CASE v[1] = "i" -> Codes(BStr(v[2])) [] v[1] = "c" -> <<v[2]>> [] v[1] = "s" -> v[2]
              [] v[1] = "l" -> Joined([i \in 1..Len(v[2]) |-> Shown(v[2][i])], <<32>>)
ShownAll(q) == [i \in 1..Len(q) |-> Shown(q[i])]
OutStep(e) ==
  CASE e[1] = "put" -> st' = st \o Joined(ShownAll(e[2]), <<>>)
    [] e[1] = "print" -> st' = st \o Joined(ShownAll(e[2]), <<32>>) \o <<10>>
    [] e[1] = "printall" -> st' = st \o Joined(ShownAll(e[2]), e[3]) \o e[4]
    [] e[1] = "text" -> Same(e[2] = st)
    [] OTHER -> FALSE
(* ---- nimbers: product in the field of size 2^(2^k) ---- *)
RECURSIVE LevelOf(_, _)
LevelOf(x, k) == IF BBits(x) <= 2 ^ k THEN k ELSE LevelOf(x, k + 1)
RECURSIVE NimMul(_, _), NimMulAt(_, _, _)
NimMulAt(x, y, k) ==
  IF BEq(x, 0) \/ BEq(y, 0) THEN 0 ELSE IF BEq(x, 1) THEN y ELSE IF BEq(y, 1) THEN x
  ELSE LET h == 2 ^ (k - 1)  m == BSub(BShl(1, h), 1)
           xu == BShr(x, h)  xl == BAnd(x, m)  yu == BShr(y, h)  yl == BAnd(y, m)
           uu == NimMul(xu, yu)  ll == NimMul(xl, yl)  mix == NimMul(BXor(xu, xl), BXor(yu, yl)) IN
       BXor(BXor(BShl(BXor(mix, ll), h), ll), NimMul(uu, BShl(1, h - 1)))
NimMul(x, y) == LET k == MaxOf(LevelOf(x, 0), LevelOf(y, 0)) IN TLCEval(NimMulAt(x, y, k))
RECURSIVE NimPow(_, _)
NimPow(x, n) == IF n = 0 THEN 1 ELSE LET h == NimPow(x, n \div 2)  hh == NimMul(h, h) IN IF n % 2 = 1 THEN NimMul(hh, x) ELSE hh
(* ---- affine maps a x + b, optionally clamped to [l, r] ---- *)
Aff(f, x) == BAdd(BMul(f[1], x), f[2])
Clamped(f, x) == BMax(f[3], BMin(f[4], Aff(f, x)))
AllEq(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : BEq(p[i], q[i])
TextStep(e) ==
  CASE e[1] = "expr" -> Same(Outcome(Expr(e[2], e[3] + 1), e[4]))
    [] e[1] = "nonneg" -> Same(Outcome(IF Digit(Chr(e[2], e[3] + 1)) THEN <<TRUE>> \o DigitsFrom(e[2], e[3] + 1, 0) ELSE Fail(1), e[4]))
    [] e[1] = "number" -> Same(Outcome(<<TRUE>> \o Signed(e[2], e[3] + 1), e[4]))
    [] e[1] = "consume" -> Same(e[5] = <<Chr(e[2], e[3] + 1) = e[4], IF Chr(e[2], e[3] + 1) = e[4] THEN e[3] + 1 ELSE e[3]>>)
    [] e[1] = "class" -> Same(LET c == Chr(e[2], e[3] + 1) IN e[6] = <<e[4] <= c /\ c <= e[5], c = e[4], e[4] <= c /\ c <= e[5], c = e[4]>>)
    [] e[1] = "stoi" -> Same(BEq(e[3], NumOf(e[2])))
    [] e[1] = "join" -> Same(e[5] = Joined(ShownAll(e[2]), e[3]) \o e[4])
    [] e[1] = "nadd" -> Same(\A i \in DOMAIN e[4] : BEq(e[4][i], BXor(e[2], e[3])))
    [] e[1] = "nmul" -> Same(BEq(e[4], NimMul(e[2], e[3])))
    [] e[1] = "ndiv" -> Same(BEq(NimMul(e[4], e[3]), e[2]))
    [] e[1] = "npow" -> Same(BEq(e[4], NimPow(e[2], e[3])))
    [] e[1] = "ncmp" -> Same(e[4] = <<BLt(e[2], e[3]), BLe(e[2], e[3]), BLt(e[3], e[2]), BLe(e[3], e[2]), BEq(e[2], e[3]), ~BEq(e[2], e[3])>>)
    [] e[1] = "nneg" -> Same(\A i \in DOMAIN e[3] : BEq(e[3][i], e[2]))
    [] e[1] = "aff" -> Same(LET f == e[2]  g == e[3]  x == e[4] IN              \* f, g, x, [f(x), f(g(x)) by composition (two ways)], composed coefficients
                            AllEq(e[5], <<Aff(f, x), Aff(f, Aff(g, x)), Aff(f, Aff(g, x)), x>>) /\ AllEq(e[6], <<BMul(f[1], g[1]), Aff(f, g[2])>>))
    [] e[1] = "affops" -> Same(LET f == e[2]  g == e[3]  c == e[4] IN
                               /\ AllEq(e[5][1], <<BAdd(f[1], g[1]), BAdd(f[2], g[2])>>) /\ AllEq(e[5][2], <<BSub(f[1], g[1]), BSub(f[2], g[2])>>)
                               /\ AllEq(e[5][3], <<f[1], BAdd(f[2], c)>>) /\ AllEq(e[5][4], <<f[1], BSub(f[2], c)>>)
                               /\ AllEq(e[5][5], <<BNeg(f[1]), BNeg(f[2])>>) /\ AllEq(e[5][6], f)
                               /\ AllEq(e[5][7], <<f[1], BAdd(f[2], 1)>>) /\ AllEq(e[5][8], <<f[1], BSub(f[2], 1)>>) /\ AllEq(e[5][9], f) /\ AllEq(e[5][10], f)
                               /\ LET lt == BLt(f[1], g[1]) \/ (BEq(f[1], g[1]) /\ BLt(f[2], g[2]))  eq == AllEq(f, g) IN e[6] = <<eq, ~eq, lt, lt \/ eq, ~(lt \/ eq), ~lt>>
                               /\ AllEq(e[7], f) /\ AllEq(e[8], f))                  \* conversions to pair and tuple
    [] e[1] = "clamp" -> Same(LET f == e[2]  g == e[3]  x == e[4] IN AllEq(e[5], <<Clamped(f, x), Clamped(f, Clamped(g, x)), Clamped(f, Clamped(g, x)), x>>))
    [] e[1] = "stream" -> Same(LET t == Joined([i \in 1..Len(e[2]) |-> Codes(BStr(e[2][i]))], <<32>>) IN e[3] = t /\ AllEq(e[4], e[2]))   \* printed, then read back
    [] e[1] = "sortidx" -> Same(LET n == Len(e[2]) IN SeqToSet(e[3]) = 0..(n - 1) /\ Len(e[3]) = n /\ \A i \in 1..(n - 1) :
                                  IF e[4] THEN e[2][e[3][i] + 1] <= e[2][e[3][i + 1] + 1] ELSE e[2][e[3][i] + 1] >= e[2][e[3][i + 1] + 1])
    [] e[1] = "ndvec" -> Same(Len(e[4]) = e[2][1] /\ \A i \in DOMAIN e[4] : Len(e[4][i]) = e[2][2] /\ \A j \in DOMAIN e[4][i] : e[4][i][j] = Const(e[2][3], e[3]))
    [] e[1] = "pq" -> Same(e[3] = (IF e[4] THEN Sorted(e[2]) ELSE Reverse(Sorted(e[2]))))
    [] e[1] = "width" -> Same(e[3] = e[2] /\ e[4] = (IF e[2] >= 32 THEN 2 * e[2] ELSE e[2]))      \* bits of a type; bits of the type that holds its products
    [] e[1] = "trait" -> Same(e[3] = (CASE e[2] = "vector" -> <<TRUE, FALSE, FALSE>> [] e[2] = "set" -> <<TRUE, FALSE, FALSE>> [] e[2] = "string" -> <<TRUE, TRUE, TRUE>> [] e[2] = "int" -> <<FALSE, TRUE, TRUE>>
                                        [] e[2] = "int128" -> <<FALSE, FALSE, FALSE>> [] e[2] = "pair" -> <<FALSE, FALSE, FALSE>> [] e[2] = "char" -> <<FALSE, TRUE, TRUE>> [] OTHER -> FALSE))
    [] OTHER -> FALSE
TextInit(k, p) == CASE k = "in" -> <<<<>>, 1>> [] k = "out" -> <<>> [] OTHER -> 0
TextNext(k, p, e) == CASE k = "txt" -> TextStep(e) [] k = "in" -> InStep(e) [] k = "out" -> OutStep(e) [] OTHER -> FALSE
=============================================================================
