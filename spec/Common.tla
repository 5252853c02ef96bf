------------------------------- MODULE Common -------------------------------
(* Vocabulary shared by all machines: half-open 0-based index ranges as in  *)
(* the C++ API over 1-based TLA+ sequences, folds, small arithmetic.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Sl(s, l, r) == SubSeq(s, l + 1, r)                   \* the slice [l, r)
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SeqMin(s, d) == FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, d, s)
SeqMax(s, d) == FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, d, s)
Const(n, v) == [i \in 1..n |-> v]
Count(s, Test(_)) == FoldLeft(LAMBDA a, x : IF Test(x) THEN a + 1 ELSE a, 0, s)
\* length of the longest common prefix / suffix of two sequences
RECURSIVE LcpFrom(_, _, _)
LcpFrom(s, t, i) == IF i <= Len(s) /\ i <= Len(t) /\ s[i] = t[i] THEN LcpFrom(s, t, i + 1) ELSE i - 1
Lcp(s, t) == LcpFrom(s, t, 1)
RECURSIVE LcsFrom(_, _, _)
LcsFrom(s, t, i) == IF i < Len(s) /\ i < Len(t) /\ s[Len(s) - i] = t[Len(t) - i] THEN LcsFrom(s, t, i + 1) ELSE i
Lcs(s, t) == LcsFrom(s, t, 0)
InsSeq(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))   \* v becomes element i (0-based)
DelSeq(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Splice(s, l, r, m) == SubSeq(s, 1, l) \o m \o SubSeq(s, r + 1, Len(s))
\* truncated division and C++ remainder
CDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
CMod(a, b) == a - CDiv(a, b) * b
Abs(x) == IF x < 0 THEN -x ELSE x
\* stable sort of a sequence by a total preorder Le, as a sequence
SortSeqBy(s, Lt(_, _)) == SortSeq(s, Lt)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
SeqToSet(s) == {s[i] : i \in 1..Len(s)}
Perm(s, t) == Len(s) = Len(t) /\ SortSeq(s, LAMBDA a, b : a < b) = SortSeq(t, LAMBDA a, b : a < b)
LexLt(a, b) == LET k == Lcp(a, b) IN IF k = Len(a) THEN k < Len(b) ELSE k < Len(b) /\ a[k + 1] < b[k + 1]
=============================================================================
