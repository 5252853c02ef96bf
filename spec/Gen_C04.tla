------------------------------ MODULE Gen_C04 -------------------------------
EXTENDS GenBase, DSeqMachine
CONSTANT N
Init == h = << <<"dseq", N>> >> /\ st = << [i \in 1..N |-> i] >>
Call(c) == DSeqStep(c) /\ Say(c)
Next == More /\ \E q \in 0..(Len(st) - 1) : LET n == Len(Q(q)) IN
  \/ \E p \in 0..n : Call(<<"ins", q, p, 10 + Len(h)>>)
  \/ \E p \in 0..(n - 1) : DSeqStep(<<"del", q, p, Q(q)[p + 1]>>) /\ Say(<<"del", q, p>>)
  \/ \E l, r \in 0..n : l + 1 < r /\ Call(<<"rev", q, l, r>>)
  \/ \E l, r \in 0..n : l < r /\ Call(<<"act", q, l, r, <<3, 1>> >>)
  \/ \E l, m, r \in 0..n : l < m /\ m < r /\ Call(<<"rot", q, l, m, r>>)
  \/ Len(st) = 1 /\ \E p \in 0..n : Call(<<"split", q, p>>)
  \/ Len(st) = 2 /\ Call(<<"merge", q, 1 - q>>)
Spec == Init /\ [][Next]_gvars
\* laws: reversal is an involution, rotation is undone by the complementary rotation, a split followed by a merge is the identity
All == st[1]
RevLaw == \A l, r \in 0..Len(All) : l <= r => LET s == Splice(All, l, r, Reverse(Sl(All, l, r))) IN Splice(s, l, r, Reverse(Sl(s, l, r))) = All /\ Len(s) = Len(All)
RotLaw == \A l, m, r \in 0..Len(All) : l <= m /\ m <= r =>
   LET s == Splice(All, l, r, Sl(All, m, r) \o Sl(All, l, m)) k == l + r - m IN Splice(s, l, r, Sl(s, k, r) \o Sl(s, l, k)) = All
CutLaw == \A p \in 0..Len(All) : Sl(All, 0, p) \o Sl(All, p, Len(All)) = All
=============================================================================
