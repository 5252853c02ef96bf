------------------------------ MODULE Gen_C01 -------------------------------
EXTENDS GenBase, SeqMachine
CONSTANT MaxN
Fs == {<<2, 1>>, <<0, 5>>}
Init == \E n \in 1..MaxN : h = << <<"seq", n>> >> /\ st = [i \in 1..n |-> i]
Next == More /\ LET n == Len(st) IN
  \/ \E l, r \in 0..n : \E f \in Fs : l < r /\ SeqStep(<<"act", l, r, f>>) /\ Say(<<"act", l, r, f>>)
  \/ \E i \in 0..(n - 1) : SeqStep(<<"set", i, 7>>) /\ Say(<<"set", i, 7>>)
  \/ \E l, r \in 0..n : l < r /\ SeqStep(<<"prod", l, r, FoldOf(Sl(st, l, r))>>) /\ Say(<<"prod", l, r>>)
Spec == Init /\ [][Next]_gvars
\* laws of the algebra: folds compose, actions are homomorphic on composition
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE (Pow(k - 1) * BASE) % PR
Cat(a, b) == <<((a[1] * Pow(b[2])) + b[1]) % PR, a[2] + b[2]>>
FoldLaw == \A l, m, r \in 0..Len(st) : l <= m /\ m <= r => Cat(FoldOf(Sl(st, l, m)), FoldOf(Sl(st, m, r))) = FoldOf(Sl(st, l, r))
ActLaw == \A f, g \in Fs : ActOn(ActOn(st, 0, Len(st), g), 0, Len(st), f) = ActOn(st, 0, Len(st), After(f, g))
SearchLaw == \A l \in 0..Len(st) : l + Lcp(Sl(st, l, Len(st)), Sl(st, l, Len(st))) = Len(st)
=============================================================================
