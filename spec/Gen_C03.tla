------------------------------ MODULE Gen_C03 -------------------------------
EXTENDS GenBase, VersionMachine
CONSTANTS N, UDepth
Init == \/ h = << <<"vseq", N>> >> /\ st = << [i \in 1..N |-> i] >>
        \/ h = << <<"vuf", 3>> >> /\ st = << <<0, 1, 2>> >>
Lim == IF h[1][1] = "vseq" THEN Depth ELSE UDepth
Next == Len(h) <= Lim /\ \E v \in 0..(Len(st) - 1) :
  \/ /\ h[1][1] = "vseq"
     /\ \/ \E i \in 0..(N - 1) : VSeqStep(<<"set", v, i, 10 * Len(h)>>) /\ Say(<<"set", v, i, 10 * Len(h)>>)
        \/ \E l, r \in 0..N : l < r /\ VSeqStep(<<"act", v, l, r, <<3, Len(h)>> >>) /\ Say(<<"act", v, l, r, <<3, Len(h)>> >>)
  \/ /\ h[1][1] = "vuf"
     /\ \E x, y \in 0..2 : x < y /\ VUFStep(<<"merge", v, x, y, V(v)[x + 1] # V(v)[y + 1]>>) /\ Say(<<"merge", v, x, y>>)
Spec == Init /\ [][Next]_gvars
GEmit == Len(h) <= Lim \/ PrintT("GEN " \o ToJson(h))
\* an update appends one version and no version ever changes
Persist == [][Len(st') = Len(st) + 1 /\ SubSeq(st', 1, Len(st)) = st]_gvars
Canonical == h[1][1] = "vuf" => \A k \in DOMAIN st : \A i \in 1..3 : st[k][i] <= i - 1 /\ st[k][st[k][i] + 1] = st[k][i]
=============================================================================
