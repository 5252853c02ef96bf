------------------------------ MODULE Gen_C05 -------------------------------
EXTENDS GenBase, MapMachine
CONSTANTS Coord, IDepth, RDepth, MDepth
Scopes == {<<"iset", 3, 0, 1, 2>>, <<"iset", 129, 0, 64, 128>>, <<"rset", 0>>, <<"rset", 1>>, <<"map">>}
Init == \E s \in Scopes : /\ h = <<s>>
                          /\ st = CASE s[1] = "iset" -> <<s[2], <<>> >> [] s[1] = "rset" -> <<s[2], <<>> >> [] s[1] = "map" -> << <<>>, <<>> >>
Lim == CASE h[1][1] = "iset" -> IDepth [] h[1][1] = "rset" -> RDepth [] h[1][1] = "map" -> MDepth
Kind == h[1][1]
Next == Len(h) <= Lim /\
  \/ /\ Kind = "iset"
     /\ \E i \in 3..5 : LET v == h[1][i] IN \/ ISetStep(<<"ins", v, ~InSet(v)>>) /\ Say(<<"ins", v>>)
                                            \/ ISetStep(<<"era", v, InSet(v)>>) /\ Say(<<"era", v>>)
  \/ /\ Kind = "rset"
     /\ \E l, r \in 0..Coord : l <= r /\ \/ RSetStep(<<"ins", l, r, RLen(RInsert(l, r)) - RLen(RR)>>) /\ Say(<<"ins", l, r>>)
                                         \/ RSetStep(<<"era", l, r, RLen(RR) - RLen(RErase(l, r))>>) /\ Say(<<"era", l, r>>)
  \/ /\ Kind = "map"
     /\ \/ \E k \in 0..2 : \/ MapStep(<<"ins", 0, k, Len(h)>>) /\ Say(<<"ins", k, Len(h)>>)
                           \/ MapStep(<<"erk", 0, k, HasKey(M(0), k)>>) /\ Say(<<"erk", k>>)
                           \/ M(1) = <<>> /\ MapStep(<<"spk", 0, k>>) /\ Say(<<"spk", k>>)
        \/ MapStep(<<"swap">>) /\ Say(<<"swap">>)
        \/ /\ (IF M(0) = <<>> \/ M(1) = <<>> THEN TRUE ELSE Last(M(0))[1] < M(1)[1][1])
           /\ MapStep(<<"mrg", 0>>) /\ Say(<<"mrg">>)
Spec == Init /\ [][Next]_gvars
GEmit == Len(h) <= Lim \/ PrintT("GEN " \o ToJson(h))
\* laws
RECURSIVE SetOfHist(_, _)
\* the set of integers a history of insertions and erasures leaves, computed pointwise
SetOfHist(c, S) == IF c = <<>> THEN S ELSE LET x == Head(c) d == IF Kind = "iset" THEN {x[2]} ELSE x[2]..x[3] IN SetOfHist(Tail(c), IF x[1] = "ins" THEN S \cup d ELSE S \ d)
Meaning == CASE Kind = "iset" -> SeqToSet(E0) = SetOfHist(Tail(h), {}) /\ \A i \in 1..(Len(E0) - 1) : E0[i] < E0[i + 1]
             [] Kind = "rset" -> /\ UNION {RR[i][1]..RR[i][2] : i \in DOMAIN RR} = SetOfHist(Tail(h), {})
                                 /\ \A i \in DOMAIN RR : RR[i][1] <= RR[i][2] /\ (i < Len(RR) => RR[i][2] + MA < RR[i + 1][1])
             [] Kind = "map" -> \A m \in 0..1 : \A i \in 1..(Len(M(m)) - 1) : M(m)[i][1] < M(m)[i + 1][1]
=============================================================================
