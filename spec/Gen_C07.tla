------------------------------ MODULE Gen_C07 -------------------------------
EXTENDS GenBase, QueueMachine
CONSTANTS QDepth
Init == \/ h = << <<"pq">> >> /\ st = <<1, <<>> >>
        \/ h = << <<"agg">> >> /\ st = <<>>
Lim == IF h[1][1] = "pq" THEN QDepth ELSE Depth
Next == Len(h) <= Lim /\
  \/ /\ h[1][1] = "pq"
     /\ \/ \E x \in 0..2 : PQStep(<<"push", x>>) /\ Say(<<"push", x>>)
        \/ st[2] # <<>> /\ PQStep(<<"popmin", st[2][1]>>) /\ Say(<<"popmin">>)
        \/ st[2] # <<>> /\ PQStep(<<"popmax", Last(st[2])>>) /\ Say(<<"popmax">>)
  \/ /\ h[1][1] = "agg"
     /\ \/ AggStep(<<"pushb", Len(h)>>) /\ Say(<<"pushb", Len(h)>>)
        \/ AggStep(<<"pushf", Len(h)>>) /\ Say(<<"pushf", Len(h)>>)
        \/ AggStep(<<"popb">>) /\ Say(<<"popb">>)
        \/ AggStep(<<"popf">>) /\ Say(<<"popf">>)
Spec == Init /\ [][Next]_gvars
GEmit == Len(h) <= Lim \/ PrintT("GEN " \o ToJson(h))
Pushed == Cardinality({i \in DOMAIN h : h[i][1] \in {"push", "pushb", "pushf"}})
Popped == Cardinality({i \in DOMAIN h : h[i][1] \in {"popmin", "popmax", "popb", "popf"}})
Law == IF h[1][1] = "pq" THEN Len(st[2]) = Pushed - Popped /\ \A i \in 1..(Len(st[2]) - 1) : st[2][i] <= st[2][i + 1]
       ELSE Len(st) = Pushed - Popped /\ Cardinality(SeqToSet(st)) = Len(st)
=============================================================================
