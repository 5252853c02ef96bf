------------------------------ MODULE GenBase -------------------------------
(* Generation of behaviours.  A Gen_ module extends a machine, explores     *)
(* EVERY call history of the machine up to Depth within a small scope,      *)
(* checks the machine's own laws in each state on the way, and prints each  *)
(* maximal history; the driver replays it into the real code and records    *)
(* results and observations, which the T_ module judges.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, MState
VARIABLE h
CONSTANT Depth
gvars == <<st, h>>
More == Len(h) <= Depth                         \* h[1] holds the parameters
Say(c) == h' = Append(h, c)
Emit == Len(h) <= Depth \/ PrintT("GEN " \o ToJson(h))
=============================================================================
