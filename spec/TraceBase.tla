----------------------------- MODULE TraceBase ------------------------------
(* Binding of the specification to recorded executions of the real library. *)
(* A trace file has one session per line: [k, p, ev]. A session is accepted *)
(* iff from the machine's initial state each recorded event, in order, is a *)
(* step the machine allows with exactly the recorded arguments and result.  *)
(* A session that gets stuck before its end is a deadlock, which TLC        *)
(* reports together with the prefix that did match.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, MState
VARIABLES sid, pos
Sessions == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSessions == Len(Sessions)
K  == Sessions[sid].k            \* machine kind of the current session
P  == Sessions[sid].p            \* its parameters
Ev == Sessions[sid].ev[pos]      \* the event to be explained next
tvars == <<st, sid, pos>>
Consume == /\ pos <= Len(Sessions[sid].ev)
           /\ pos' = pos + 1
           /\ UNCHANGED sid
Done == pos > Len(Sessions[sid].ev) /\ UNCHANGED tvars
TraceView == <<sid, pos>>        \* trace steps are deterministic in st
=============================================================================
