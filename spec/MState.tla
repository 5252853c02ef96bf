------------------------------- MODULE MState -------------------------------
(* The one state variable every machine of this specification acts on.      *)
(* A machine module EXTENDS MState and defines actions over st and st'.     *)
VARIABLE st
Holds(p) == p = TRUE          \* a plain condition: TLC evaluates it, it never branches on it
=============================================================================
