------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Simulations in the course of a session (C24).                            *)
(*                                                                         *)
(* A trajectory is determined by a plan: the program, the settings under    *)
(* which its states were made, and the firmware.  A simulation owns its     *)
(* plan from its construction on; only a refresh with another list of       *)
(* states replaces it.  The function from plans to trajectories is the same *)
(* for ever, in every process.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* settings: a function of the fields of a setup; a plan: [prog, set, fw]
Change(set, f, v) == [set EXCEPT ![f] = v]
PlanOf(prog, set) == [prog |-> prog, set |-> [set EXCEPT !.fw = 0], fw |-> set.fw]
\* refreshed with the states of another plan: the firmware stays
Adopt(own, other) == [other EXCEPT !.fw = own.fw]
=============================================================================
