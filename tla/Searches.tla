------------------------------ MODULE Searches ------------------------------
(***************************************************************************)
(* Trace specification of searching paths (C34).                            *)
(*   path  the path, as ranks of times                                      *)
(*   ask   an instant, a hint (0: none), whether the position is kept in    *)
(*         gaps, and what was found:                                        *)
(*         kind   segment, other (not one of the path), nothing, error      *)
(*         i      the index returned (from 1; 0: none)                      *)
(*         a, b   limits of what was found, as ranks                        *)
(*         still  it does not move                                          *)
(*         at     numbers of the segments at whose end it stays             *)
(*         same   the path was left as it was                               *)
(***************************************************************************)
EXTENDS Search, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)
Elems(q) == {q[i] : i \in DOMAIN q}
VARIABLES l, id, path, at, bad, num
vars == <<l, id, path, at, bad, num>>
Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(name, ok) == IF ok THEN {} ELSE {<<"C34." \o name, id, at + 1>>}

Init == l = 0 /\ id = "none" /\ path = <<>> /\ at = 0 /\ bad = {} /\ num = [paths |-> 0, questions |-> 0, gaps |-> 0]

Begin == /\ IsEvent("path") /\ path' = Ev.path /\ id' = Ev.id /\ at' = 0
         /\ Assert(Ordered(Ev.path), "VF-HARNESS: path not ordered")
         /\ num' = [num EXCEPT !.paths = @ + 1] /\ UNCHANGED bad

Ask ==
    /\ IsEvent("ask")
    /\ LET t == Ev.t
           hold == Holding(path, t)
           gap == Gaps(path, t)
           why == IF Ev.err = "" THEN "" ELSE " (" \o Ev.err \o ")"
           hint == IF Ev.hint = 0 THEN " without hint" ELSE " with hint"
           gapok == /\ Ev.kind = "other"
                    /\ \E i \in gap : Ev.a = path[i].b /\ Ev.b = path[i + 1].a /\ Ev.still /\ i \in Elems(Ev.at)
       IN  /\ bad' = bad \cup UNION {
                Clause("segment" \o hint \o why, hold # {} => (Ev.kind = "segment" \/ (Ev.keep /\ gapok))),
                Clause("holds the instant", Ev.kind = "segment" => Ev.i \in hold),
                Clause("gap" \o hint \o why, (hold = {} /\ gap # {} /\ Ev.keep) => gapok),
                Clause("nothing moves in a gap", (hold = {} /\ ~Ev.keep) => Ev.kind \in {"nothing", "error"}),
                Clause("index", Ev.kind \in {"segment", "other"} => Ev.i \in DOMAIN path),
                Clause("path unchanged", Ev.same) }
           /\ num' = [num EXCEPT !.questions = @ + 1, !.gaps = @ + (IF hold = {} /\ gap # {} THEN 1 ELSE 0)]
    /\ at' = at + 1 /\ UNCHANGED <<id, path>>

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, path, at, num>>
Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, path, at, bad, num>>
Next == Begin \/ Ask \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
