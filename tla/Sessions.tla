------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Trace specification of sessions (C24).  Trajectories are recorded as     *)
(* fingerprints of all of their numbers (traj) and of the values returned   *)
(* for a few instants (vals).                                               *)
(***************************************************************************)
EXTENDS Session, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, id, sets, plan, known, at, bad, num
vars == <<l, id, sets, plan, known, at, bad, num>>

Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Nothing == [k \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Clause(name, ok) == IF ok THEN {} ELSE {<<"C24." \o name, id, at + 1>>}

Init == /\ l = 0 /\ id = "none" /\ sets = Nothing /\ plan = Nothing /\ known = Nothing /\ at = 0 /\ bad = {}
        /\ num = [sessions |-> 0, simulations |-> 0, looks |-> 0, refreshes |-> 0, elsewhere |-> 0]

Begin == /\ IsEvent("begin")
         /\ id' = Ev.id /\ sets' = [k \in {1} |-> Ev.set] /\ plan' = Nothing /\ known' = Nothing /\ at' = 0
         /\ num' = [num EXCEPT !.sessions = @ + 1]
         /\ UNCHANGED bad

Alter == /\ IsEvent("change")
         /\ sets' = [sets EXCEPT ![1] = Change(@, Ev.f, Ev.v)]
         /\ at' = at + 1
         /\ UNCHANGED <<id, plan, known, bad, num>>

\* the trajectory of a plan, seen for the first time or again
Seen(p, name) ==
    IF Ev.err # "" THEN bad' = bad \cup Clause(Ev.err, FALSE) /\ UNCHANGED known
    ELSE IF p \in DOMAIN known
         THEN /\ bad' = bad \cup Clause(name, known[p].traj = Ev.traj)
                            \cup Clause(name \o " (values)", known[p].vals = Ev.vals)
              /\ UNCHANGED known
         ELSE known' = Put(known, p, [traj |-> Ev.traj, vals |-> Ev.vals]) /\ UNCHANGED bad

\* elsewhere: the same in another process
Elsewhere == /\ IsEvent("elsewhere")
             /\ Seen(PlanOf(Ev.prog, Ev.set), "reproducible")
             /\ at' = at + 1 /\ num' = [num EXCEPT !.elsewhere = @ + 1]
             /\ UNCHANGED <<id, sets, plan>>

Simulate == /\ IsEvent("simulate")
            /\ LET p == PlanOf(Ev.prog, sets[1])
               IN  Seen(p, "reproducible") /\ plan' = Put(plan, Ev.k, p)
            /\ at' = at + 1 /\ num' = [num EXCEPT !.simulations = @ + 1]
            /\ UNCHANGED <<id, sets>>

Look == /\ IsEvent("look")
        /\ Seen(plan[Ev.k], "unchanged after " \o Ev.after)
        /\ at' = at + 1 /\ num' = [num EXCEPT !.looks = @ + 1]
        /\ UNCHANGED <<id, sets, plan>>

Refresh == /\ IsEvent("refresh")
           /\ Seen(plan[Ev.k], "refresh")
           /\ at' = at + 1 /\ num' = [num EXCEPT !.refreshes = @ + 1]
           /\ UNCHANGED <<id, sets, plan>>
AdoptStates == /\ IsEvent("adopt")
               /\ LET p == Adopt(plan[Ev.k], plan[Ev.j]) IN Seen(p, "refresh with other states") /\ plan' = Put(plan, Ev.k, p)
               /\ at' = at + 1 /\ num' = [num EXCEPT !.refreshes = @ + 1]
               /\ UNCHANGED <<id, sets>>
FreshStates == /\ IsEvent("fresh")
               /\ LET p == Adopt(plan[Ev.k], PlanOf(Ev.prog, sets[1]))
                  IN  Seen(p, "refresh with new states") /\ plan' = Put(plan, Ev.k, p)
               /\ at' = at + 1 /\ num' = [num EXCEPT !.refreshes = @ + 1]
               /\ UNCHANGED <<id, sets>>

\* settings of the process (locale, folder, treatment of numeric errors) have changed
Process == /\ IsEvent("process")
           /\ bad' = bad \cup Clause("process settings changed by " \o Ev.after, FALSE)
           /\ at' = at + 1 /\ UNCHANGED <<id, sets, plan, known, num>>

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, sets, plan, known, at, num>>

Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, sets, plan, known, at, bad, num>>

Next == Begin \/ Alter \/ Elsewhere \/ Simulate \/ Look \/ Refresh \/ AdoptStates \/ FreshStates \/ Process \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
