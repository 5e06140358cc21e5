----------------------------- MODULE MC_Planner -----------------------------
(***************************************************************************)
(* The planning algorithm of the implementation as a state machine over     *)
(* small integers (squared speeds), against the declarative plan.           *)
(*                                                                         *)
(* Blocks are generated front to back, each from the end speed of its       *)
(* predecessor towards its own corner limit.  Then every block is visited   *)
(* once; a block whose end speed differs from the start speed of the next   *)
(* one is re-planned with that end speed, and as long as a re-planned block *)
(* can not reach it by braking alone the blocks before it follow.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Targets, Limits, Gains, Export

Block == [rest : {FALSE}, T : Targets, lim : Limits, g : Gains] \cup {[rest |-> TRUE, T |-> 1, lim |-> 0, g |-> 0]}

VARIABLES bl,      \* the blocks
          b, e,    \* squared speeds at their begin and end
          kind,    \* "two" (ramps on both sides), "up", "down" or "rest"
          phase, i, chain
vars == <<bl, b, e, kind, phase, i, chain>>

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x < y THEN y ELSE x

\* fastest profile of block k from the squared speed vb towards the squared speed ve
\* (the comparisons are doubled: the squared peak is (g + vb + ve) / 2)
Make(k, vb0, ve0) ==
    LET x == bl[k]
        vb == Min(vb0, x.T)
        ve == Min(ve0, x.T)
        peak2 == x.g + vb + ve
        sing == IF vb > ve THEN Max(vb - x.g, 0) ELSE vb + x.g
    IN  IF x.rest THEN <<0, 0, "rest">>
        ELSE IF (x.T - vb) + (x.T - ve) < x.g THEN <<vb, ve, "two">>
        ELSE IF peak2 > 2 * ve /\ peak2 > 2 * vb /\ peak2 <= 2 * x.T THEN <<vb, ve, "two">>
        ELSE IF sing > vb /\ sing <= x.T THEN <<vb, sing, "up">>
        ELSE IF sing < vb THEN <<ve + x.g, ve, "down">>
        ELSE <<vb, ve, "impossible">>

Prev(k) == IF k = 1 THEN 0 ELSE e[k-1]
Set(k, r) == /\ b' = [b EXCEPT ![k] = r[1]]
             /\ e' = [e EXCEPT ![k] = r[2]]
             /\ kind' = [kind EXCEPT ![k] = r[3]]

Init == /\ bl \in [1..N -> Block]
        /\ b = [k \in 1..N |-> 0] /\ e = [k \in 1..N |-> 0] /\ kind = [k \in 1..N |-> "none"]
        /\ phase = "generate" /\ i = 1 /\ chain = 0

Generate ==
    /\ phase = "generate"
    /\ Set(i, Make(i, Prev(i), bl[i].lim))
    /\ IF i = N THEN phase' = "correct" /\ i' = 1 ELSE i' = i + 1 /\ UNCHANGED phase
    /\ UNCHANGED <<bl, chain>>

\* visit block i: re-plan it, then the blocks before it as long as needed
Visit ==
    /\ phase = "correct" /\ chain = 0
    /\ IF i = N THEN phase' = "done" /\ UNCHANGED <<b, e, kind, i, chain>>
       ELSE IF e[i] = b[i+1] \/ bl[i].rest THEN i' = i + 1 /\ UNCHANGED <<b, e, kind, phase, chain>>
       ELSE LET r == Make(i, Prev(i), b[i+1])
            IN  /\ Set(i, r)
                /\ IF r[3] \in {"up", "down"} /\ i > 1 THEN chain' = i - 1 /\ i' = i ELSE chain' = 0 /\ i' = i + 1
                /\ UNCHANGED phase
    /\ UNCHANGED bl

Chain ==
    /\ phase = "correct" /\ chain > 0
    /\ IF e[chain] = b[chain+1] \/ bl[chain].rest THEN chain' = 0 /\ i' = i + 1 /\ UNCHANGED <<b, e, kind>>
       ELSE LET r == Make(chain, Prev(chain), b[chain+1])
            IN  /\ Set(chain, r)
                /\ IF r[3] \in {"up", "down"} /\ chain > 1 THEN chain' = chain - 1 /\ i' = i
                   ELSE chain' = 0 /\ i' = i + 1
    /\ UNCHANGED <<bl, phase>>

Next == Generate \/ Visit \/ Chain
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* the declarative plan *)
Cap(k) == IF bl[k].rest THEN 0
          ELSE Min(Min(bl[k].lim, bl[k].T), IF k = N THEN bl[k].T ELSE IF bl[k+1].rest THEN 0 ELSE bl[k+1].T)
Feasible(V) ==   \* V : 0..N
    /\ V[0] = 0
    /\ \A k \in 1..N : V[k] <= Cap(k)
    /\ \A k \in 1..N : ~bl[k].rest => V[k] - V[k-1] <= bl[k].g /\ V[k-1] - V[k] <= bl[k].g
RECURSIVE Fwd(_)
Fwd(k) == IF k = 0 THEN 0 ELSE Min(Cap(k), Fwd(k-1) + bl[k].g)
RECURSIVE Bwd(_)
Bwd(k) == IF k = N THEN Fwd(N) ELSE Min(Fwd(k), Bwd(k+1) + bl[k+1].g)
Plan == [k \in 0..N |-> IF k = 0 THEN 0 ELSE Bwd(k)]

Modelled == \A k \in 1..N : kind[k] # "impossible"
Continuous == phase = "done" => \A k \in 1..(N-1) : e[k] = b[k+1]
StartsAtRest == phase = "done" => b[1] = 0
ReachesPlan == phase = "done" => \A k \in 1..N : e[k] = Plan[k]
PlanFeasible == phase = "done" => Feasible(Plan)
\* no feasible assignment exceeds the plan anywhere
PlanGreatest == phase = "done" =>
    \A V \in [0..N -> 0..Max(1, CHOOSE t \in Targets : \A u \in Targets : u <= t)] :
        Feasible(V) => \A k \in 0..N : V[k] <= Plan[k]
Terminates == <>(phase = "done")
\* the chains of blocks, to be replayed as programs
Leaf == (Export /\ phase = "generate" /\ i = 1) =>
            PrintT(<<"VF-CASE", ToJson([k \in 1..N |-> IF bl[k].rest THEN <<0, 0, 0>> ELSE <<bl[k].T, bl[k].lim, bl[k].g>>])>>)
=============================================================================
