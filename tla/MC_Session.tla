----------------------------- MODULE MC_Session -----------------------------
(* All short sessions with one setup, two programs and up to two simulations. *)
EXTENDS Session, FiniteSets, TLC, Json

CONSTANTS Depth, Export

VARIABLES set,    \* settings of the setup
          sims,   \* per simulation: [own: settings copied at construction, list: plan of its states, traj: plan of its trajectory]
          hist
vars == <<set, sims, hist>>

Fields == {"fw", "acc", "pos"}
Zeros == [fw |-> 0, acc |-> 0, pos |-> 0]
New(prog) == [own |-> set, list |-> PlanOf(prog, set), traj |-> PlanOf(prog, set)]
Ops == [o : {"change"}, f : Fields] \cup [o : {"simulate"}, prog : {1, 2}] \cup [o : {"query"}, k : 1..2]
       \cup [o : {"refresh"}, k : 1..2] \cup [o : {"adopt"}, k : 1..2, j : 1..2] \cup [o : {"fresh"}, k : 1..2, prog : {1, 2}]

Enabled(op) ==
    CASE op.o = "change" -> TRUE
      [] op.o = "simulate" -> Len(sims) < 2
      [] op.o = "adopt" -> op.k <= Len(sims) /\ op.j <= Len(sims) /\ op.k # op.j
      [] OTHER -> op.k <= Len(sims)
\* the way the implementation works: lists of states are handed around, the trajectory is made from list and firmware
Make(s, list) == [s EXCEPT !.list = list, !.traj = [prog |-> list.prog, set |-> list.set, fw |-> s.own.fw]]
Do(op) ==
    CASE op.o = "change" -> set' = Change(set, op.f, 1 - set[op.f]) /\ UNCHANGED sims
      [] op.o = "simulate" -> sims' = Append(sims, New(op.prog)) /\ UNCHANGED set
      [] op.o = "query" -> UNCHANGED <<set, sims>>
      [] op.o = "refresh" -> sims' = [sims EXCEPT ![op.k] = Make(@, @.list)] /\ UNCHANGED set
      [] op.o = "adopt" -> sims' = [sims EXCEPT ![op.k] = Make(@, sims[op.j].list)] /\ UNCHANGED set
      [] OTHER -> sims' = [sims EXCEPT ![op.k] = Make(@, PlanOf(op.prog, set))] /\ UNCHANGED set

Init == set = Zeros /\ sims = <<>> /\ hist = <<>>
First == hist = <<>> /\ \E p \in {1} : LET op == [o |-> "simulate", prog |-> p] IN Do(op) /\ hist' = <<op>>
Next == First \/ (hist # <<>> /\ Len(hist) < Depth /\ \E op \in Ops : Enabled(op) /\ Do(op) /\ hist' = Append(hist, op))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* reading of the history *)
SetAt(n) == [f \in Fields |-> Cardinality({k \in 1..(n-1) : hist[k].o = "change" /\ hist[k].f = f}) % 2]
Births == SelectSeq([n \in 1..Len(hist) |-> [n |-> n, o |-> hist[n].o]], LAMBDA x : x.o = "simulate")
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE PlanAt(_, _)
PlanAt(k, n) ==     \* plan of the simulation k before operation n
    LET b == Births[k].n
        R == {x \in (b+1)..(n-1) : hist[x].o \in {"adopt", "fresh"} /\ hist[x].k = k}
        born == PlanOf(hist[b].prog, SetAt(b))
    IN  IF R = {} THEN born
        ELSE LET x == Max(R) IN
             IF hist[x].o = "fresh" THEN Adopt(born, PlanOf(hist[x].prog, SetAt(x)))
             ELSE Adopt(born, PlanAt(hist[x].j, x))
Determined == \A k \in DOMAIN sims : sims[k].traj = PlanAt(k, Len(hist) + 1)
QueriesKeep == [][hist'[Len(hist')].o \in {"query", "refresh", "change"} =>
                    \A k \in DOMAIN sims : sims'[k].traj = sims[k].traj]_vars
Leaf == (Export /\ Len(hist) = Depth) => PrintT(<<"VF-CASE", ToJson(hist)>>)
=============================================================================
