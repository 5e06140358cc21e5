------------------------------- MODULE MC_Box -------------------------------
(***************************************************************************)
(* A nozzle walks between points of a small grid in small steps while a     *)
(* monitor notices when it goes into a box or out of it.  The planes of the *)
(* boxes lie between the grid points, so that the steps at odd eighths of a *)
(* move are never on a plane and see every stay of some length.             *)
(* The interval of a move that module Box computes is nonempty exactly if   *)
(* the monitor saw a step inside.  Paths are exported with the number of    *)
(* crossings and replayed in the real code.                                 *)
(***************************************************************************)
EXTENDS Box, Sequences, FiniteSets, TLC, Json

CONSTANTS Moves, Export

Grid == 0..2
Points == Grid \X Grid
Boxes == { [lo |-> <<4, 4>>, hi |-> <<12, 12>>], [lo |-> <<4, -8>>, hi |-> <<12, 24>>], [lo |-> <<4, 4>>, hi |-> <<24, 24>>],
           [lo |-> <<-8, 12>>, hi |-> <<24, 20>>], [lo |-> <<12, -8>>, hi |-> <<24, 4>>] }      \* eighths
Eighths == <<1, 3, 5, 7, 8>>

VARIABLES box, path, goal, k, in, ins, outs, seen
vars == <<box, path, goal, k, in, ins, outs, seen>>
Here == path[Len(path)]
In(p) == \A a \in 1..2 : box.lo[a] < p[a] /\ p[a] < box.hi[a]
At(n) == [a \in 1..2 |-> 8 * Here[a] + n * (goal[a] - Here[a])]

Init == /\ box \in Boxes /\ \E p \in Points : path = <<p>> /\ in = In(<<8 * p[1], 8 * p[2]>>)
        /\ goal = <<>> /\ k = 0 /\ ins = 0 /\ outs = 0 /\ seen = {}
Choose == /\ goal = <<>> /\ Len(path) <= Moves
          /\ \E p \in Points \ {Here} : goal' = p
          /\ k' = 0 /\ seen' = {} /\ UNCHANGED <<box, path, in, ins, outs>>
Step == /\ goal # <<>> /\ k < Len(Eighths)
        /\ k' = k + 1
        /\ LET now == In(At(Eighths[k + 1]))
           IN  /\ in' = now
               /\ ins' = ins + (IF now /\ ~in THEN 1 ELSE 0) /\ outs' = outs + (IF in /\ ~now THEN 1 ELSE 0)
               /\ seen' = IF now /\ k < 4 THEN seen \cup {Eighths[k + 1]} ELSE seen
        /\ UNCHANGED <<box, path, goal>>
Arrive == /\ goal # <<>> /\ k = Len(Eighths)
          /\ path' = Append(path, goal) /\ goal' = <<>> /\ UNCHANGED <<box, k, in, ins, outs, seen>>
Next == Choose \/ Step \/ Arrive
Spec == Init /\ [][Next]_vars

Started == In([a \in 1..2 |-> 8 * path[1][a]])
Alternate == ins - outs = (IF in THEN 1 ELSE 0) - (IF Started THEN 1 ELSE 0)
Mm(v) == v * 125000                          \* eighths of a mm to nm
LastMove == LET a == path[Len(path) - 1]  b == Here
            IN  [pb |-> <<Mm(8 * a[1]), Mm(8 * a[2]), 0, 0>>, pe |-> <<Mm(8 * b[1]), Mm(8 * b[2]), 0, 0>>]
Interval == Inside(LastMove, <<Mm(box.lo[1]), Mm(box.lo[2]), -1000>>, <<Mm(box.hi[1]), Mm(box.hi[2]), 1000>>)
IntervalRight == (goal = <<>> /\ Len(path) > 1) =>
    /\ FLt(Interval[1], Interval[2]) <=> seen # {}
    /\ seen = {n \in {1, 3, 5, 7} : FLe(Interval[1], Dec(n * 125, -3)) /\ FLe(Dec(n * 125, -3), Interval[2])}
\* a straight move is inside during one interval
Convex == \A a, b, c \in {1, 3, 5, 7} : (a < b /\ b < c /\ a \in seen /\ c \in seen /\ (k = 5 \/ goal = <<>>)) => b \in seen
Leaf == (Export /\ goal = <<>> /\ Len(path) = Moves + 1) =>
            PrintT(<<"VF-PATH", ToJson([box |-> box, path |-> path, ins |-> ins, outs |-> outs])>>)
=============================================================================
