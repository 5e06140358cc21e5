------------------------------ MODULE MC_Block ------------------------------
(***************************************************************************)
(* A nozzle moves from rest to rest in time steps; the clock is stopped at  *)
(* every sixteenth of the duration.  The time module Block gives for a      *)
(* distance is the time at which the nozzle has gone that distance; it      *)
(* grows with the distance, and the speed never exceeds the peak.           *)
(* All moves are exported with the times of the quarters of their length.   *)
(***************************************************************************)
EXTENDS Block, Sequences, TLC, Json

CONSTANTS Feeds, Accs, Lengths, Export

VARIABLES f, a, L, n, gone
vars == <<f, a, L, n, gone>>
P == Peak(f, a, L)
W == Whole(P, a, L)
T(k) == FMul(W, FRat(k, 16))
Init == /\ \E x \in Feeds : f = FromInt(x, 0)
        /\ \E x \in Accs : a = FromInt(x, 0)
        /\ \E x \in Lengths : L = FromInt(x, -1)
        /\ n = 0 /\ gone = Zero
Tick == n < 16 /\ n' = n + 1 /\ gone' = DistAt(P, a, L, T(n + 1)) /\ UNCHANGED <<f, a, L>>
Spec == Init /\ [][Tick]_vars /\ WF_vars(Tick)

Tol == Dec(1, -5)
Near(x, y) == FClose(x, y, Tol, Tol)
\* at the ends the time is a square root of the distance
Inverse == (0 < n /\ n < 16) => Near(TimeAt(P, a, L, gone), T(n))
Grows == [][FLe(gone, FAdd(gone', Tol))]_vars
NeverTooFast == [][FLe(FSub(gone', gone), FAdd(FMul(P, FMul(W, FRat(1, 16))), Tol))]_vars
Symmetric == n = 8 => Near(gone, FMul(Half, L))
Arrives == n = 16 => Near(gone, L)
Reaches == <>(n = 16)
Quarters == [k \in 1..5 |-> TimeAt(P, a, L, FMul(L, FRat(k - 1, 4)))]
Leaf == (Export /\ n = 16) => PrintT(<<"VF-MOVE", ToJson([f |-> f, a |-> a, l |-> L, ts |-> Quarters, whole |-> W])>>)
=============================================================================
