-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of motion plans, in squared speeds over small integers.             *)
(*                                                                         *)
(* A chain is a sequence of blocks [rest, T, lim, g] as in MC_Planner: T is  *)
(* the squared feedrate, lim the squared corner limit at the end of the      *)
(* block and g the largest change of the squared speed within it.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min(x, y) == IF x < y THEN x ELSE y
RestBlock == [rest |-> TRUE, T |-> 1, lim |-> 0, g |-> 0]

CapOf(c, k) == IF c[k].rest THEN 0
               ELSE Min(Min(c[k].lim, c[k].T), IF k = Len(c) THEN c[k].T ELSE IF c[k+1].rest THEN 0 ELSE c[k+1].T)
RECURSIVE FwdOf(_, _)
FwdOf(c, k) == IF k = 0 THEN 0 ELSE Min(CapOf(c, k), FwdOf(c, k - 1) + c[k].g)
RECURSIVE BwdOf(_, _)
BwdOf(c, k) == IF k = Len(c) THEN FwdOf(c, k) ELSE Min(FwdOf(c, k), BwdOf(c, k + 1) + c[k+1].g)
PlanOf(c) == [k \in 0..Len(c) |-> IF k = 0 THEN 0 ELSE BwdOf(c, k)]

\* four times the squared speed at the quarters q of block k
Profile4(c, P, k, q) == Min(4 * c[k].T, Min(4 * P[k-1] + q * c[k].g, 4 * P[k] + (4 - q) * c[k].g))

\* a chain that rests at the end of block k is planned in two independent parts
CutLaw(c, k) ==
    LET P == PlanOf(c)  A == PlanOf(SubSeq(c, 1, k))  B == PlanOf(SubSeq(c, k + 1, Len(c)))
    IN  /\ \A j \in 0..k : P[j] = A[j]
        /\ \A j \in k..Len(c) : P[j] = B[j - k]

Stronger(x, y) == x.rest = y.rest /\ x.T <= y.T /\ x.lim <= y.lim /\ x.g <= y.g
\* higher limits never slow down any point of the path
RaiseLaw(c, d) ==
    LET P == PlanOf(c)  Q == PlanOf(d)
    IN  /\ \A k \in 0..Len(c) : P[k] <= Q[k]
        /\ \A k \in 1..Len(c) : ~c[k].rest => \A q \in 0..4 : Profile4(c, P, k, q) <= Profile4(d, Q, k, q)

\* block k divided after a part of it, with the corner limit v there
Divide(c, k, part, v) ==
    SubSeq(c, 1, k - 1) \o <<[c[k] EXCEPT !.g = part, !.lim = v], [c[k] EXCEPT !.g = @ - part]>> \o SubSeq(c, k + 1, Len(c))
SplitLaw(c, k, part, v) ==
    LET P == PlanOf(c)  d == Divide(c, k, part, v)  Q == PlanOf(d)
        Old(j) == IF j < k THEN Q[j] ELSE Q[j + 1]
    IN  /\ \A j \in 0..Len(c) : Old(j) <= P[j]                              \* never faster
        /\ v >= c[k].T => /\ \A j \in 0..Len(c) : Old(j) = P[j]             \* unless the corner slows down: the same
                          /\ Q[k] = Min(c[k].T, Min(P[k-1] + part, P[k] + c[k].g - part))
=============================================================================
