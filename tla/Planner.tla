------------------------------- MODULE Planner -------------------------------
(***************************************************************************)
(* The motion plan of a chain of moves, in v^2.                            *)
(*                                                                         *)
(* A block is [rest, len, mv] : rest = TRUE for dwells and extruder-only   *)
(* moves (the nozzle rests at both ends), len is the length of the move.   *)
(* lim[i] is the corner limit at the end of block i.  Boundary i lies      *)
(* between block i and block i+1 (boundary 0 is the start, rest).          *)
(* The plan is the greatest solution of                                    *)
(*    V[0] = 0,  V[i] <= lim[i], T[i]^2, T[i+1]^2,                         *)
(*    V[i] <= V[i-1] + 2 a[i] d[i]  and  V[i-1] <= V[i] + 2 a[i] d[i]      *)
(* which a forward and a backward pass compute.                            *)
(***************************************************************************)
EXTENDS Junction

Gain(b) == FMul(Two, FMul(b.mv.acc, b.len))          \* largest change of v^2 in a block

Cap(blocks, lim, i) ==
    IF blocks[i].rest THEN Zero
    ELSE LET own == FMin(lim[i], FSq(blocks[i].mv.T))
         IN  IF i = Len(blocks) THEN own
             ELSE IF blocks[i+1].rest THEN Zero
             ELSE FMin(own, FSq(blocks[i+1].mv.T))

RECURSIVE Forward(_, _, _, _)
Forward(blocks, lim, i, acc) ==                       \* acc: boundaries 1 .. i-1
    IF i > Len(blocks) THEN acc
    ELSE LET prev == IF i = 1 THEN Zero ELSE acc[i-1]
             v == FMin(Cap(blocks, lim, i), FAdd(prev, Gain(blocks[i])))
         IN  Forward(blocks, lim, i + 1, Append(acc, v))
RECURSIVE Backward(_, _, _)
Backward(blocks, f, i) ==                             \* boundaries i .. n are final
    IF i <= 1 THEN f
    ELSE Backward(blocks, [f EXCEPT ![i-1] = FMin(@, FAdd(f[i], Gain(blocks[i])))], i - 1)

Plan2(blocks, lim) == LET f == Forward(blocks, lim, 1, <<>>) IN Backward(blocks, f, Len(blocks))

\* the corner does not bind less than the moves do: the plan equals the corner limit here
CornerBinds(blocks, lim, plan, i) ==
    ~blocks[i].rest /\ i < Len(blocks) /\ ~blocks[i+1].rest /\ FClose(plan[i], lim[i], Dec(1, -8), Zero)

\* peak of the fastest profile of a block between the squared speeds vb2 and ve2
Peak2(b, vb2, ve2) == FMin(FSq(b.mv.T), FAdd(FMul(b.mv.acc, b.len), FMul(Half, FAdd(vb2, ve2))))
\* duration of the fastest profile
Fastest(b, vb2, ve2) ==
    LET vp2 == FMax(Peak2(b, vb2, ve2), FMax(vb2, ve2))
        vp == FSqrt(vp2)  vb == FSqrt(vb2)  ve == FSqrt(ve2)
        ramp == FDiv(FSub(FMul(Two, vp2), FAdd(vb2, ve2)), FMul(Two, b.mv.acc))
        rest == FSub(b.len, ramp)
    IN  FAdd(FDiv(FSub(FMul(Two, vp), FAdd(vb, ve)), b.mv.acc),
             IF rest[1] > 0 THEN FDiv(rest, vp) ELSE Zero)
=============================================================================
