-------------------------------- MODULE Block --------------------------------
(* A move from rest to rest over the length L with the feedrate f and the acceleration a: distance and time. *)
EXTENDS Flt
Peak(f, a, L) == FMin(f, FSqrt(FMul(a, L)))
Ramp(p, a) == FDiv(FSq(p), FMul(Two, a))                      \* length of one ramp
Rise(p, a) == FDiv(p, a)                                      \* its duration
Cruise(p, a, L) == FMax(Zero, FSub(L, FMul(Two, Ramp(p, a))))
Whole(p, a, L) == FAdd(FMul(Two, Rise(p, a)), FDiv(Cruise(p, a, L), p))
\* distance gone at the time t
DistAt(p, a, L, t) ==
    IF FLe(t, Rise(p, a)) THEN FMul(Half, FMul(a, FSq(t)))
    ELSE LET left == FSub(Whole(p, a, L), t)
         IN  IF FLe(left, Rise(p, a)) THEN FSub(L, FMul(Half, FMul(a, FSq(left))))
             ELSE FAdd(Ramp(p, a), FMul(p, FSub(t, Rise(p, a))))
\* time at which the distance d is reached
TimeAt(p, a, L, d) ==
    IF FLe(d, Ramp(p, a)) THEN FSqrt(FDiv(FMul(Two, d), a))
    ELSE LET left == FSub(L, d)
         IN  IF FLe(left, Ramp(p, a)) THEN FSub(Whole(p, a, L), FSqrt(FDiv(FMul(Two, left), a)))
             ELSE FAdd(Rise(p, a), FDiv(FSub(d, Ramp(p, a)), p))
==============================================================================
