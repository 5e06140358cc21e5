-------------------------------- MODULE Vec --------------------------------
(* Vectors of x, y, z and e; motion at linearly changing velocity (segments). *)
EXTENDS Flt

Axes == 1..4
VAdd(a, b) == [k \in Axes |-> FAdd(a[k], b[k])]
VSub(a, b) == [k \in Axes |-> FSub(a[k], b[k])]
VMul(a, c) == [k \in Axes |-> FMul(a[k], c)]
VDiv(a, c) == [k \in Axes |-> FDiv(a[k], c)]
V0 == [k \in Axes |-> Zero]
Norm(a, n) == FSqrt(FAdd(FDot3(a, a), IF n = 4 THEN FSq(a[4]) ELSE Zero))
\* direction: of the travel if there is any, else of the extrusion (seen with n = 4 only), else none (<<>>)
Dir(a, n) ==
    LET t == Norm(a, 3) IN
    IF t[1] # 0 THEN [k \in 1..n |-> FDiv(a[k], t)]
    ELSE IF n = 4 /\ a[4][1] # 0 THEN [k \in 1..4 |-> FDiv(a[k], FAbs(a[4]))]
    ELSE <<>>
Travels(a, b) == \E k \in 1..3 : a[k] # b[k]
Extrudes(a, b) == FLt(a[4], b[4])
Same(a, b, rel, abs) == \A k \in DOMAIN a : FClose(a[k], b[k], rel, abs)
\* the largest multiple (at most 1) of a velocity with every axis within its limit
RECURSIVE Fit(_, _, _)
Fit(v, lim, k) == IF k = 0 THEN One
                  ELSE IF FLt(lim[k], FAbs(v[k])) THEN FMin(FDiv(lim[k], FAbs(v[k])), Fit(v, lim, k - 1)) ELSE Fit(v, lim, k - 1)
Limited(v, lim) == LET c == Fit(v, lim, 4) IN IF c = One THEN v ELSE VMul(v, c)

(* segments: times are whole numbers of 1/1024 s *)
Sec(n) == FMul(FromInt(n, 0), Dec(9765625, -10))
VelocityAt(s, t) ==
    IF s.te = s.tb THEN s.vb ELSE LET x == FRat(t - s.tb, s.te - s.tb) IN VAdd(s.vb, VMul(VSub(s.ve, s.vb), x))
PositionAt(s, t) == VAdd(s.pb, VMul(VAdd(s.vb, VelocityAt(s, t)), FMul(Half, Sec(t - s.tb))))
\* what the given end position is off (x, y, z)
Off(s) == Norm(VSub(s.pe, VAdd(s.pb, VMul(VAdd(s.vb, s.ve), FMul(Half, Sec(s.te - s.tb))))), 3)
Defined(s, t) == s.tb <= t /\ t <= s.te
Shift(s, n) == [s EXCEPT !.tb = @ + n, !.te = @ + n]
\* the relative lack of speed, integrated over the travel: Simpson's rule over time is exact here
Lack(v, target) == FMul(v, FSub(One, FDiv(v, target)))
SpeedError(s, target) ==
    LET a == Norm(s.vb, 3)  b == Norm(s.ve, 3)  m == FMul(Half, FAdd(a, b))
    IN  FMul(FDiv(Sec(s.te - s.tb), FromInt(6, 0)), FAdd(FAdd(Lack(a, target), Lack(b, target)), FMul(FromInt(4, 0), Lack(m, target))))
=============================================================================
