-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* Straight moves and axis aligned boxes: the part of a move inside the     *)
(* closed box is an interval of [0, 1].                                     *)
(***************************************************************************)
EXTENDS Num

Empty == <<One, Zero>>
Slab(a, b, lo, hi) ==         \* interval of [0, 1] in which a + x (b - a) lies in lo .. hi (nm)
    IF a = b THEN IF lo <= a /\ a <= hi THEN <<Zero, One>> ELSE Empty
    ELSE LET d == MM(b - a)
             x == FDiv(MM(lo - a), d)  y == FDiv(MM(hi - a), d)
         IN  <<FMax(Zero, FMin(x, y)), FMin(One, FMax(x, y))>>
Meet(x, y) == <<FMax(x[1], y[1]), FMin(x[2], y[2])>>
Inside(s, lo, hi) == Meet(Meet(Slab(s.pb[1], s.pe[1], lo[1], hi[1]), Slab(s.pb[2], s.pe[2], lo[2], hi[2])),
                          Slab(s.pb[3], s.pe[3], lo[3], hi[3]))
PointIn(p, lo, hi) == \A k \in 1..3 : lo[k] <= p[k] /\ p[k] <= hi[k]
OnSurface(p, lo, hi) == PointIn(p, lo, hi) /\ \E k \in 1..3 : p[k] = lo[k] \/ p[k] = hi[k]
Slides(s, lo, hi) == \E k \in 1..3 : s.pb[k] = s.pe[k] /\ s.pb[k] \in {lo[k], hi[k]}
Beside(s, lo, hi) == \E k \in 1..3 : (s.pb[k] < lo[k] - 200 /\ s.pe[k] < lo[k] - 200)
                                    \/ (s.pb[k] > hi[k] + 200 /\ s.pe[k] > hi[k] + 200)
=============================================================================
