----------------------------- MODULE MC_Junction -----------------------------
(***************************************************************************)
(* Laws of the corner speeds, for every pair of moves of a grid and every   *)
(* firmware.  The pairs are exported and replayed as programs, whose traces *)
(* are checked against module Run.                                          *)
(***************************************************************************)
EXTENDS Junction, FiniteSets, TLC, Json

CONSTANTS Export, Rich

Dirs == { <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<1, 1, 0>>, <<3, 4, 0>>, <<-4, -3, 0>>, <<1, 2, 2>> }
        \cup (IF Rich THEN { <<0, 0, 1>>, <<4, 3, 0>>, <<20, -1, 0>> } ELSE {})
Speeds == {<<20, 20>>, <<60, 20>>, <<20, 60>>}
Scales == {<<800, 800>>, <<25, 800>>, <<800, 25>>}         \* 1/100 mm per unit of direction
Flows == {<<0, 0>>, <<1, 1>>} \cup (IF Rich THEN {<<1, 0>>, <<-1, 1>>} ELSE {<<-2, 1>>})          \* extruder per unit of scale
Jerks == {3, 12}
Firmwares == {"none", "marlin_jd", "klipper", "marlin_jerk", "MKA"}

VARIABLES c, a, b, v     \* the case, its moves and its squared corner speed
vars == <<c, a, b, v>>
Disp(x, n) == [k \in 1..4 |-> IF k < 4 THEN FromInt(x.d[n][k] * x.s[n], -2) ELSE FromInt(x.e[n] * x.s[n], -3)]
MoveOf(x, n) == LET m == Disp(x, n) IN [d |-> m, D |-> FNorm3(m), T |-> FromInt(x.T[n], 0), acc |-> Dec(2000, 0),
                                        jerk |-> FromInt(x.j, 0)]
Law(x) == Corner2(x.fw, MoveOf(x, 1), MoveOf(x, 2))
Init == /\ c \in [fw : Firmwares, d : Dirs \X Dirs, T : {<<0, 0>>}]
        /\ a = <<>> /\ b = <<>> /\ v = Zero
Next == /\ c.T = <<0, 0>>
        /\ \E T \in Speeds, s \in Scales, e \in Flows, j \in Jerks :
              c' = [fw |-> c.fw, d |-> c.d, T |-> T, s |-> s, e |-> e, j |-> j]
        /\ a' = TLCEval(MoveOf(c', 1)) /\ b' = TLCEval(MoveOf(c', 2))
        /\ v' = TLCEval(Corner2(c.fw, a', b'))
Spec == Init /\ [][Next]_vars
Made == c.T # <<0, 0>>
A == a
B == b
V2 == v
Near(x, y) == FClose(x, y, Dec(2, -6), Dec(1, -6))
AtMost(x, y) == FLeTol(x, y, Dec(2, -6), Dec(1, -6))

Dot(u, w) == u[1] * w[1] + u[2] * w[2] + u[3] * w[3]
Parallel(u, w) == Dot(u, w) * Dot(u, w) = Dot(u, u) * Dot(w, w)
Straight == Parallel(c.d[1], c.d[2]) /\ Dot(c.d[1], c.d[2]) > 0
Reversal == Parallel(c.d[1], c.d[2]) /\ Dot(c.d[1], c.d[2]) < 0
Square == Dot(c.d[1], c.d[2]) = 0
J2 == FSq(A.jerk)
Contact == FMul(FMul(Half, FMin(A.D, B.D)), A.acc)          \* klipper, times tan(theta / 2)
T2 == FSq(A.T)

Bounded == Made => FSign(V2) >= 0 /\ AtMost(V2, T2)
FullStop == Made /\ c.fw = "none" => V2[1] = 0
ReversalStops == (Made /\ Reversal /\ c.fw \in {"marlin_jd", "klipper"}) => V2[1] = 0
StraightPasses == (Made /\ Straight /\ c.T[1] = c.T[2]) =>
    CASE c.fw \in {"marlin_jd", "marlin_jerk"} -> Near(V2, T2)
      [] c.fw = "MKA" -> (c.e[1] = 0 /\ c.e[2] = 0) => Near(V2, T2)
      [] OTHER -> TRUE
SquareCorner == Made /\ Square =>
    CASE c.fw = "klipper" -> Near(V2, FMin(T2, FMin(J2, Contact)))
      [] c.fw = "marlin_jd" -> Near(V2, FMin(T2, FMul(Dec(965685425, -9), J2)))
      [] c.fw = "marlin_jerk" -> Near(V2, FMin(T2, FDiv(FMul(FMul(Dec(4, 0), J2), T2), FAdd(T2, FSq(B.T)))))
      [] OTHER -> TRUE
\* no axis jumps by more than the jerk; less would do only at the common feedrate
MKAJumps == (Made /\ c.fw = "MKA") =>
    LET sp == FSqrt(V2)
        u0 == Unit(A)
        f == FDiv(sp, FMin(A.T, B.T))
        w1 == Vel(B)
    IN  \A k \in 1..4 : AtMost(AxisJump(FMul(sp, u0[k]), FMul(f, w1[k])), A.jerk)
MoreJerkIsFaster == Made /\ c.j = 3 => AtMost(V2, Law([c EXCEPT !.j = 12]))
ExtruderIrrelevant == Made /\ c.fw # "MKA" => V2 = Law([c EXCEPT !.e = <<0, 0>>])
\* a sharper corner is never faster
Sharper(x, y) ==       \* x turns at least as much as y, at equal lengths of direction
    Dot(x.d[1], x.d[1]) = Dot(y.d[1], y.d[1]) /\ Dot(x.d[2], x.d[2]) = Dot(y.d[2], y.d[2])
    /\ Dot(x.d[1], x.d[2]) <= Dot(y.d[1], y.d[2])
Monotone == Made /\ c.fw \in {"marlin_jd", "klipper", "marlin_jerk"} =>
    \A d \in Dirs : LET y == [c EXCEPT !.d = <<c.d[1], d>>] IN Sharper(c, y) => AtMost(V2, Law(y))
\* driving the corner backwards is the same corner
Back(x) == [x EXCEPT !.d = <<[k \in 1..3 |-> -x.d[2][k]], [k \in 1..3 |-> -x.d[1][k]]>>, !.s = <<x.s[2], x.s[1]>>,
                     !.T = <<x.T[2], x.T[1]>>, !.e = <<-x.e[2], -x.e[1]>>]
Reversible == (Made /\ c.T[1] = c.T[2] /\ c.fw # "MKA") => Near(V2, Law(Back(c)))

Leaf == Export /\ Made => PrintT(<<"VF-CASE", ToJson(c)>>)
=============================================================================
