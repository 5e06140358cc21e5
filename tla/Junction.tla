------------------------------ MODULE Junction ------------------------------
(***************************************************************************)
(* Corner speed laws of the supported firmwares, in v^2 (mm/s)^2.          *)
(*                                                                         *)
(* A move is [d |-> displacement (four decimal floats, mm), D |-> length of *)
(* the displacement on X, Y, Z, T |-> feedrate in mm/s, acc, jerk].        *)
(* A corner is the pair of a move and the next one (or NoMove at the end). *)
(***************************************************************************)
EXTENDS Flt

NoMove == [d |-> <<Zero, Zero, Zero, Zero>>, D |-> Zero, T |-> Zero, acc |-> One, jerk |-> Zero]

Travels(mv) == mv.D[1] > 0
\* direction per unit of nozzle travel (per unit of extruder travel without nozzle travel)
Unit(mv) == IF Travels(mv) THEN [k \in 1..4 |-> FDiv(mv.d[k], mv.D)]
            ELSE [k \in 1..4 |-> IF k < 4 \/ mv.d[4][1] = 0 THEN Zero ELSE IF mv.d[4][1] > 0 THEN One ELSE FNeg(One)]
Vel(mv) == LET u == Unit(mv) IN [k \in 1..4 |-> FMul(mv.T, u[k])]
Speed(mv) == IF Travels(mv) THEN mv.T ELSE Zero               \* nozzle speed at feedrate

Cross2(u, w) ==                        \* |u x w|^2
    LET x == FSub(FMul(u[2], w[3]), FMul(u[3], w[2]))
        y == FSub(FMul(u[3], w[1]), FMul(u[1], w[3]))
        z == FSub(FMul(u[1], w[2]), FMul(u[2], w[1]))
    IN  FAdd(FAdd(FSq(x), FSq(y)), FSq(z))
\* theta is the angle between the reversed first direction and the second one
\* (theta = 180 deg on a straight line, theta = 0 for a reversal);
\* the angle is taken from the displacements, the smaller half from the cross product
HalfAngle(m0, m1) ==                   \* <<sin(theta/2)^2, cos(theta/2)^2>>
    LET DD == FMul(m0.D, m1.D)
        cosd == FDiv(FDot3(m0.d, m1.d), DD)                       \* -cos(theta)
        sin2 == FDiv(FDiv(Cross2(m0.d, m1.d), DD), DD)            \* sin(theta)^2
        big == FMul(Half, FAdd(One, FAbs(cosd)))
        small == FMul(Dec(25, -2), FDiv(sin2, big))
    IN  IF cosd[1] >= 0 THEN <<big, small>> ELSE <<small, big>>

Sin9  == Dec(156434465, -9)
Sin81 == Dec(987688341, -9)
Sqrt2M1 == Dec(414213562, -9)

\* s / (1 - s) without cancellation, s = sin(theta/2), c2 = cos(theta/2)^2 > 0
Ratio(s, c2) == FDiv(FMul(s, FAdd(One, s)), c2)

\* junction deviation (Marlin): v^2 = 0.4 * jerk^2 * s / (1 - s) between 18 and 162 degrees
JDv2(m0, m1) ==
    IF m0.jerk[1] = 0 \/ ~Travels(m0) \/ ~Travels(m1) THEN Zero
    ELSE LET h == HalfAngle(m0, m1)
             s == FSqrt(h[1])
             full == FSq(m0.T)
         IN  IF FLe(Sin81, s) THEN full
             ELSE IF FLe(s, Sin9) THEN Zero
             ELSE FMin(full, FMul(FMul(Dec(4, -1), FSq(m0.jerk)), Ratio(s, h[2])))

\* klipper: square corner velocity; the circle touches both moves no further than mid-move
Klipperv2(m0, m1) ==
    IF ~Travels(m0) \/ ~Travels(m1) THEN Zero
    ELSE LET h == HalfAngle(m0, m1)
             clamp == FLt(h[2], Dec(5, -7))
             c2 == IF clamp THEN Dec(5, -7) ELSE h[2]
             s  == IF clamp THEN FSqrt(FSub(One, Dec(5, -7))) ELSE FSqrt(h[1])
         IN  IF FLt(h[1], Dec(5, -7)) THEN Zero
             ELSE FMin(FSq(m0.T),
                  FMin(FMul(FMul(FSq(m0.jerk), Sqrt2M1), Ratio(s, c2)),
                       FMul(FMul(FMul(Half, FMin(m0.D, m1.D)), m0.acc), FDiv(s, FSqrt(c2)))))

\* classic jerk (Marlin): the change of velocity is at most 2 * jerk
Jerkv2(m0, m1) ==
    IF ~Travels(m0) THEN Zero
    ELSE LET v0 == Vel(m0)  v1 == Vel(m1)
             diff == [k \in 1..3 |-> FSub(v0[k], v1[k])]
             dv2 == FDot3(diff, diff)
             j == FMul(Two, m0.jerk)
             same == FMul(Dec(1, -7), m0.T)                       \* equal up to rounding
         IN  IF FLe(dv2, FSq(FAdd(j, same))) THEN FSq(m0.T)
             ELSE FMul(FSq(m0.T), FDiv(FSq(j), dv2))

\* MKA: common speed of both moves, reduced so that no axis jumps by more than the jerk
AxisJump(vx, vn) ==     \* exit velocity of the previous move, entry velocity of the next one
    IF FLt(vn, vx)
    THEN IF vn[1] > 0 \/ vx[1] < 0 THEN FSub(vx, vn) ELSE FMax(vx, FNeg(vn))
    ELSE IF vn[1] < 0 \/ vx[1] > 0 THEN FSub(vn, vx) ELSE FMax(FNeg(vx), vn)
RECURSIVE MKAFactor(_, _, _, _, _, _)
MKAFactor(vx, vn, jerk, same, k, f) ==
    IF k > 4 THEN f
    ELSE LET jump == AxisJump(FMul(f, vx[k]), FMul(f, vn[k]))
         IN  MKAFactor(vx, vn, jerk, same, k + 1, IF FLt(FAdd(jerk, same), jump) THEN FMul(f, FDiv(jerk, jump)) ELSE f)
MKAv2(m0, m1) ==
    IF ~Travels(m0) \/ ~Travels(m1) THEN Zero
    ELSE LET v == FMin(m0.T, m1.T)
             scale == FDiv(v, m0.T)
             v0 == Vel(m0)
             vx == [k \in 1..4 |-> FMul(scale, v0[k])]
         IN  FSq(FMul(v, MKAFactor(vx, Vel(m1), m0.jerk, FMul(Dec(1, -7), v), 1, One)))

Corner2(fw, m0, m1) ==
    CASE fw = "marlin_jd"   -> JDv2(m0, m1)
      [] fw = "klipper"     -> Klipperv2(m0, m1)
      [] fw = "marlin_jerk" -> Jerkv2(m0, m1)
      [] fw = "MKA"         -> MKAv2(m0, m1)
      [] OTHER              -> Zero
=============================================================================
