------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Symmetries of a machine: translations, mirror images and permutations   *)
(* of X, Y, Z (and translations of E), and changes of the length scale.     *)
(*                                                                         *)
(* A symmetry tr maps axis k to axis tr.perm[k]:                           *)
(*    image(p)[perm[k]] = sgn[k] * p[k] * num / den + off[perm[k]]          *)
(* Settings are lengths per time, they scale without sign and offset.      *)
(***************************************************************************)
EXTENDS Gcode

\* the axis that is mapped to axis j
From(tr, j) == CHOOSE k \in AxisNo : tr.perm[k] = j
\* n nanometres, scaled; the programs are such that the division is exact
ScaleNm(tr, n) == (n * tr.num) \div tr.den
ExactNm(tr, n) == (n * tr.num) % tr.den = 0
Factor(tr) == FDiv(FromInt(tr.num, 0), FromInt(tr.den, 0))

PosImage(tr, p) == [j \in AxisNo |-> LET k == From(tr, j) IN tr.sgn[k] * ScaleNm(tr, p[k]) + tr.off[j]]
VecImage(tr, v) == LET s == Factor(tr) IN
    [j \in AxisNo |-> LET k == From(tr, j) x == FMul(s, v[k]) IN IF tr.sgn[k] < 0 THEN FNeg(x) ELSE x]

\* rewriting of one line; sh is the shift of the logical coordinates of the image, per axis
\* (after a set-position command with unchanged values it is zero for the named axes)
ArgImage(tr, m, c, a, sh) ==
    LET axis == \E k \in AxisNo : AxisLetter[k] = a.l
        k == CHOOSE i \in AxisNo : AxisLetter[i] = a.l
        j == tr.perm[k]
        unit == IF m.inch THEN 254 * Pow10(5 - a.d) ELSE Pow10(6 - a.d)
        n == a.v * unit
    IN  IF ~axis THEN [l |-> a.l, n |-> 0]
        ELSE IF c.l = LetG /\ c.n \in {0, 1}
        THEN [l |-> AxisLetter[j], n |-> tr.sgn[k] * ScaleNm(tr, n) + IF Absolute(m, k) THEN sh[j] ELSE 0]
        ELSE [l |-> AxisLetter[j], n |-> tr.sgn[k] * ScaleNm(tr, n)]                 \* G92: the shift vanishes

\* settings of the image of a machine
SettingsImage(tr, m) ==
    LET s == Factor(tr)
    IN  [F |-> FMul(s, m.F), acc |-> FMul(s, m.acc), jerk |-> FMul(s, m.jerk),
         vmax |-> [j \in AxisNo |-> FMul(s, m.vmax[From(tr, j)])]]
Close9(a, b) == FClose(a, b, Dec(5, -8), Dec(1, -9))
\* mt is the image of the machine m, as far as the motion is concerned
IsImage(tr, m, mt) ==
    LET s == SettingsImage(tr, m)
    IN  /\ mt.pos = PosImage(tr, m.pos)
        /\ Close9(mt.F, s.F) /\ Close9(mt.acc, s.acc) /\ Close9(mt.jerk, s.jerk)
        /\ \A k \in AxisNo : Close9(mt.vmax[k], s.vmax[k])
=============================================================================
