-------------------------------- MODULE Num --------------------------------
(* Instants, lengths and tolerances shared by the trace specifications. *)
EXTENDS Flt

AxisNo == 1..4
R6 == Dec(1, -6)   R7 == Dec(1, -7)
MM(n) == FromInt(n, -6)                                 \* nm -> mm
Disp(p, q) == [k \in AxisNo |-> MM(q[k] - p[k])]

(* times are <<seconds, nanoseconds>> *)
TDiffNs(a, b) ==                                        \* a - b in ns, saturated at +-2 s
    LET s == a[1] - b[1] IN IF s >= 2 THEN 2000000000 ELSE IF s <= -2 THEN -2000000000
    ELSE LET d == s * 1000000000 IN IF s = 0 THEN a[2] - b[2]
         ELSE IF s = 1 THEN IF a[2] > b[2] THEN 2000000000 ELSE 1000000000 - (b[2] - a[2])
         ELSE IF a[2] < b[2] THEN -2000000000 ELSE -1000000000 + (a[2] - b[2])
TSame(a, b) == Abs(TDiffNs(a, b)) <= 1
TLe(a, b) == TDiffNs(a, b) <= 1
TVal(t) == FAdd(FromInt(t[1], 0), FromInt(t[2], -9))
\* a - b in seconds, exact for differences below 2 s
TSub(a, b) == LET d == TDiffNs(a, b) IN IF Abs(d) < 2000000000 THEN FromInt(d, -9) ELSE FSub(TVal(a), TVal(b))
T0 == <<0, 0>>

Scale(unit) == CASE unit = "SI" -> Dec(1, -3) [] unit = "inch" -> FDiv(One, Dec(254, -1)) [] OTHER -> One
=============================================================================
