-------------------------------- MODULE Flt --------------------------------
(***************************************************************************)
(* Decimal software floating point for TLC, whose integers have 32 bits.   *)
(* A number is a pair <<m, e>> and denotes m * 10^e, where m = 0 or        *)
(* 10^8 <= |m| < 10^9 (nine significant digits).  Every operation has a    *)
(* relative error of at most a few units of 1e-8, which is far below the   *)
(* tolerances used by the properties (1e-6).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL P10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
Pow10(k) == P10[k + 1]                                   \* 0 <= k <= 9

Abs(n) == IF n < 0 THEN -n ELSE n
IMin(a, b) == IF a < b THEN a ELSE b
IMax(a, b) == IF a > b THEN a ELSE b

LOCAL Digits(n) ==                                       \* 0 < n < 2^31
    IF n >= 100000 THEN IF n >= 10000000
                        THEN IF n >= 1000000000 THEN 10 ELSE IF n >= 100000000 THEN 9 ELSE 8
                        ELSE IF n >= 1000000 THEN 7 ELSE 6
    ELSE IF n >= 100 THEN IF n >= 10000 THEN 5 ELSE IF n >= 1000 THEN 4 ELSE 3
    ELSE IF n >= 10 THEN 2 ELSE 1

Zero == <<0, 0>>

\* the number m * 10^e for any 32 bit m
FromInt(m, e) ==
    IF m = 0 THEN Zero
    ELSE IF m > 0
         THEN LET d == Digits(m) IN
              IF d = 9 THEN <<m, e>>
              ELSE IF d = 10 THEN <<m \div 10, e + 1>>
              ELSE <<m * Pow10(9 - d), e - 9 + d>>
         ELSE LET d == Digits(-m) IN
              IF d = 9 THEN <<m, e>>
              ELSE IF d = 10 THEN <<-((-m) \div 10), e + 1>>
              ELSE <<m * Pow10(9 - d), e - 9 + d>>

One == FromInt(1, 0)
Two == FromInt(2, 0)
Half == FromInt(5, -1)
Dec(m, e) == FromInt(m, e)

FNeg(a) == <<-a[1], a[2]>>
FAbs(a) == IF a[1] < 0 THEN <<-a[1], a[2]>> ELSE a
FSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

FAdd(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[2] >= b[2]
         THEN IF a[2] - b[2] >= 9 THEN a
              ELSE FromInt(a[1] + (b[1] \div Pow10(a[2] - b[2])), a[2])
         ELSE IF b[2] - a[2] >= 9 THEN b
              ELSE FromInt(b[1] + (a[1] \div Pow10(b[2] - a[2])), b[2])
FSub(a, b) == FAdd(a, FNeg(b))

LOCAL MulPos(x, y) ==     \* 10^8 <= x, y < 10^9 : <<x * y / 10^s, s>>
    LET x1 == x \div 100000    x0 == x % 100000
        y1 == y \div 100000    y0 == y % 100000
        hi == x1 * y1
    IN  IF hi < 9999990        \* use one more digit
        THEN <<hi * 100 + (x1 * y0) \div 1000 + (x0 * y1) \div 1000
                        + ((x0 \div 100) * (y0 \div 100)) \div 10000, 8>>
        ELSE <<hi * 10 + (x1 * y0) \div 10000 + (x0 * y1) \div 10000
                       + ((x0 \div 100) * (y0 \div 100)) \div 100000, 9>>

FMul(a, b) ==
    IF a[1] = 0 \/ b[1] = 0 THEN Zero
    ELSE LET p == MulPos(Abs(a[1]), Abs(b[1]))
         IN  FromInt(IF (a[1] < 0) = (b[1] < 0) THEN p[1] ELSE -p[1], a[2] + b[2] + p[2])

FSq(a) == FMul(a, a)

\* 1 / a by one Newton step from a 5 digit integer quotient
LOCAL Inv(a) ==
    LET s == Abs(a[1])
        q == 1000000000 \div (s \div 10000)          \* about 10^13 / s, 10^4 .. 10^5
        r0 == FromInt(q, -13 - a[2])
        aa == <<s, a[2]>>
        r1 == FMul(r0, FSub(Two, FMul(aa, r0)))
    IN  IF a[1] < 0 THEN FNeg(r1) ELSE r1

FDiv(a, b) == IF a[1] = 0 THEN Zero ELSE FMul(a, Inv(b))   \* b # 0

\* integer square root of 0 <= n < 2^31 (binary search on 16 bits)
LOCAL ISqrt(n) ==
    LET RECURSIVE go(_, _)
        go(lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2
                           IN  IF m <= n \div m THEN go(m, hi) ELSE go(lo, m)
    IN  IF n < 2 THEN n ELSE go(1, 46341)

\* square root of a >= 0 : 5 digit integer root, then one Heron step
FSqrt(a) ==
    IF a[1] <= 0 THEN Zero
    ELSE LET odd == (a[2] % 2) # 0
             \* even exponent, mantissa 10^8..10^9 (even) or 10^9.. -> use 10^7..10^8
             n == IF odd THEN a[1] \div 10 ELSE a[1]
             e == IF odd THEN a[2] + 1 ELSE a[2]
             r0 == FromInt(ISqrt(n), e \div 2)
             r1 == FMul(Half, FAdd(r0, FDiv(a, r0)))
         IN  r1

FLe(a, b) == FSub(b, a)[1] >= 0
FLt(a, b) == FSub(b, a)[1] > 0
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FMax(a, b) == IF FLe(a, b) THEN b ELSE a

\* |a - b| <= abs + rel * max(|a|, |b|)
FClose(a, b, rel, abs) ==
    LET d == FAbs(FSub(a, b))
    IN  d[1] = 0 \/ FLe(d, FAdd(abs, FMul(rel, FMax(FAbs(a), FAbs(b)))))
\* a <= b up to the tolerance
FLeTol(a, b, rel, abs) ==
    LET d == FSub(a, b)
    IN  d[1] <= 0 \/ FLe(d, FAdd(abs, FMul(rel, FMax(FAbs(a), FAbs(b)))))

\* rational a / b of small integers
FRat(a, b) == FDiv(FromInt(a, 0), FromInt(b, 0))

\* sequences of numbers
RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN Zero ELSE FAdd(Head(s), FSum(Tail(s)))
FDot3(u, w) == FAdd(FAdd(FMul(u[1], w[1]), FMul(u[2], w[2])), FMul(u[3], w[3]))
FNorm3(u) == FSqrt(FDot3(u, u))
=============================================================================
