------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* Progress bars of the console, and what of a text survives where only     *)
(* ASCII can be printed (ABAQUS).  A progress is a fraction k / n; a line   *)
(* of the bar shows it in tenths of a percent and as ten characters, and    *)
(* says when the beginning is undercut or the end is reached.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Clamp(k, n) == IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
\* what k / n of m may be rounded to (a tie to either side)
Rounded(k, n, m) == LET c == Clamp(k, n) * m
                        q == c \div n
                        r == c % n
                    IN  IF 2 * r < n THEN {q} ELSE IF 2 * r > n THEN {q + 1} ELSE {q, q + 1}
Tenths(k, n) == Rounded(k, n, 1000)
Hashes(k, n) == Rounded(k, n, 10)
Status(k, n) == IF k < 0 THEN "halt" ELSE IF k >= n THEN "done" ELSE ""
\* the bar fits to the percentage next to it, as far as that tells
Fits(t, h) == LET d == 100 * h - t IN d <= 51 /\ -d <= 51

\* what a bar shows after `last` for the progress k / n: nothing, if it would look the same
Silent(last, k, n) == Status(k, n) = "" /\ last \in Tenths(k, n)

Ascii(s) == SelectSeq(s, LAMBDA c : c < 128)
=============================================================================
