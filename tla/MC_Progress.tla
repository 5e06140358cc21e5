---------------------------- MODULE MC_Progress ----------------------------
(***************************************************************************)
(* Loops that report their progress one after another.  The last shown      *)
(* percentage is kept over the end of a loop: a new bar that begins with    *)
(* what the one before showed last keeps silent.  Every percentage shown is *)
(* in range and never falls within a loop, and a loop that reports each of  *)
(* its steps ends with Done.  The last shown percentage and the sequences   *)
(* of updates are exported and replayed into the real code.                 *)
(* Texts: dropping what is no ASCII commutes with printing parts one after  *)
(* another, and is done only once.                                          *)
(***************************************************************************)
EXTENDS Progress, TLC, Json

CONSTANTS MaxSteps, Loops, Jumps, Export

VARIABLES last, n, k, first, shown, hist
vars == <<last, n, k, first, shown, hist>>
Nothing == <<>>

Init == last = 0 /\ n \in 1..MaxSteps /\ k = 0 /\ first = Nothing /\ shown = Nothing /\ hist = <<>>

\* a bar may round a tie either way
Show(j, m) ==
    \E t \in Tenths(j, m), h \in Hashes(j, m) :
        LET s == Status(j, m) IN
        IF t = last /\ s = "" THEN last' = last /\ shown' = Nothing
        ELSE last' = t /\ shown' = <<[t |-> t, h |-> h, s |-> s]>>
Step == /\ k < n /\ Show(k + 1, n) /\ k' = k + 1 /\ hist' = Append(hist, <<k + 1, n>>)
        /\ first' = shown /\ UNCHANGED n
Again == /\ k = n /\ Len(hist) < Loops * MaxSteps /\ n' \in 1..MaxSteps /\ k' = 0 /\ first' = Nothing /\ shown' = Nothing
         /\ UNCHANGED <<last, hist>>
\* a step outside of the range
Jump == /\ Jumps /\ k = 0 /\ \E j \in {-1, n + 1} : Show(j, n) /\ hist' = Append(hist, <<j, n>>)
        /\ Len(hist) < Loops * MaxSteps /\ first' = Nothing /\ UNCHANGED <<n, k>>
Next == Step \/ Again \/ Jump
Spec == Init /\ [][Next]_vars
View == <<last, n, k, shown, IF Export THEN hist ELSE <<Len(hist)>>>>

InRange == shown # Nothing => LET x == shown[1] IN
    /\ x.t \in 0..1000 /\ x.h \in 0..10 /\ Fits(x.t, x.h)
    /\ (x.s = "done" => x.t = 1000 /\ x.h = 10) /\ (x.s = "halt" => x.t = 0 /\ x.h = 0)
EndsDone == (k = n /\ k > 0) => shown # Nothing /\ shown[1].s = "done"
SilentIsKnown == \A j \in 0..n : Silent(last, j, n) => last \in Tenths(j, n) /\ j < n
Rises == [][(k' = k + 1 /\ k > 0 /\ shown' # Nothing /\ shown # Nothing) => shown'[1].t >= shown[1].t]_vars
OneOrTwo == \A j \in -1..(n + 1) : Tenths(j, n) # {} /\ \A x, y \in Tenths(j, n) : x - y \in {-1, 0, 1}

Chars == {10, 65, 127, 128, 8505}
Texts == UNION {[1..m -> Chars] : m \in 0..3}
ASSUME \A s, t \in Texts : Ascii(s \o t) = Ascii(s) \o Ascii(t)
ASSUME \A s \in Texts : Ascii(Ascii(s)) = Ascii(s) /\ (\A i \in DOMAIN s : s[i] < 128) = (Ascii(s) = s)
Leaf == (Export /\ k = n /\ Len(hist) > MaxSteps) => PrintT(<<"VF-LOOPS", ToJson(hist)>>)
=============================================================================
