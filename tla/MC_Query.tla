------------------------------ MODULE MC_Query ------------------------------
(***************************************************************************)
(* Queries of a trajectory through a cursor (the place of the last answer). *)
(* A trajectory of n segments has the instants 0 .. 2n: even ones are ends  *)
(* of segments, odd ones lie inside.  Refreshing replaces the trajectory    *)
(* and leaves the cursor where it is.  Every query finds a segment that     *)
(* holds the instant, whatever was asked before, and finding the earliest   *)
(* of them from anywhere is the same up to the choice at an end.            *)
(* All histories are exported and replayed in the real code.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Counts, Depth, Export

VARIABLES n, cur, answer, hist
vars == <<n, cur, answer, hist>>

Instants(m) == 0..(2 * m)
Holds(s, i) == 2 * (s - 1) <= i /\ i <= 2 * s
Holding(m, i) == {s \in 1..m : Holds(s, i)}
Least(S) == CHOOSE s \in S : \A r \in S : s <= r
None == 0
\* the search of the implementation: from the cursor on, or from the beginning
Find(m, c, i) ==
    LET from == IF c = None \/ c > m THEN 1 ELSE IF 2 * (c - 1) > i THEN 1 ELSE c
        found == {s \in from..m : Holds(s, i)}
    IN  IF found = {} THEN None ELSE Least(found)

Init == n \in Counts /\ cur = None /\ answer = <<>> /\ hist = << <<"start", n>> >>
Ask(op) == /\ \E i \in Instants(n) : /\ cur' = Find(n, cur, i) /\ answer' = <<i, Find(n, cur, i)>>
                                     /\ hist' = Append(hist, <<op, i>>)
           /\ UNCHANGED n
Refresh == /\ n' \in Counts /\ n' # n /\ answer' = <<>>
           /\ hist' = Append(hist, <<"refresh", n'>>) /\ UNCHANGED cur
Next == Len(hist) <= Depth /\ (Ask("value") \/ Refresh)
Spec == Init /\ [][Next]_vars

AlwaysFound == answer # <<>> => answer[2] \in Holding(n, answer[1])
\* only at an inner end two segments hold the instant
Unambiguous == answer # <<>> => Cardinality(Holding(n, answer[1])) = 1 \/ (answer[1] % 2 = 0 /\ answer[1] \in 1..(2 * n - 1))
CursorInside == cur # None => \E m \in Counts : cur <= m
Leaf == (Export /\ Len(hist) = Depth + 1) => PrintT(<<"VF-HISTORY", ToJson(hist)>>)
=============================================================================
