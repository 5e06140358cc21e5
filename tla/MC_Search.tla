----------------------------- MODULE MC_Search -----------------------------
(***************************************************************************)
(* The search with a hint (the place of the last answer) on all small       *)
(* paths.  Going on from the hint, or starting again if the hint is useless *)
(* or too late, finds a segment that holds the instant if there is one, and *)
(* else the gap: the hint never changes whether something is found, and     *)
(* only at an instant shared by neighbours it may change what.  A hint      *)
(* stays good for another path.  All paths are exported and searched by the *)
(* real code from everywhere.                                               *)
(***************************************************************************)
EXTENDS Search, FiniteSets, TLC, Json

CONSTANTS Segments, Last, Export

VARIABLES path, hint, answer, steps
vars == <<path, hint, answer, steps>>
None == 0

RECURSIVE Rising(_, _)
\* rising sequences of k instants, none before m
Rising(k, m) == IF k = 0 THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Rising(k - 1, x)} : x \in m..Last}
Paths == {[i \in 1..n |-> [a |-> q[2 * i - 1], b |-> q[2 * i]]] : <<n, q>> \in UNION {{k} \X Rising(2 * k, 0) : k \in 1..Segments}}

\* what the search meets first, from the hint on
From(p, h, t) == IF h = None \/ h > Len(p) THEN 1 ELSE IF p[h].a > t THEN 1 ELSE h
Found(p, h, t, keep) ==
    LET here == {i \in From(p, h, t)..Len(p) : i \in Holding(p, t) \/ (keep /\ i \in Gaps(p, t))}
    IN  IF here = {} THEN [kind |-> "nothing", i |-> None]
        ELSE LET i == Least(here) IN [kind |-> IF i \in Holding(p, t) THEN "segment" ELSE "gap", i |-> i]

Init == path \in Paths /\ hint = None /\ answer = <<>> /\ steps = 0
Ask == \E t \in 0..Last, keep \in BOOLEAN :
          \E r \in {Found(path, hint, t, keep)} :
             /\ answer' = <<t, keep, r>>
             /\ hint' = IF r.i = None THEN hint ELSE r.i
             /\ steps' = 1 /\ UNCHANGED path
\* the path is replaced (a refreshed simulation): the hint is any number
Replace == steps = 0 /\ hint' \in 0..(Segments + 1) /\ UNCHANGED <<path, answer, steps>>
Next == Ask \/ Replace
Spec == Init /\ [][Next]_vars

Well == Ordered(path)
Answered == answer # <<>> => LET t == answer[1] keep == answer[2] r == answer[3] IN
    /\ (r.kind = "segment" => r.i \in Holding(path, t))
    /\ (r.kind = "gap" => keep /\ r.i \in Gaps(path, t))
    /\ (r.kind = "nothing" => Holding(path, t) = {} /\ (keep => Gaps(path, t) = {}))
\* within the path and keeping the position, there is always an answer
Total == answer # <<>> => ((answer[2] /\ Inside(path, answer[1])) => answer[3].kind # "nothing")
\* an instant is shared only by neighbours that meet there (or have no duration)
Shared == \A t \in 0..Last : \A i, j \in Holding(path, t) : i < j => path[i].b = t /\ path[j].a = t
GapsApart == \A t \in 0..Last : \A i \in Gaps(path, t), j \in Holding(path, t) : t \in {path[i].b, path[i + 1].a}
HintIrrelevant == (steps = 0 /\ hint = None) => \A t \in 0..Last, keep \in BOOLEAN : \A h \in 0..(Segments + 1) :
    \E r \in {Found(path, h, t, keep)}, s \in {Found(path, None, t, keep)} :
        /\ (r.kind = "nothing") = (s.kind = "nothing")
        /\ (r # s => \E i \in DOMAIN path : t \in {path[i].a, path[i].b})
Leaf == (Export /\ steps = 0 /\ hint = None) => PrintT(<<"VF-PATH", ToJson(path)>>)
=============================================================================
