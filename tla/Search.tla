------------------------------ MODULE Search ------------------------------
(***************************************************************************)
(* Which segment of a path holds an instant.  A path is a sequence of       *)
(* records [a, b] (begin and end) in order of time, possibly with gaps in   *)
(* between, in which nothing moves.  Times are ranks: only their order      *)
(* matters.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ordered(p) == /\ \A i \in DOMAIN p : p[i].a <= p[i].b
              /\ \A i \in 1..(Len(p) - 1) : p[i].b <= p[i + 1].a
Holding(p, t) == {i \in DOMAIN p : p[i].a <= t /\ t <= p[i].b}
\* the segments before a gap that holds the instant
Gaps(p, t) == {i \in 1..(Len(p) - 1) : p[i].b < p[i + 1].a /\ p[i].b <= t /\ t <= p[i + 1].a}
Inside(p, t) == p # <<>> /\ p[1].a <= t /\ t <= p[Len(p)].b
Least(S) == CHOOSE s \in S : \A r \in S : s <= r
=============================================================================
