----------------------------- MODULE MC_Segment -----------------------------
(***************************************************************************)
(* A segment is cut, glued and moved in time.  What holds of all segments:  *)
(* the pieces of a consistent segment are consistent, they meet in position *)
(* and velocity, moving in time moves the answers, and the end position is  *)
(* reached.  A segment with another end position or reversed time is not    *)
(* one.  All segments with their questions are exported and asked from the  *)
(* real code.                                                               *)
(***************************************************************************)
EXTENDS Vec, TLC, Json

CONSTANTS Export

V(x, y, z, e) == <<FromInt(x, 0), FromInt(y, 0), FromInt(z, 0), FromInt(e, 0)>>
Starts == { V(0, 0, 0, 0), V(5, -3, 1, 10) }
Speeds == { V(0, 0, 0, 0), V(3, 4, 0, 1), V(6, 8, 0, 2), V(0, -2, 0, 0), V(0, 0, 0, -3), V(-1, 0, 2, 4) }
Durations == { -512, 0, 256, 1024, 2560 }
Wrong == { V(0, 0, 0, 0), V(1, 0, 0, 0), V(0, 0, -1, 0) }
Shifts == { -300, 0, 2048 }

VARIABLES s, asked, phase
vars == <<s, asked, phase>>
Whole(tb, d, p, vb, ve, w) ==
    [tb |-> tb, te |-> tb + d, pb |-> p, vb |-> vb, ve |-> ve,
     pe |-> VAdd(w, VAdd(p, VMul(VAdd(vb, ve), FMul(Half, Sec(d)))))]
Init == /\ \E tb \in {0, 700}, d \in Durations, p \in Starts, vb \in Speeds, ve \in Speeds, w \in Wrong :
              s = Whole(tb, d, p, vb, ve, w)
        /\ asked = -1 /\ phase = "made"
Accepted == s.tb <= s.te /\ FLe(Off(s), Dec(1, -6))
Move == /\ phase = "made" /\ Accepted /\ \E n \in Shifts : s' = Shift(s, n)
        /\ phase' = "moved" /\ UNCHANGED asked
Cut(t) == << [s EXCEPT !.te = t, !.pe = PositionAt(s, t), !.ve = VelocityAt(s, t)],
             [s EXCEPT !.tb = t, !.pb = PositionAt(s, t), !.vb = VelocityAt(s, t)] >>
Ask == /\ phase = "moved" /\ phase' = "asked"
       /\ \E q \in 0..4 : asked' = s.tb + (q * (s.te - s.tb)) \div 4
       /\ UNCHANGED s
Next == Move \/ Ask
Spec == Init /\ [][Next]_vars

Tol == Dec(1, -6)
Pieces == phase = "asked" =>
    \A i \in {1, 2} : \E c \in {Cut(asked)[i]} :
        /\ FLe(Off(c), Tol)
        /\ \A x \in 0..4 : \E t \in {c.tb + (x * (c.te - c.tb)) \div 4} :
               /\ Same(PositionAt(c, t), PositionAt(s, t), Tol, Tol)
               /\ (c.te # c.tb \/ s.te = s.tb) => Same(VelocityAt(c, t), VelocityAt(s, t), Tol, Tol)
Ends == phase = "asked" => /\ Same(PositionAt(s, s.te), s.pe, Tol, Tol) /\ PositionAt(s, s.tb) = s.pb
                           /\ s.te # s.tb => Same(VelocityAt(s, s.te), s.ve, Tol, Tol) /\ VelocityAt(s, s.tb) = s.vb
NeverFaster == phase = "asked" => FLe(Norm(VelocityAt(s, asked), 3), FAdd(Tol, FMax(Norm(s.vb, 3), Norm(s.ve, 3))))
MovedAnswers == [][phase = "made" => \A q \in 0..4 : \E n \in {(q * (s.te - s.tb)) \div 4} :
                     /\ Same(PositionAt(s', s'.tb + n), PositionAt(s, s.tb + n), Tol, Tol)
                     /\ Same(VelocityAt(s', s'.tb + n), VelocityAt(s, s.tb + n), Tol, Tol)
                     /\ Defined(s', s'.tb + n) ]_vars
\* the speed error adds up over the pieces (motion along one line)
Parallel == Dir(s.vb, 3) = <<>> \/ Dir(s.ve, 3) = <<>> \/ Same(Dir(s.vb, 3), Dir(s.ve, 3), Tol, Tol)
Additive == (phase = "asked" /\ Parallel) =>
    LET e == FromInt(12, 0) IN FClose(FAdd(SpeedError(Cut(asked)[1], e), SpeedError(Cut(asked)[2], e)), SpeedError(s, e), Tol, Tol)
Leaf == (Export /\ phase = "made") => PrintT(<<"VF-SEGMENT", ToJson([s |-> s, off |-> Off(s)])>>)
=============================================================================
