------------------------------- MODULE Vectors -------------------------------
(***************************************************************************)
(* Trace specification of calculations with vectors (C31) and of segments   *)
(* built by hand (C32).                                                     *)
(*   new, op     a value; a new value from an earlier one and an operand    *)
(*   see, pair   everything that can be asked about a value, about two      *)
(*   again       the values after all calculations                          *)
(*   make        a segment, accepted or refused                             *)
(*   move, at, check, facts, results   what is done with it                 *)
(***************************************************************************)
EXTENDS Vec, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, id, regs, seg, bad, num
vars == <<l, id, regs, seg, bad, num>>
Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(p, name, ok) == IF p \notin Sel \/ ok THEN {} ELSE {<<p \o "." \o name, id, Len(regs)>>}
None == [tb |-> 0, te |-> 0, pb |-> V0, vb |-> V0, pe |-> V0, ve |-> V0]

Init == /\ l = 0 /\ id = "none" /\ regs = <<>> /\ seg = None /\ bad = {}
        /\ num = [calculations |-> 0, steps |-> 0, questions |-> 0, refusals |-> 0, segments |-> 0, refused |-> 0, instants |-> 0]

Rel == Dec(1, -7)
Largest(a) == FMax(FMax(FAbs(a[1]), FAbs(a[2])), FMax(FAbs(a[3]), FAbs(a[4])))
Eq(a, b, size) == Len(a) = Len(b) /\ Same(a, b, Rel, FMul(Rel, size))

New ==
    /\ IsEvent("new")
    /\ id' = Ev.id
    /\ regs' = <<[kind |-> Ev.kind, v |-> Ev.v]>>
    /\ bad' = bad \cup (IF "C31" \notin Sel \/ (Ev.err = "" /\ Ev.out = Ev.v) THEN {} ELSE {<<"C31.create" \o Ev.err, Ev.id, 0>>})
    /\ num' = [num EXCEPT !.calculations = @ + 1] /\ UNCHANGED seg

Result(a) == CASE Ev.op = "add" -> VAdd(a, Ev.b) [] Ev.op = "sub" -> VSub(a, Ev.b)
               [] Ev.op = "mul" -> VMul(a, Ev.c) [] Ev.op = "div" -> VDiv(a, Ev.c)
Op ==
    /\ IsEvent("op")
    /\ \E r \in {regs[Ev.i]} : \E w \in {Result(r.v)} :
        /\ bad' = bad \cup Clause("C31", Ev.op \o Ev.err, Ev.err = "" /\ Ev.kind = r.kind
                                     /\ Eq(Ev.out, w, FMax(Largest(r.v), IF Ev.op \in {"add", "sub"} THEN Largest(Ev.b) ELSE Zero)))
        /\ regs' = Append(regs, [kind |-> r.kind, v |-> IF Ev.err = "" THEN Ev.out ELSE w])
    /\ num' = [num EXCEPT !.steps = @ + 1] /\ UNCHANGED <<id, seg>>

\* operands that are no vector, or no number
Refuse ==
    /\ IsEvent("refuse")
    /\ bad' = bad \cup Clause("C31", "refuses " \o Ev.what, Ev.err = Ev.want)
    /\ num' = [num EXCEPT !.refusals = @ + 1] /\ UNCHANGED <<id, seg, regs>>

Like(a, b) == Same(a, b, Rel, Rel)
DirOk(d, a, n) == LET w == Dir(a, n) IN Len(d) = Len(w) /\ Same(d, w, Rel, Rel)
See ==
    /\ IsEvent("see")
    /\ \E r \in {regs[Ev.i]} : \E v \in {r.v} :
        bad' = bad \cup UNION {
            Clause("C31", Ev.err, Ev.err = ""),
            Clause("C31", "vector", Ev.err = "" => Ev.v4 = v /\ Ev.v3 = SubSeq(v, 1, 3)),
            Clause("C31", "length", Ev.err = "" => FClose(Ev.n3, Norm(v, 3), Rel, Zero) /\ FClose(Ev.n4, Norm(v, 4), Rel, Zero)),
            Clause("C31", "direction", (Ev.err = "" /\ r.kind = "velocity") => DirOk(Ev.d3, v, 3) /\ DirOk(Ev.d4, v, 4)),
            Clause("C31", "not zero", (Ev.err = "" /\ r.kind = "velocity") => Ev.nz = (v # V0)),
            Clause("C31", "extruding", (Ev.err = "" /\ r.kind = "velocity") => Ev.ex = (FSign(v[4]) > 0)),
            Clause("C31", "axis limits", (Ev.err = "" /\ r.kind = "velocity") => Eq(Ev.lim, Limited(v, Ev.limits), Zero)) }
    /\ num' = [num EXCEPT !.questions = @ + 1] /\ UNCHANGED <<id, seg, regs>>

\* equal up to rounding, or clearly different; nothing is said in between
Far(a, b) == \E k \in Axes : FLt(FAdd(Dec(1, -6), FMul(Dec(1, -4), FMax(FAbs(a[k]), FAbs(b[k])))), FAbs(FSub(a[k], b[k])))
Close(a, b) == \A k \in Axes : FClose(a[k], b[k], Dec(1, -7), Dec(1, -10))
Pair ==
    /\ IsEvent("pair")
    /\ \E r \in {regs[Ev.i]} : \E a \in {r.v} : \E b \in {Ev.b} :
        bad' = bad \cup UNION {
            Clause("C31", Ev.err, Ev.err = ""),
            Clause("C31", "equality", Ev.err = "" => IF Close(a, b) THEN Ev.eq = "True" /\ Ev.ne = "False"
                                                     ELSE Far(a, b) => Ev.eq = "False" /\ Ev.ne = "True"),
            Clause("C31", "travel", (Ev.err = "" /\ r.kind = "position" /\ Ev.sure) => Ev.travel = Travels(a, b)),
            Clause("C31", "extrusion", (Ev.err = "" /\ r.kind = "position" /\ Ev.sure) =>
                                            Ev.extr = Extrudes(a, b) /\ Ev.either = (a[4] # b[4])),
            Clause("C31", "distance", (Ev.err = "" /\ r.kind = "position") =>
                     LET d == VSub(b, a)  tol == FMul(Rel, FMax(Largest(a), Largest(b)))
                     IN  FClose(Ev.d3, Norm(d, 3), Rel, tol) /\ FClose(Ev.d4, Norm(d, 4), Rel, tol)),
            Clause("C31", "operand changed", Ev.err = "" => Ev.after = b) }
    /\ num' = [num EXCEPT !.questions = @ + 1] /\ UNCHANGED <<id, seg, regs>>

Again ==
    /\ IsEvent("again")
    /\ bad' = bad \cup Clause("C31", "values change afterwards", Ev.vs = [i \in DOMAIN regs |-> regs[i].v])
    /\ UNCHANGED <<id, seg, regs, num>>

-----------------------------------------------------------------------------
\* size of the numbers that are added up
Reach(s) == FAdd(FAdd(Largest(s.pb), Largest(s.pe)), FMul(Sec(Abs(s.te - s.tb)), FAdd(Largest(s.vb), Largest(s.ve))))
\* Ev.off is what the end position was displaced by on purpose; it agrees with what the numbers say, which have nine digits
Believable(s, off) == FLe(FAbs(FSub(Off(s), off)), FAdd(Dec(2, -6), FMul(Dec(1, -7), Reach(s))))
Spoiled(s, off) == s.te < s.tb \/ FLt(Dec(5, -6), off)
Sound(s, off) == s.tb <= s.te /\ FLt(off, Dec(1, -7))
Make ==
    /\ IsEvent("make")
    /\ Assert(Believable(Ev.s, Ev.off), "VF-HARNESS displacement")
    /\ id' = Ev.id /\ seg' = Ev.s
    /\ bad' = bad \cup UNION { IF "C32" \notin Sel \/ ok THEN {} ELSE {<<"C32." \o n, Ev.id, 0>>} :
                  <<n, ok>> \in { <<"inconsistent segment accepted", Spoiled(Ev.s, Ev.off) => Ev.err = "ValueError">>,
                                  <<"consistent segment refused " \o Ev.err, Sound(Ev.s, Ev.off) => Ev.err = "">> } }
    /\ num' = [num EXCEPT !.segments = @ + 1, !.refused = @ + (IF Ev.err = "" THEN 0 ELSE 1)]
    /\ UNCHANGED regs

SegEq(a, b) == a.tb = b.tb /\ a.te = b.te /\ a.pb = b.pb /\ a.pe = b.pe /\ a.vb = b.vb /\ a.ve = b.ve
Move ==
    /\ IsEvent("move")
    /\ seg' = Shift(seg, Ev.n)
    /\ bad' = bad \cup Clause("C32", "moving in time", Ev.err = "" /\ SegEq(Ev.s, Shift(seg, Ev.n)))
    /\ UNCHANGED <<id, regs, num>>
At ==
    /\ IsEvent("at")
    /\ bad' = bad \cup UNION {
          Clause("C32", "outside of the segment", Defined(seg, Ev.t) \/ (Ev.verr = "ValueError" /\ Ev.perr = "ValueError")),
          Clause("C32", "velocity", Defined(seg, Ev.t) => Ev.verr = "" /\ Ev.vkind = "velocity"
                     /\ (Eq(Ev.v, VelocityAt(seg, Ev.t), FMax(Largest(seg.vb), Largest(seg.ve)))
                         \/ (seg.te = seg.tb /\ Eq(Ev.v, seg.ve, Largest(seg.ve))))),
          Clause("C32", "position", Defined(seg, Ev.t) => Ev.perr = "" /\ Ev.pkind = "position" /\ Eq(Ev.p, PositionAt(seg, Ev.t), Reach(seg))) }
    /\ num' = [num EXCEPT !.instants = @ + 1] /\ UNCHANGED <<id, regs, seg>>
Facts ==
    /\ IsEvent("facts")
    /\ bad' = bad \cup UNION {
          Clause("C32", Ev.err, Ev.err = ""),
          Clause("C32", "length", Ev.err = "" => FClose(Ev.len, Norm(VSub(seg.pe, seg.pb), 3), Rel, FMul(Rel, Reach(seg)))),
          Clause("C32", "duration", Ev.err = "" => FClose(Ev.dur, Sec(seg.te - seg.tb), Rel, Zero)),
          Clause("C32", "extruding", (Ev.err = "" /\ (seg.pb[4] = seg.pe[4] \/ ~FClose(seg.pb[4], seg.pe[4], Rel, Rel))) => Ev.ex = Extrudes(seg.pb, seg.pe)),
          Clause("C32", "changed by questions", Ev.err = "" => SegEq(Ev.s, seg)) }
    /\ UNCHANGED <<id, regs, seg, num>>
\* the speed limit of a move
Over(v, lim) == FLt(FMul(lim, Dec(10001, -4)), Norm(v, 3))
Under(v, lim) == FLe(Norm(v, 3), FMul(lim, Dec(1000001, -6)))
Limit ==
    /\ IsEvent("limit")
    /\ bad' = bad \cup Clause("C32", "speed limit",
            /\ Over(seg.vb, Ev.speed) \/ Over(seg.ve, Ev.speed) => Ev.err = "ValueError"
            /\ Under(seg.vb, Ev.speed) /\ Under(seg.ve, Ev.speed) => Ev.err = "")
    /\ UNCHANGED <<id, regs, seg, num>>
\* evaluation of a segment against a target speed
Lacks(v, target) == IF target[1] = 0 THEN Zero ELSE FSub(One, FDiv(Norm(v, 3), target))
Results ==
    /\ IsEvent("results")
    /\ bad' = bad \cup UNION {
          Clause("C32", "results " \o Ev.err, Ev.err = ""),
          Clause("C32", "speeds", Ev.err = "" => Same(<<Norm(seg.vb, 3), Norm(seg.ve, 3)>>, Ev.vel, Rel, Zero)),
          Clause("C32", "relative speed error", Ev.err = "" => Same(<<Lacks(seg.vb, Ev.target), Lacks(seg.ve, Ev.target)>>, Ev.rel, Dec(1, -6), Dec(1, -6))),
          Clause("C32", "speed error", (Ev.err = "" /\ Ev.line) =>
                     \A k \in {1, 2} : FClose(Ev.total[k], SpeedError(seg, Ev.target), Dec(1, -5), FMul(Dec(1, -6), FAdd(One, Norm(VSub(seg.pe, seg.pb), 3))))),
          Clause("C32", "unknown result", Ev.unknown = "ValueError") }
    /\ UNCHANGED <<id, regs, seg, num>>
Initial ==
    /\ IsEvent("initial")
    /\ id' = Ev.id
    /\ bad' = bad \cup (IF "C32" \notin Sel \/ (Ev.err = "" /\ SegEq(Ev.s, [None EXCEPT !.pb = Ev.p, !.pe = Ev.p])) THEN {}
                        ELSE {<<"C32.initial segment " \o Ev.err, Ev.id, 0>>})
    /\ UNCHANGED <<regs, seg, num>>

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, regs, seg, num>>
Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, regs, seg, bad, num>>
Next == New \/ Op \/ Refuse \/ See \/ Pair \/ Again \/ Make \/ Move \/ At \/ Facts \/ Limit \/ Results \/ Initial \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
