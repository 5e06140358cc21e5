--------------------------------- MODULE Sym ---------------------------------
(***************************************************************************)
(* Trace specification: a program and its image under a symmetry of the     *)
(* machine, both simulated by the real code.                               *)
(*   begin  configurations of both, and the symmetry                       *)
(*   line   text of the line in both programs                              *)
(*   motion blocks (lists of segments) of both simulations                 *)
(*   crash  one of the simulations raised an exception                     *)
(* Both texts are executed here; the second one has to be the image of the *)
(* first one after every line (Hypothesis), otherwise the pair says        *)
(* nothing.                                                                *)
(***************************************************************************)
EXTENDS Symmetry, TLC, Json, IOUtils

CONSTANT Sel
Log == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES l, cfg, m, mt, no, bad, num
vars == <<l, cfg, m, mt, no, bad, num>>
Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(name, ok, w) == IF ok THEN {} ELSE {<<"C30." \o name, cfg.id, w>>}

Init == /\ l = 0 /\ cfg = [id |-> "none"] /\ m = <<>> /\ mt = <<>> /\ no = 0 /\ bad = {}
        /\ num = [pairs |-> 0, lines |-> 0, blocks |-> 0, segments |-> 0]

Machine(c) == InitMachine(c.init, FMul(c.set.F, Dec(60, 0)), c.set.acc, c.set.jerk, c.set.vmax)

Begin ==
    /\ IsEvent("begin")
    /\ cfg' = Ev
    /\ m' = Machine(Ev.a) /\ mt' = Machine(Ev.b) /\ no' = 0
    /\ Assert(IsImage(Ev.tr, m', mt'), <<"VF-HARNESS", Ev.id, m', mt'>>)
    /\ bad' = bad
    /\ num' = [num EXCEPT !.pairs = @ + 1]

Line ==
    /\ IsEvent("line")
    /\ \E a \in {Lex(Ev.t)} : \E b \in {Lex(Ev.u)} :
         /\ m' = Exec(m, a) /\ mt' = Exec(mt, b)
         /\ no' = no + 1
         /\ Assert(/\ \A k \in AxisNo : ExactNm(cfg.tr, m'.pos[k])
                   /\ IsImage(cfg.tr, m', mt')
                   /\ Dwells(a) = Dwells(b)
                   /\ Dwells(a) => DwellTime(a) = DwellTime(b), <<"VF-HARNESS", cfg.id, no', m', mt'>>)
    /\ num' = [num EXCEPT !.lines = @ + 1]
    /\ UNCHANGED <<cfg, bad>>

TNear(a, b) == FClose(TSub(a, b), Zero, Zero, FAdd(Dec(1, -7), FMul(R6, TVal(a))))
\* segments too short to see are left out
Seen(segs) == SelectSeq(segs, LAMBDA s : FLe(R6, s.dt))
NearVec(v, w) == \A k \in AxisNo : FClose(v[k], w[k], Dec(3, -6), FMul(Factor(cfg.tr), Dec(4, -6)))
NearPos(p, q) == \A k \in AxisNo : Abs(p[k] - q[k]) <= 4 + (4 * cfg.tr.num) \div cfg.tr.den

SegPair(s, t, w) ==
    UNION { Clause("segment time", TNear(s.tb, t.tb) /\ TNear(s.te, t.te), w),
            Clause("speed profile", NearVec(VecImage(cfg.tr, s.vb), t.vb) /\ NearVec(VecImage(cfg.tr, s.ve), t.ve), w),
            Clause("geometry", NearPos(PosImage(cfg.tr, s.pb), t.pb) /\ NearPos(PosImage(cfg.tr, s.pe), t.pe), w) }
BlockPair(x, y) ==
    LET a == Seen(x.s)  b == Seen(y.s)
    IN  UNION { Clause("line of block", x.w = y.w, x.w),
                Clause("duration", TNear(x.s[1].tb, y.s[1].tb) /\ TNear(x.s[Len(x.s)].te, y.s[Len(y.s)].te), x.w),
                IF Len(a) # Len(b) THEN Clause("shape of profile", FALSE, x.w)
                ELSE UNION {SegPair(a[i], b[i], x.w) : i \in DOMAIN a} }
RECURSIVE SegCount(_, _)
SegCount(bs, i) == IF i > Len(bs) THEN 0 ELSE Len(bs[i].s) + SegCount(bs, i + 1)

Motion ==
    /\ IsEvent("motion")
    /\ bad' = bad \cup
         (IF Len(Ev.a) # Len(Ev.b) THEN Clause("number of moves", FALSE, 0)
          ELSE UNION {BlockPair(Ev.a[i], Ev.b[i]) : i \in DOMAIN Ev.a})
    /\ num' = [num EXCEPT !.blocks = @ + Len(Ev.a), !.segments = @ + SegCount(Ev.a, 1)]
    /\ UNCHANGED <<cfg, m, mt, no>>

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<"C30." \o Ev.err, Ev.id, 0>>}
    /\ UNCHANGED <<cfg, m, mt, no, num>>

Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<cfg, m, mt, no, bad, num>>

Next == Begin \/ Line \/ Motion \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
