----------------------------- MODULE Variations -----------------------------
(***************************************************************************)
(* Trace specification: a program and a variation of it, both simulated by  *)
(* the real code.                                                           *)
(*   begin   configurations, kind of the variation:                         *)
(*             cut    the program is cut after a line that ends in rest      *)
(*                    (C35); its first part and the rest of it, continued on *)
(*                    a restored machine, are the parts                      *)
(*             raise  accelerations, jerks or feedrates are higher (C36)     *)
(*             split  moves are programmed in two collinear pieces (C37)     *)
(*   first   a line of the first part                                        *)
(*   restore the configuration of the second part                            *)
(*   pre     a line restoring the machine, only in the second part           *)
(*   both    a line of the program and its counterpart                       *)
(*   split   a line of the program and the two lines instead of it           *)
(*   motion  blocks of the simulations (c is the first part)                 *)
(*   crash   one of the simulations raised an exception                      *)
(* The texts are executed here, and a pair has to be what it claims to be    *)
(* (Assert), otherwise it says nothing.                                      *)
(***************************************************************************)
EXTENDS Parts, TLC, Json, IOUtils

CONSTANT Sel
Log == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES l, cfg, m, mt,
          rest,     \* the nozzle stands still after the last line (cut); at a point of division (split)
          orig,     \* number of the line of the program for every line of the variation, 0 if there is none
          no, bad, num
vars == <<l, cfg, m, mt, rest, orig, no, bad, num>>
Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Prop == CASE cfg.kind = "cut" -> "C35." [] cfg.kind = "raise" -> "C36." [] cfg.kind = "split" -> "C37." [] OTHER -> "none."
Clause(name, ok, w) == IF ok THEN {} ELSE {<<Prop \o name, cfg.id, w>>}
Honest(ok, what) == Assert(ok, <<"VF-HARNESS", cfg.id, what, no, m, mt>>)

Init == /\ l = 0 /\ cfg = [id |-> "none", kind |-> "none"] /\ m = <<>> /\ mt = <<>> /\ rest = FALSE /\ orig = <<>> /\ no = 0
        /\ bad = {} /\ num = [pairs |-> 0, lines |-> 0, blocks |-> 0, segments |-> 0]

Machine(c) == InitMachine(c.init, FMul(c.set.F, Dec(60, 0)), c.set.acc, c.set.jerk, c.set.vmax)

Begin ==
    /\ IsEvent("begin")
    /\ cfg' = Ev /\ m' = Machine(Ev.a) /\ mt' = Machine(Ev.b)
    /\ rest' = FALSE /\ orig' = <<>> /\ no' = 0
    /\ Assert(Ev.kind = "cut" \/ (Ev.kind = "raise" /\ StrongerMachine(m', mt')) \/ (Ev.kind = "split" /\ SameMachine(m', mt')),
              <<"VF-HARNESS", Ev.id>>)
    /\ bad' = bad
    /\ num' = [num EXCEPT !.pairs = @ + 1]

First ==
    /\ IsEvent("first")
    /\ \E line \in {Lex(Ev.t)} : \E n \in {Exec(m, line)} :
         /\ m' = n /\ rest' = Standstill(cfg.a.fw, line, m, n)
    /\ no' = no + 1
    /\ num' = [num EXCEPT !.lines = @ + 1]
    /\ UNCHANGED <<cfg, mt, orig, bad>>
Restore ==
    /\ IsEvent("restore")
    /\ Honest(cfg.kind = "cut" /\ rest, "no rest")
    /\ mt' = Machine(Ev)
    /\ UNCHANGED <<cfg, m, rest, orig, no, bad, num>>
Pre ==
    /\ IsEvent("pre")
    /\ mt' = Exec(mt, Lex(Ev.u))
    /\ orig' = Append(orig, 0)
    /\ UNCHANGED <<cfg, m, rest, no, bad, num>>
Restored2 ==
    /\ IsEvent("restored")
    /\ Honest(SameMachine(m, mt), "not restored")
    /\ UNCHANGED <<cfg, m, mt, rest, orig, no, bad, num>>

Both ==
    /\ IsEvent("both")
    /\ \E a \in {Lex(Ev.t)} : \E b \in {Lex(Ev.u)} :
         /\ m' = Exec(m, a) /\ mt' = Exec(mt, b)
         /\ Honest(/\ IF cfg.kind = "raise" THEN StrongerMachine(m', mt') ELSE SameMachine(m', mt')
                   /\ Dwells(a) = Dwells(b) /\ (Dwells(a) => DwellTime(a) = DwellTime(b)), Ev)
    /\ no' = no + 1
    /\ orig' = Append(orig, no + 1)
    /\ num' = [num EXCEPT !.lines = @ + 1]
    /\ UNCHANGED <<cfg, rest, bad>>

\* after the first of the lines the machine is n / d of the way
Split ==
    /\ IsEvent("split")
    /\ \E x \in {Exec(m, Lex(Ev.t))} : \E y \in {Exec(mt, Lex(Ev.u1))} : \E z \in {Exec(y, Lex(Ev.u2))} :
         /\ m' = x /\ mt' = z
         /\ Honest(/\ cfg.kind = "split"
                   /\ SameMachine(x, z) /\ SameSettings(x, y) /\ SameModes(x, y) /\ x.org = m.org
                   /\ \A k \in AxisNo : y.pos[k] * Ev.d = m.pos[k] * (Ev.d - Ev.n) + x.pos[k] * Ev.n
                   /\ \E k \in 1..3 : m.pos[k] # x.pos[k], Ev)
    /\ no' = no + 1
    /\ orig' = orig \o <<no + 1, no + 1>>
    \* without any jerk every corner is a stop in marlin_jd, even a straight one
    /\ rest' = (rest \/ (cfg.a.fw = "marlin_jd" /\ FLe(mt'.jerk, Zero)))
    /\ num' = [num EXCEPT !.lines = @ + 1]
    /\ UNCHANGED <<cfg, bad>>

-----------------------------------------------------------------------------
EndTime(b) == b.s[Len(b.s)].te
EndPos(b) == b.s[Len(b.s)].pe
StartTime(b) == b.s[1].tb
\* b happens at the time a, later by the time s
Slack(a) == FAdd(Dec(1, -7), FMul(Dec(6, -8), TVal(a)))
ShiftedTime(a, b, s) == FClose(FSub(TSub(a, s), TVal(b)), Zero, Zero, Slack(a))
NotLater(a, b) == FLe(FSub(TVal(b), TVal(a)), FAdd(Dec(2, -7), FMul(Dec(2, -7), TVal(a))))

\* segments too short to see are left out
Seen(segs) == SelectSeq(segs, LAMBDA s : FLe(R6, s.dt))
NearVec(v, w) == \A k \in AxisNo : FClose(v[k], w[k], Dec(3, -6), Dec(4, -6))
NearPos(p, q) == \A k \in AxisNo : Abs(p[k] - q[k]) <= 4
SegPair(a, b, s, w) ==
    UNION { Clause("segment time", ShiftedTime(a.tb, b.tb, s) /\ ShiftedTime(a.te, b.te, s) /\ FClose(a.dt, b.dt, Dec(1, -6), Dec(2, -8)), w),
            Clause("speed profile", NearVec(a.vb, b.vb) /\ NearVec(a.ve, b.ve), w),
            Clause("geometry", NearPos(a.pb, b.pb) /\ NearPos(a.pe, b.pe), w) }
BlockPair(x, y, wy, s) ==
    LET a == Seen(x.s)  b == Seen(y.s)
    IN  UNION { Clause("line of block", x.w = wy, x.w),
                Clause("time of block", ShiftedTime(StartTime(x), StartTime(y), s) /\ ShiftedTime(EndTime(x), EndTime(y), s), x.w),
                IF Len(a) # Len(b) THEN Clause("shape of profile", FALSE, x.w)
                ELSE UNION {SegPair(a[i], b[i], s, x.w) : i \in DOMAIN a} }

OrigOf(w) == IF w \in DOMAIN orig THEN orig[w] ELSE 0

CutMotion(whole, first, second) ==
    LET k == Len(first)
    IN  IF Len(whole) # k + Len(second) THEN Clause("number of moves", FALSE, 0)
        ELSE UNION {BlockPair(whole[i], first[i], first[i].w, T0) : i \in 1..k}
             \cup UNION {BlockPair(whole[k + i], second[i], OrigOf(second[i].w), EndTime(first[k])) : i \in DOMAIN second}
RaiseMotion(a, b) ==
    IF Len(a) # Len(b) THEN Clause("number of moves", FALSE, 0)
    ELSE UNION {UNION { Clause("line of block", a[i].w = b[i].w, a[i].w),
                        Clause("end point", NearPos(EndPos(a[i]), EndPos(b[i])), a[i].w),
                        Clause("arrival", NotLater(EndTime(a[i]), EndTime(b[i])), a[i].w) } : i \in DOMAIN a}
\* the last block of the variation for line w
LastBlock(b, w) == LET s == {i \in DOMAIN b : OrigOf(b[i].w) = w} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
SplitMotion(a, b) ==
    Clause("number of moves", Len(b) = Len(a) + cfg.cut, 0)
    \cup UNION {LET i == LastBlock(b, a[j].w) IN
                IF i = 0 THEN Clause("line of block", FALSE, a[j].w)
                ELSE Clause("end point", NearPos(EndPos(b[i]), EndPos(a[j])), a[j].w)
                     \cup Clause("arrival, not earlier", NotLater(EndTime(b[i]), EndTime(a[j])), a[j].w)
                     \cup (IF cfg.a.fw \in {"marlin_jd", "marlin_jerk", "MKA"} /\ ~rest
                           THEN Clause("arrival", ShiftedTime(EndTime(a[j]), EndTime(b[i]), T0), a[j].w) ELSE {}) : j \in DOMAIN a}

RECURSIVE SegCount(_, _)
SegCount(bs, i) == IF i > Len(bs) THEN 0 ELSE Len(bs[i].s) + SegCount(bs, i + 1)

Motion ==
    /\ IsEvent("motion")
    /\ bad' = bad \cup (CASE cfg.kind = "cut" -> CutMotion(Ev.a, Ev.c, Ev.b)
                          [] cfg.kind = "raise" -> RaiseMotion(Ev.a, Ev.b)
                          [] OTHER -> SplitMotion(Ev.a, Ev.b))
    /\ num' = [num EXCEPT !.blocks = @ + Len(Ev.a), !.segments = @ + SegCount(Ev.a, 1)]
    /\ UNCHANGED <<cfg, m, mt, rest, orig, no>>

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<Prop \o Ev.err, Ev.id, 0>>}
    /\ UNCHANGED <<cfg, m, mt, rest, orig, no, num>>

Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<cfg, m, mt, rest, orig, no, bad, num>>

Next == Begin \/ First \/ Restore \/ Pre \/ Restored2 \/ Both \/ Split \/ Motion \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
