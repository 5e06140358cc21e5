--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* Trace specification: recorded simulations of whole programs.            *)
(*                                                                         *)
(* The trace is a sequence of events                                       *)
(*   begin  a new program with its initial configuration                   *)
(*   line   the text of the next line, the recorded state of that line and *)
(*          the recorded blocks of motion that belong to it                *)
(*   end    end of the program with the reports about the whole program    *)
(*   crash  the simulation raised an exception (err tells which)           *)
(* The specification executes the text itself (Lexer, Gcode), plans the    *)
(* motion itself (Junction, Planner) and compares.  Every disagreement is  *)
(* recorded in `bad' under the name of the violated clause; the clauses of *)
(* the properties in Sel are evaluated.                                    *)
(***************************************************************************)
EXTENDS Gcode, Planner, Num, TLC, Json, IOUtils

CONSTANT Sel                       \* set of property ids

Log == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES
    l,          \* number of consumed events
    cfg,        \* configuration of the current program (its begin event)
    m,          \* the machine
    lay, no,    \* layer cues and lines so far
    rep,        \* reported unsupported commands: function command -> count
    plan,       \* motion so far: sequence of records, one per block
    now, at,    \* end time and end point of the motion so far
    bad,        \* violated clauses: set of <<clause, program, line>>
    num         \* statistics
vars == <<l, cfg, m, lay, no, rep, plan, now, at, bad, num>>

Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1

-----------------------------------------------------------------------------
(* clauses *)
Clause(prop, name, ok, where) ==
    IF prop \in Sel THEN IF ok THEN {} ELSE {<<prop \o "." \o name, cfg.id, where>>} ELSE {}
Union(seq) == UNION {seq[i] : i \in DOMAIN seq}

(* comparison of numbers *)
NmTol == 2                                              \* 2 nm
NearNm(a, b) == Abs(a - b) <= NmTol
NearPos(p, q) == \A k \in AxisNo : NearNm(p[k], q[k])
Same(a, b) == FClose(a, b, R7, Dec(1, -9))              \* settings, nearly exact
SpeedTol == Dec(1, -6)
SameSpeed(a, b) == FClose(a, b, Dec(1, -5), SpeedTol)
SameSpeed2(a, b) == FClose(a, b, Dec(2, -5), R7)
SameLen(a, b) == FClose(a, b, R6, Dec(2, -6))           \* mm
SameDur(a, b) == FClose(a, b, Dec(1, -5), Dec(2, -6))   \* s

Nozzle(v) == FNorm3(v)
IsZero4(v) == \A k \in AxisNo : FClose(v[k], Zero, Zero, SpeedTol)

-----------------------------------------------------------------------------
(* the recorded state of a line against the machine *)
StateClauses(mm, line, ob, w) ==
    UNION {
      Clause("C01", "position", NearPos(ob.pos, mm.pos), w),
      Clause("C02", "position", NearPos(ob.pos, mm.pos), w),
      Clause("C04", "position", NearPos(ob.pos, mm.pos), w),
      Clause("C05", "position", NearPos(ob.pos, mm.pos), w),
      Clause("C07", "position", NearPos(ob.pos, mm.pos), w),
      Clause("C03", "feedrate", Same(ob.F, mm.F), w),
      Clause("C04", "feedrate", Same(ob.F, mm.F), w),
      Clause("C05", "feedrate", Same(ob.F, mm.F), w),
      Clause("C03", "acceleration", Same(ob.acc, mm.acc), w),
      Clause("C03", "jerk", Same(ob.jerk, mm.jerk), w),
      Clause("C03", "axis maxima", \A k \in AxisNo : Same(ob.vmax[k], mm.vmax[k]), w),
      Clause("C05", "settings", /\ Same(ob.acc, mm.acc) /\ Same(ob.jerk, mm.jerk)
                                /\ \A k \in AxisNo : Same(ob.vmax[k], mm.vmax[k]), w),
      Clause("C07", "settings", /\ Same(ob.acc, mm.acc) /\ Same(ob.jerk, mm.jerk) /\ Same(ob.F, mm.F)
                                /\ \A k \in AxisNo : Same(ob.vmax[k], mm.vmax[k]), w) }

PauseOk(line, ob) == IF Dwells(line) THEN ob.pause # <<>> /\ Same(ob.pause[1], DwellTime(line)) ELSE ob.pause = <<>>

LineClauses(mm, line, ob, w) ==
    StateClauses(mm, line, ob, w)
    \cup UNION {
      Clause("C05", "pause", PauseOk(line, ob), w),
      Clause("C15", "pause", PauseOk(line, ob), w),
      Clause("C07", "pause", PauseOk(line, ob), w),
      Clause("C06", "number", ob.num = w, w),
      Clause("C06", "links", ob.prev /\ ob.next, w),
      Clause("C06", "comment", IF line.hascom THEN ob.com = <<line.com>> ELSE ob.com = <<>>, w),
      Clause("C05", "comment", IF line.hascom THEN ob.com = <<line.com>> ELSE ob.com = <<>>, w),
      Clause("C06", "layer", IF cfg.hascue THEN ob.layer = <<lay'>> ELSE ob.layer = <<>>, w) }

-----------------------------------------------------------------------------
(* recorded motion *)
SegClauses(s, i, disp, D, eonly, mv, w) ==
    LET vb == s.vb  ve == s.ve
        sb == IF eonly THEN FAbs(vb[4]) ELSE Nozzle(vb)
        se == IF eonly THEN FAbs(ve[4]) ELSE Nozzle(ve)
        dv == FSub(se, sb)
        along(v, sp) == \A k \in AxisNo : FClose(FMul(v[k], D), FMul(sp, disp[k]), Dec(4, -6), FMul(Dec(4, -6), D))
    IN  UNION {
          Clause("C10", "integral", \A k \in AxisNo :
                 SameLen(MM(s.pe[k] - s.pb[k]), FMul(FMul(Half, FAdd(vb[k], ve[k])), s.dt)), w),
          Clause("C10", "direction", along(vb, sb) /\ along(ve, se), w),
          Clause("C10", "instants", \A j \in DOMAIN s.q :
                 LET q == s.q[j]
                     lam == FDiv(q.tau, s.dt)
                     v == [k \in AxisNo |-> FAdd(vb[k], FMul(lam, FSub(ve[k], vb[k])))]
                 IN  \A k \in AxisNo :
                       /\ FClose(q.v[k], v[k], R6, FAdd(SpeedTol, FMul(R6, FAdd(FAbs(vb[k]), FAbs(ve[k])))))
                       /\ SameLen(MM(q.p[k] - s.pb[k]), FMul(FMul(Half, FAdd(vb[k], v[k])), q.tau)), w),
          Clause("C11", "feedrate", FLeTol(sb, mv.T, R6, SpeedTol) /\ FLeTol(se, mv.T, R6, SpeedTol), w),
          Clause("C11", "acceleration",
                 FClose(FAbs(dv), FMul(mv.acc, s.dt), Dec(1, -5), Dec(1, -5)) \/ FClose(dv, Zero, Zero, Dec(1, -5)), w),
          Clause("C09", "duration", TLe(s.tb, s.te) /\ FSign(s.dt) >= 0, w) }

\* consecutive segments from time t and point p on
RECURSIVE ChainClauses(_, _, _, _, _)
ChainClauses(segs, i, t, p, w) ==
    IF i > Len(segs) THEN {}
    ELSE Clause("C09", "gap", TSame(segs[i].tb, t), w)
         \cup Clause("C08", "gap", NearPos(segs[i].pb, p), w)
         \cup ChainClauses(segs, i + 1, segs[i].te, segs[i].pe, w)

\* every intermediate point lies on the straight line, in order
StraightOk(segs, A, disp, D) ==
    LET prog(p) ==     \* signed distance from A along the line
            LET x == Disp(A, p)
            IN  FDiv(FAdd(FDot3(x, disp), FMul(x[4], disp[4])), FAdd(FDot3(disp, disp), FSq(disp[4])))
    IN  \A i \in DOMAIN segs :
          LET lam == prog(segs[i].pe)  lam0 == prog(segs[i].pb)
              x == Disp(A, segs[i].pe)
          IN  /\ FLeTol(lam0, lam, Zero, R6)
              /\ FLeTol(lam, One, Zero, R6)
              /\ \A k \in AxisNo : FClose(x[k], FMul(lam, disp[k]), R6, Dec(2, -6))

RECURSIVE SumDur(_, _)
SumDur(segs, i) == IF i > Len(segs) THEN Zero ELSE FAdd(segs[i].dt, SumDur(segs, i + 1))
RECURSIVE MaxSpeed(_, _, _)
MaxSpeed(segs, i, eonly) ==
    IF i > Len(segs) THEN Zero
    ELSE LET s(v) == IF eonly THEN FAbs(v[4]) ELSE Nozzle(v)
         IN  FMax(FMax(s(segs[i].vb), s(segs[i].ve)), MaxSpeed(segs, i + 1, eonly))

MoveRec(m0, m1) ==
    LET disp == Disp(m0.pos, m1.pos)
    IN  [d |-> disp, D |-> FNorm3(disp), T |-> FDiv(m1.F, Dec(60, 0)), acc |-> m1.acc, jerk |-> m1.jerk]

Moved(m0, m1) == m0.pos # m1.pos

BlockRec(m0, m1, line, b, w) ==
    LET segs == b.s
        mv == MoveRec(m0, m1)
        moved == Moved(m0, m1)
        eonly == moved /\ ~Travels(mv)
    IN  [w |-> w, dwell |-> ~moved, eonly |-> eonly, rest |-> ~moved \/ eonly,
         len |-> IF ~moved THEN Zero ELSE IF eonly THEN FAbs(mv.d[4]) ELSE mv.D,
         mv |-> mv,
         vb |-> Nozzle(segs[1].vb), ve |-> Nozzle(segs[Len(segs)].ve),
         eb |-> segs[1].vb[4], ee |-> segs[Len(segs)].ve[4],
         peak |-> MaxSpeed(segs, 1, eonly), nozzle |-> MaxSpeed(segs, 1, FALSE), dur |-> SumDur(segs, 1),
         way |-> mv.D, lay |-> lay', a |-> m0.pos, b |-> m1.pos]

MotionClauses(m0, m1, line, blks, w) ==
    LET moved == Moved(m0, m1)
        dwell == Dwells(line)
        expect == IF moved \/ dwell THEN 1 ELSE 0
        n == Len(blks)
        count == UNION { Clause("C08", "one block per move", n = expect, w),
                         Clause("C15", "one block per dwell", ~dwell \/ n = 1, w),
                         Clause("C02", "motion", ~HasG(line, 92) \/ moved \/ dwell \/ n = 0, w),
                         Clause("C07", "motion", moved \/ dwell \/ n = 0, w) }
    IN  IF n # expect \/ n = 0 THEN count
        ELSE LET segs == blks[1].s
                 mv == MoveRec(m0, m1)
                 eonly == moved /\ ~Travels(mv)
                 D == IF eonly THEN FAbs(mv.d[4]) ELSE mv.D
             IN  count
                 \cup ChainClauses(segs, 1, now, at, w)
                 \cup Clause("C08", "end point", NearPos(segs[Len(segs)].pe, m1.pos), w)
                 \cup (IF moved
                       THEN Clause("C08", "straight", StraightOk(segs, m0.pos, mv.d, D), w)
                            \cup UNION {SegClauses(segs[i], i, mv.d, D, eonly, mv, w) : i \in DOMAIN segs}
                       ELSE UNION {
                            Clause("C15", "duration", SameDur(SumDur(segs, 1), DwellTime(line)), w),
                            Clause("C15", "hold", \A i \in DOMAIN segs : NearPos(segs[i].pb, m1.pos) /\ NearPos(segs[i].pe, m1.pos), w),
                            Clause("C15", "rest", \A i \in DOMAIN segs : IsZero4(segs[i].vb) /\ IsZero4(segs[i].ve), w),
                            Clause("C09", "duration", \A i \in DOMAIN segs : TLe(segs[i].tb, segs[i].te), w) })

-----------------------------------------------------------------------------
(* the whole motion of a program *)
RECURSIVE NextMove(_, _)
NextMove(p, i) == IF i > Len(p) THEN NoMove ELSE IF p[i].dwell THEN NextMove(p, i + 1) ELSE p[i].mv
Limits(p) == [i \in DOMAIN p |-> IF p[i].rest THEN Zero ELSE Corner2(cfg.fw, p[i].mv, NextMove(p, i + 1))]

PlanClauses(p) ==
    LET lim == TLCEval(Limits(p))
        V == TLCEval(Plan2(p, lim))
        n == Len(p)
        vb2(i) == IF i = 1 THEN Zero ELSE V[i-1]
    IN  UNION { UNION {
          Clause("C13", "corner speed", CornerBinds(p, lim, V, i) => SameSpeed2(FSq(p[i].ve), lim[i]), p[i].w),
          Clause("C13", "last move", (i = n /\ ~p[i].rest /\ FClose(V[i], lim[i], Dec(1, -8), Zero)) => SameSpeed2(FSq(p[i].ve), lim[i]), p[i].w),
          Clause("C13", "corner limit", ~p[i].rest => FLeTol(FSq(p[i].ve), lim[i], Dec(2, -5), R7), p[i].w),
          Clause("C14", "boundary", p[i].rest \/ SameSpeed2(FSq(p[i].ve), V[i]), p[i].w),
          Clause("C14", "peak", p[i].dwell \/ SameSpeed2(FSq(p[i].peak), IF p[i].eonly THEN Peak2(p[i], Zero, Zero) ELSE
                                    FMax(Peak2(p[i], vb2(i), V[i]), FMax(vb2(i), V[i]))), p[i].w),
          Clause("C14", "duration", p[i].dwell \/ SameDur(p[i].dur, IF p[i].eonly THEN Fastest(p[i], Zero, Zero)
                                                            ELSE Fastest(p[i], vb2(i), V[i])), p[i].w),
          Clause("C12", "continuity", i = n \/ SameSpeed(p[i].ve, p[i+1].vb), p[i].w),
          Clause("C12", "rest", p[i].rest => FClose(p[i].vb, Zero, Zero, SpeedTol) /\ FClose(p[i].ve, Zero, Zero, SpeedTol), p[i].w),
          Clause("C12", "extruder rest", p[i].eonly => FClose(p[i].eb, Zero, Zero, SpeedTol) /\ FClose(p[i].ee, Zero, Zero, SpeedTol), p[i].w),
          Clause("C15", "stop before", (p[i].dwell /\ i > 1) => FClose(p[i-1].ve, Zero, Zero, SpeedTol), p[i].w),
          Clause("C15", "start after", (p[i].dwell /\ i < n) => FClose(p[i+1].vb, Zero, Zero, SpeedTol), p[i].w)
        } : i \in DOMAIN p }
        \cup Clause("C12", "start", FClose(p[1].vb, Zero, Zero, SpeedTol), p[1].w)
        \cup Clause("C12", "end", cfg.fw = "marlin_jerk" \/ FClose(p[n].ve, Zero, Zero, SpeedTol), p[n].w)

-----------------------------------------------------------------------------
Init ==
    /\ l = 0 /\ bad = {} /\ cfg = [id |-> "none"] /\ m = <<>>
    /\ lay = 0 /\ no = 0 /\ rep = <<>> /\ plan = <<>> /\ now = T0 /\ at = <<0, 0, 0, 0>>
    /\ num = [programs |-> 0, lines |-> 0, blocks |-> 0, segments |-> 0, corners |-> 0, stopped |-> 0]

Begin ==
    /\ IsEvent("begin")
    /\ cfg' = Ev
    /\ m' = InitMachine(Ev.init, FMul(Ev.set.F, Dec(60, 0)), Ev.set.acc, Ev.set.jerk, Ev.set.vmax)
    /\ lay' = 0 /\ no' = 0 /\ rep' = [c \in {} |-> 0] /\ plan' = <<>> /\ now' = T0 /\ at' = Ev.init
    /\ bad' = bad
    /\ num' = [num EXCEPT !.programs = @ + 1]

Count(r, keys) == [k \in DOMAIN r \cup keys |-> (IF k \in DOMAIN r THEN r[k] ELSE 0) + (IF k \in keys THEN 1 ELSE 0)]

RECURSIVE CountSegs(_, _)
CountSegs(bs, i) == IF i > Len(bs) THEN 0 ELSE Len(bs[i].s) + CountSegs(bs, i + 1)

Line ==
    /\ IsEvent("line")
    /\ LET line == TLCEval(Lex(Ev.t))
           m1 == TLCEval(Exec(m, line))
           w == no + 1
           blks == Ev.b
           ok == Len(blks) = 1 /\ (Moved(m, m1) \/ Dwells(line))
       IN  /\ no' = w
           /\ m' = m1
           /\ lay' = IF cfg.hascue /\ IsCue(line, cfg.cue) THEN lay + 1 ELSE lay
           /\ rep' = Count(rep, Reported(line))
           /\ plan' = IF ok THEN Append(plan, TLCEval(BlockRec(m, m1, line, blks[1], w))) ELSE plan
           /\ now' = IF blks # <<>> THEN LET s == blks[Len(blks)].s IN s[Len(s)].te ELSE now
           /\ at' = IF blks # <<>> THEN LET s == blks[Len(blks)].s IN s[Len(s)].pe ELSE at
           /\ bad' = bad \cup LineClauses(m1, line, Ev.o, w) \cup MotionClauses(m, m1, line, blks, w)
           /\ num' = [num EXCEPT !.lines = @ + 1, !.blocks = @ + Len(blks), !.segments = @ + CountSegs(blks, 1)]
    /\ UNCHANGED cfg

ReportOk(r) ==
    /\ {<<r[i][1], r[i][2]>> : i \in DOMAIN r} = DOMAIN rep
    /\ \A i \in DOMAIN r : <<r[i][1], r[i][2]>> \in DOMAIN rep /\ rep[<<r[i][1], r[i][2]>>] = r[i][3]
    /\ Len(r) = Cardinality(DOMAIN rep)

InitialClauses ==     \* the state before the first line
    LET ob == Ev.o0
        m0 == InitMachine(cfg.init, FMul(cfg.set.F, Dec(60, 0)), cfg.set.acc, cfg.set.jerk, cfg.set.vmax)
    IN  StateClauses(m0, [cmds |-> <<>>, hascom |-> FALSE, com |-> <<>>], ob, 0)
        \cup Clause("C06", "initial links", ob.next, 0)

End ==
    /\ IsEvent("end")
    /\ bad' = bad \cup InitialClauses
              \cup Clause("C06", "number of states", Ev.states = no + 1, 0)
              \cup Clause("C07", "report", ReportOk(Ev.rep), 0)
              \cup Clause("C07", "printed report", ReportOk(Ev.said), 0)
              \cup Clause("C07", "printed number of commands", \A i \in DOMAIN Ev.kinds : Ev.kinds[i] = Cardinality(DOMAIN rep), 0)
              \cup Clause("C08", "stray blocks", Ev.stray = 0, 0)
              \cup Clause("C09", "total", TSame(Ev.tend, now), 0)
              \cup Clause("C09", "printed total", Ev.printed = <<>> \/ FClose(Ev.printed[1], TVal(now), R7, Dec(6, -3)), 0)
              \cup Clause("C29", "limits warning", Ev.warn = 0, 0)
              \cup (IF plan = <<>> \/ Sel \cap {"C12", "C13", "C14", "C15"} = {} THEN {} ELSE PlanClauses(plan))
    /\ num' = [num EXCEPT !.corners = @ + Cardinality({i \in 1..(Len(plan)-1) : ~plan[i].rest /\ ~plan[i+1].rest}),
                          !.stopped = @ + Cardinality({i \in 1..Len(plan) : plan[i].dwell})]
    /\ UNCHANGED <<cfg, m, lay, no, rep, plan, now, at>>

-----------------------------------------------------------------------------
(* reports about the whole program, after its end *)
RECURSIVE SumOf(_, _, _, _)     \* sum of field f over the blocks of a layer
SumOf(p, i, layer, f) ==
    IF i > Len(p) THEN Zero
    ELSE FAdd(IF p[i].lay = layer THEN p[i][f] ELSE Zero, SumOf(p, i + 1, layer, f))
TolSum == Dec(1, -5)

RowOk(r) == /\ FClose(r.dur, SumOf(plan, 1, r.layer, "dur"), TolSum, TolSum)
            /\ FClose(r.dist, SumOf(plan, 1, r.layer, "way"), TolSum, TolSum)
SpeedOk(r) == IF r.dur[1] = 0 THEN r.speed = <<>>
              ELSE r.speed # <<>> /\ FClose(FMul(r.speed[1], r.dur), r.dist, R6, Dec(1, -9))
LayersListed == {0} \cup {plan[i].lay : i \in DOMAIN plan}
RowsOk(rows) == /\ {rows[i].layer : i \in DOMAIN rows} = LayersListed
                /\ \A i, j \in DOMAIN rows : i < j => rows[i].layer < rows[j].layer
RECURSIVE SumRows(_, _, _)
SumRows(rows, i, f) == IF i > Len(rows) THEN Zero ELSE FAdd(rows[i][f], SumRows(rows, i + 1, f))
RECURSIVE PathLength(_)
PathLength(i) == IF i > Len(plan) THEN Zero ELSE FAdd(plan[i].mv.D, PathLength(i + 1))

\* rows of layer metrics: returned by the call, and read back from the file
Layers ==
    /\ IsEvent("layers")
    /\ bad' = bad \cup UNION {
            Clause("C19", "layers listed", RowsOk(Ev.rows), 0),
            Clause("C19", "layer time and distance", \A i \in DOMAIN Ev.rows : RowOk(Ev.rows[i]), 0),
            Clause("C19", "average speed", \A i \in DOMAIN Ev.rows : SpeedOk(Ev.rows[i]), 0),
            Clause("C19", "total time", FClose(SumRows(Ev.rows, 1, "dur"), TVal(now), TolSum, TolSum), 0),
            Clause("C19", "total distance", FClose(SumRows(Ev.rows, 1, "dist"), PathLength(1), TolSum, TolSum), 0),
            Clause("C19", "file", Ev.file = Ev.rows, 0) }
    /\ UNCHANGED <<cfg, m, lay, no, rep, plan, now, at, num>>

Extruding == {i \in DOMAIN plan : plan[i].mv.d[4][1] > 0 /\ ~plan[i].dwell}
Corners(k) == {plan[i].a[k] : i \in Extruding} \cup {plan[i].b[k] : i \in Extruding}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
TopSpeed == LET RECURSIVE top(_)
                top(i) == IF i > Len(plan) THEN Zero
                          ELSE FMax(IF i \in Extruding THEN plan[i].nozzle ELSE Zero, top(i + 1))
            IN  top(1)
SummaryOk(ob, u) ==      \* ob: [lo, hi, vmax] in the unit system u
    LET same(x, y) == FClose(x, FMul(Scale(u), y), R6, FMul(Scale(u), Dec(2, -6)))
    IN  UNION {
        Clause("C18", "extent", \A k \in 1..3 : same(ob.lo[k], MM(Least(Corners(k)))) /\ same(ob.hi[k], MM(Largest(Corners(k)))), 0),
        Clause("C18", "maximum speed", same(ob.vmax, TopSpeed), 0),
        Clause("C17", "extent", \A k \in 1..3 : same(ob.lo[k], MM(Least(Corners(k)))) /\ same(ob.hi[k], MM(Largest(Corners(k)))), 0),
        Clause("C17", "maximum speed", same(ob.vmax, TopSpeed), 0) }
Summary ==
    /\ IsEvent("summary")
    /\ bad' = bad \cup
         (IF Extruding = {}
          THEN Clause("C18", "nothing extruded", Ev.obs = <<>>, 0)
          ELSE IF Ev.obs = <<>> THEN Clause("C18", "no summary", FALSE, 0)
          ELSE SummaryOk(Ev.obs[1], Ev.unit) \cup Clause("C18", "duration", Ev.tend = <<>> \/ TSame(Ev.tend[1], now), 0)
               \cup Clause("C17", "duration", Ev.tend = <<>> \/ TSame(Ev.tend[1], now), 0)
               \cup Clause("C18", "file name", Ev.name, 0))
    /\ UNCHANGED <<cfg, m, lay, no, rep, plan, now, at, num>>

\* a program of the domain must simulate: a crash leaves every property without its result
Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<cfg, m, lay, no, rep, plan, now, at, num>>

Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<cfg, m, lay, no, rep, plan, now, at, bad, num>>

Next == Begin \/ Line \/ End \/ Layers \/ Summary \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
