-------------------------------- MODULE Traj --------------------------------
(***************************************************************************)
(* Trace specification: everything that is read off a finished trajectory.  *)
(*                                                                         *)
(*   begin    the segments of a trajectory                                  *)
(*   value    velocity and position at a time                (C16, C17)    *)
(*   start    an initial position in some unit system        (C17)         *)
(*   extent   extent and top speed of the extruding part     (C17)         *)
(*   width    extrusion width at a time                      (C27)         *)
(*   series   ABAQUS event series                            (C21, C17)    *)
(*   box      entry and exit times of a box                  (C20)         *)
(*   mesh     tubes of the 3D mesh                           (C25)         *)
(*   curves   curves of the velocity plot                    (C26)         *)
(*   path     curve of the 2D position plot                  (C26)         *)
(*   blocks   what the blocks of the trajectory say of themselves   (C33)  *)
(*   inverse  when a block reaches a distance                (C33)         *)
(* The trajectory is a function of time; no event changes it.               *)
(***************************************************************************)
EXTENDS Box, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)

VARIABLES l, id, segs, q, bad, num
vars == <<l, id, segs, q, bad, num>>

Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(prop, name, ok) == IF prop \in Sel THEN IF ok THEN {} ELSE {<<prop \o "." \o name, id, q + 1>>} ELSE {}

N == Len(segs)
TEnd == segs[N].te

-----------------------------------------------------------------------------
(* the trajectory as a function of time *)
\* segments that contain the time t (binary search for the last that begins before it)
RECURSIVE LastBegin(_, _, _)
LastBegin(t, lo, hi) ==      \* segs[lo].tb <= t, hi = first index known to begin later
    IF hi - lo <= 1 THEN lo
    ELSE LET mid == (lo + hi) \div 2 IN IF TLe(segs[mid].tb, t) THEN LastBegin(t, mid, hi) ELSE LastBegin(t, lo, mid)
RECURSIVE Back(_, _)
Back(t, i) == IF i >= 1 /\ TLe(t, segs[i].te) THEN {i} \cup Back(t, i - 1) ELSE {}
Candidates(t) == Back(t, LastBegin(t, 1, N + 1))

Tau(s, t) == FMin(FMax(TSub(t, s.tb), Zero), s.dt)
Lambda(s, t) == IF s.dt[1] = 0 THEN Zero ELSE FMin(One, FDiv(Tau(s, t), s.dt))
VelAt(s, t, k) == FAdd(s.vb[k], FMul(Lambda(s, t), FSub(s.ve[k], s.vb[k])))
PosAt(s, t, k) == FAdd(MM(s.pb[k]), FMul(FMul(Half, FAdd(s.vb[k], VelAt(s, t, k))), Tau(s, t)))
\* the given times are rounded to 1 ns, the values follow with the slope of the segment
VelTol(s, k) == FAdd(R6, FAdd(FMul(Dec(2, -6), FAdd(FAbs(s.vb[k]), FAbs(s.ve[k]))),
                     IF s.dt[1] = 0 THEN Zero ELSE FMul(Dec(3, -9), FDiv(FAbs(FSub(s.ve[k], s.vb[k])), s.dt))))
PosTol(s, k) == FAdd(Dec(2, -6), FMul(Dec(4, -9), FAdd(FAbs(s.vb[k]), FAbs(s.ve[k]))))
VelOk(s, t, v, u, k) == FClose(v[k], FMul(u, VelAt(s, t, k)), R6, FMul(u, VelTol(s, k)))
PosOk(s, t, p, u, k) == FClose(p[k], FMul(u, PosAt(s, t, k)), R6, FMul(u, PosTol(s, k)))

Init == /\ l = 0 /\ id = "none" /\ segs = <<>> /\ q = 0 /\ bad = {}
        /\ num = [trajectories |-> 0, queries |-> 0, widths |-> 0, series |-> 0, boxes |-> 0, crossings |-> 0,
                  undecided |-> 0, meshes |-> 0, tubes |-> 0, curves |-> 0,
                  blocks |-> 0, inverses |-> 0]

Begin == /\ IsEvent("begin")
         /\ id' = Ev.id /\ segs' = Ev.segs /\ q' = 0
         /\ num' = [num EXCEPT !.trajectories = @ + 1]
         /\ UNCHANGED bad

-----------------------------------------------------------------------------
Value ==
    /\ IsEvent("value")
    /\ LET u == Scale(Ev.unit)
           c == Candidates(Ev.t)
           right(s) == \A k \in AxisNo : VelOk(s, Ev.t, Ev.v, u, k) /\ PosOk(s, Ev.t, Ev.p, u, k)
           ok == Ev.err = "" /\ \E i \in c : right(segs[i])
       IN  bad' = bad \cup Clause("C16", IF Ev.err # "" THEN Ev.err ELSE "value", ok)
                      \cup Clause("C17", "value", ok)
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.queries = @ + 1]
    /\ UNCHANGED <<id, segs>>

\* the initial position as given (in the unit system Ev.unit) and where the trajectory starts
Start ==
    /\ IsEvent("start")
    /\ bad' = bad \cup Clause("C17", "initial position", \A k \in AxisNo : FClose(FMul(Scale(Ev.unit), MM(segs[1].pb[k])), Ev.p[k], R6, FMul(Scale(Ev.unit), Dec(2, -6))))
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.queries = @ + 1]
    /\ UNCHANGED <<id, segs>>

\* extent and maximum speed of the extruding moves
Extruding == {i \in 1..N : segs[i].de[1] > 0}
Ends(k) == {segs[i].pb[k] : i \in Extruding} \cup {segs[i].pe[k] : i \in Extruding}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Top(_)
Top(i) == IF i > N THEN Zero
          ELSE FMax(IF i \in Extruding THEN FMax(FNorm3(segs[i].vb), FNorm3(segs[i].ve)) ELSE Zero, Top(i + 1))
Extent ==
    /\ IsEvent("extent")
    /\ LET u == Scale(Ev.unit)
           same(x, y, tol) == FClose(x, FMul(u, y), R6, FMul(u, tol))
       IN  bad' = bad \cup Clause("C17", IF Ev.err # "" THEN Ev.err ELSE "extent in units",
                         Ev.err = "" /\ (Ev.lo # <<>> => \A k \in 1..3 : same(Ev.lo[k], MM(Least(Ends(k))), Dec(3, -6))
                                                                  /\ same(Ev.hi[k], MM(Largest(Ends(k))), Dec(3, -6))))
                      \cup Clause("C17", "maximum speed in units", Ev.vmax # <<>> => same(Ev.vmax[1], Top(1), Dec(1, -5)))
                      \cup Clause("C17", "times in units", Ev.tend # <<>> => TSame(Ev.tend[1], TEnd))
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.queries = @ + 1]
    /\ UNCHANGED <<id, segs>>

\* width * height * nozzle speed = cross section * filament speed
Pi == Dec(314159265, -8)
Faster(s) == IF FLe(FDot3(s.ve, s.ve), FDot3(s.vb, s.vb)) THEN s.vb ELSE s.ve
Still(s, t) == \A k \in 1..3 : FLe(FAbs(VelAt(s, t, k)), VelTol(s, k))
WidthOk(s, t, h, d, w) ==
    LET v == Faster(s)
        sp == FNorm3(v)
    IN  IF FLe(sp, R7) THEN w[1] = 0
        ELSE \/ FClose(FMul(FMul(w, h), sp), FMul(FMul(Dec(25, -2), FMul(Pi, FSq(d))), v[4]), Dec(1, -5), Dec(1, -7))
             \/ Still(s, t) /\ w[1] = 0
Width ==
    /\ IsEvent("width")
    /\ bad' = bad \cup Clause("C27", IF Ev.err # "" THEN Ev.err ELSE "width",
                              Ev.err = "" /\ \E i \in Candidates(Ev.t) : WidthOk(segs[i], Ev.t, Ev.h, Ev.d, Ev.w))
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.widths = @ + 1]
    /\ UNCHANGED <<id, segs>>

-----------------------------------------------------------------------------
SeriesOk(rows, u, tol, postol) ==
    /\ Len(rows) = N + 1
    /\ rows[1].t = T0
    /\ \A i \in 1..N : TSame(rows[i+1].t, segs[i].te)
SeriesPos(rows, u, postol) ==
    /\ Len(rows) = N + 1
    /\ \A k \in 1..3 : FClose(rows[1].p[k], FMul(u, MM(segs[1].pb[k])), R6, postol)
    /\ \A i \in 1..N : \A k \in 1..3 : FClose(rows[i+1].p[k], FMul(u, MM(segs[i].pe[k])), R6, postol)
SeriesFlag(rows, tol) ==
    /\ Len(rows) = N + 1
    /\ rows[N+1].flag = 0
    /\ \A i \in 1..N : rows[i].flag = (IF FLt(tol, segs[i].de) THEN 1 ELSE 0)
Series ==
    /\ IsEvent("series")
    /\ LET u == Scale(Ev.unit)
       IN  bad' = bad \cup Clause("C21", "times", SeriesOk(Ev.rows, u, Ev.tol, Zero))
                      \cup Clause("C21", "positions", SeriesPos(Ev.rows, u, FMul(u, Dec(2, -6))))
                      \cup Clause("C21", "extrusion flags", SeriesFlag(Ev.rows, Ev.tol))
                      \cup Clause("C21", "file", SeriesOk(Ev.file, u, Ev.tol, Zero) /\ SeriesFlag(Ev.file, Ev.tol)
                                                 /\ SeriesPos(Ev.file, u, FAdd(Dec(2, -8), FMul(u, Dec(2, -6)))))
                      \cup Clause("C17", "series", /\ SeriesOk(Ev.rows, u, Ev.tol, Zero) /\ SeriesFlag(Ev.rows, Ev.tol)
                                                   /\ SeriesPos(Ev.rows, u, FMul(u, Dec(2, -6))))
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.series = @ + 1]
    /\ UNCHANGED <<id, segs>>

-----------------------------------------------------------------------------
(* crossings of an axis aligned box: per segment the interval inside the closed box *)
SegLen(s) == FNorm3(Disp(s.pb, s.pe))
Nil == Dec(1, -5)             \* mm; no length
Graze == Dec(1, -4)           \* mm; stays between Nil and Graze that do not end at a vertex are not decided
\* runs: sequence of [i, x, j, y] : inside from the point x of segment i to the point y of segment j
\* open: the last run reaches the end of the previous segment; odd: something is not decided
RECURSIVE Runs(_, _, _, _)
Runs(i, lo, hi, acc) ==
    IF i > N THEN acc
    ELSE LET s == segs[i]
             D == TLCEval(SegLen(s))
             r == TLCEval(Inside(s, lo, hi))
             L == TLCEval(FMul(D, FSub(r[2], r[1])))
             b == PointIn(s.pb, lo, hi)
             e == PointIn(s.pe, lo, hi)
             some == FLt(Nil, L)
             run == [i |-> i, x |-> IF b THEN Zero ELSE r[1], j |-> i, y |-> IF e THEN One ELSE r[2]]
             slide == (b \/ e \/ some) /\ Slides(s, lo, hi)
             odd == slide \/ IF b \/ e THEN some /\ FLt(L, Graze) /\ ~(b /\ e) ELSE FLe(FNeg(Graze), L) /\ FLe(L, Graze)
         IN  IF s.pb = [s.pb EXCEPT ![1] = s.pe[1], ![2] = s.pe[2], ![3] = s.pe[3]]
             THEN Runs(i + 1, lo, hi, acc)                                      \* no nozzle motion
             ELSE IF Beside(s, lo, hi) THEN Runs(i + 1, lo, hi, TLCEval([acc EXCEPT !.open = FALSE]))
             ELSE IF b /\ acc.open
             THEN Runs(i + 1, lo, hi, TLCEval([acc EXCEPT
                      !.runs[Len(acc.runs)] = IF some \/ e THEN [@ EXCEPT !.j = i, !.y = run.y] ELSE @,
                      !.open = e, !.odd = @ \/ odd]))
             ELSE IF some
             THEN Runs(i + 1, lo, hi, TLCEval([runs |-> Append(acc.runs, run), open |-> e, odd |-> acc.odd \/ odd]))
             ELSE Runs(i + 1, lo, hi, TLCEval([acc EXCEPT !.open = FALSE, !.odd = @ \/ odd]))

PointOf(i, x, k) == FAdd(MM(segs[i].pb[k]), FMul(x, MM(segs[i].pe[k] - segs[i].pb[k])))
\* a point where a plane is crossed is as uncertain as the rounding of the vertices to 1 nm and the angle make it
Crosses(s, k, lo, hi) == \E c \in {lo[k], hi[k]} : (s.pb[k] <= c /\ c <= s.pe[k]) \/ (s.pe[k] <= c /\ c <= s.pb[k])
RECURSIVE Steep(_, _, _, _)
Steep(s, k, lo, hi) ==
    IF k > 3 THEN Zero
    ELSE LET rest == Steep(s, k + 1, lo, hi)
         IN  IF s.pb[k] = s.pe[k] \/ ~Crosses(s, k, lo, hi) THEN rest
             ELSE FMax(rest, FDiv(SegLen(s), MM(Abs(s.pe[k] - s.pb[k]))))
AtPoint(t, i, x, lo, hi) ==
    LET tol == FAdd(Dec(2, -5), FMul(Dec(2, -6), Steep(segs[i], 1, lo, hi)))
    IN  \E c \in Candidates(t) : \A k \in 1..3 :
           FClose(PosAt(segs[c], t, k), PointOf(i, x, k), R6, FAdd(tol, PosTol(segs[c], k)))
Increasing(ts) == \A i \in 1..(Len(ts) - 1) : TDiffNs(ts[i+1], ts[i]) >= -1
InTime(ts) == \A i \in DOMAIN ts : TLe(T0, ts[i]) /\ TLe(ts[i], TEnd)

\* the crossings that are reported: entries (begin of runs) and exits (end of runs)
Entries(runs, first) == [n \in 1..(Len(runs) - (IF first THEN 1 ELSE 0)) |-> LET r == runs[IF first THEN n + 1 ELSE n] IN <<r.i, r.x>>]
Exits(runs, last) == [n \in 1..(Len(runs) - (IF last THEN 1 ELSE 0)) |-> <<runs[n].j, runs[n].y>>]
Matches(ts, cs, lo, hi) == Len(ts) = Len(cs) /\ \A i \in DOMAIN cs : AtPoint(ts[i], cs[i][1], cs[i][2], lo, hi)

Box ==
    /\ IsEvent("box")
    /\ \E r \in {Runs(1, Ev.lo, Ev.hi, [runs |-> <<>>, open |-> FALSE, odd |-> FALSE])} :
       LET lo == Ev.lo  hi == Ev.hi
           p0 == segs[1].pb  p1 == segs[N].pe
           sure == ~r.odd /\ Ev.err = ""
           in0 == r.runs # <<>> /\ PointIn(p0, lo, hi) /\ r.runs[1].x[1] = 0
                  /\ \A i \in 1..(r.runs[1].i - 1) : PointIn(segs[i].pe, lo, hi)        \* starts inside
           in1 == r.open                                                            \* ends inside
           firsts == IF ~in0 THEN {FALSE} ELSE IF OnSurface(p0, lo, hi) THEN {TRUE, FALSE} ELSE {TRUE}
           lasts == IF ~in1 THEN {FALSE} ELSE IF OnSurface(p1, lo, hi) THEN {TRUE, FALSE} ELSE {TRUE}
       IN  /\ bad' = bad \cup UNION {
                 Clause("C20", Ev.err, Ev.err = ""),
                 Clause("C20", "entries", sure => \E f \in firsts : Matches(Ev.tin, Entries(r.runs, f), lo, hi)),
                 Clause("C20", "exits", sure => \E f \in lasts : Matches(Ev.tout, Exits(r.runs, f), lo, hi)),
                 Clause("C20", "number of crossings", (sure /\ Ev.want # <<>>) => Len(Ev.tin) = Ev.want[1] /\ Len(Ev.tout) = Ev.want[2]),
                 Clause("C20", "order", Ev.err = "" => Increasing(Ev.tin) /\ Increasing(Ev.tout) /\ InTime(Ev.tin) /\ InTime(Ev.tout)),
                 Clause("C20", "count", Ev.err = "" => Ev.n = Len(Ev.tin)),
                 Clause("C20", "process time", Ev.err = "" => TSame(Ev.total, TEnd)),
                 Clause("C20", "file", Ev.err = "" => Ev.file) }
           /\ num' = [num EXCEPT !.boxes = @ + 1, !.crossings = @ + Len(Ev.tin) + Len(Ev.tout),
                                 !.undecided = @ + (IF r.odd THEN 1 ELSE 0)]
    /\ q' = q + 1
    /\ UNCHANGED <<id, segs>>

-----------------------------------------------------------------------------
(* the 3D mesh: its pieces of tube, in order *)
Speed(v) == FNorm3(v)
MeshTol == Dec(2, -4)
NearPoint(p, x) == \A k \in 1..3 : FClose(MM(p[k]), MM(x[k]), R6, MeshTol)
SpeedNear(v, s) == FClose(v, s, Dec(1, -5), Dec(1, -4))
PieceOk(e, s) == NearPoint(e.a, s.pb) /\ NearPoint(e.b, s.pe) /\ SpeedNear(e.va, Speed(s.vb)) /\ SpeedNear(e.vb, Speed(s.ve))
Shown(s, all) == all \/ FLt(Dec(1, -9), s.de)
Tiny(s) == FLt(SegLen(s), Dec(1, -3))
\* a piece too short to have a direction may be shown or not
RECURSIVE MeshOk(_, _, _, _)
MeshOk(es, j, i, all) ==
    IF i > N THEN j > Len(es)
    ELSE IF ~Shown(segs[i], all) THEN MeshOk(es, j, i + 1, all)
    ELSE IF j <= Len(es) /\ PieceOk(es[j], segs[i]) THEN MeshOk(es, j + 1, i + 1, all)
    ELSE Tiny(segs[i]) /\ MeshOk(es, j, i + 1, all)
Mesh ==
    /\ IsEvent("mesh")
    /\ bad' = bad \cup UNION {
            Clause("C25", Ev.err, Ev.err = ""),
            Clause("C25", "tubes", Ev.err = "" => MeshOk(Ev.tubes, 1, 1, Ev.all)),
            Clause("C25", "saved file", Ev.err = "" => Ev.file),
            Clause("C25", "reuse", Ev.err = "" => Ev.reuse) }
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.meshes = @ + 1, !.tubes = @ + Len(Ev.tubes)]
    /\ UNCHANGED <<id, segs>>

-----------------------------------------------------------------------------
(* the curves of the velocity plot *)
TimesOk(ts, n) ==          \* n = 0: every end of a segment
    IF n = 0 THEN Len(ts) = N + 1 /\ ts[1] = T0 /\ \A i \in 1..N : TSame(ts[i+1], segs[i].te)
    ELSE /\ Len(ts) = n
         /\ \E d \in (IF n > 1 THEN {n, n - 1} ELSE {n}) :
              \A i \in 1..n : FClose(TVal(ts[i]), FDiv(FMul(FromInt(i - 1, 0), TVal(TEnd)), FromInt(d, 0)), R6, Dec(2, -9))
CurveOk(c, ts) ==          \* c: [axis, v, p] at the times ts
    /\ Len(c.v) = Len(ts) /\ Len(c.p) = Len(ts)
PointOk(cs, ab, t, i) ==   \* one segment explains all curves at the instant
    \E s \in {segs[k] : k \in Candidates(t)} :
        /\ \A n \in DOMAIN cs : VelOk(s, t, [k \in AxisNo |-> cs[n].v[i]], One, cs[n].axis)
                             /\ PosOk(s, t, [k \in AxisNo |-> cs[n].p[i]], One, cs[n].axis)
        /\ FClose(ab[i], FNorm3([k \in 1..3 |-> VelAt(s, t, k)]), Dec(1, -5), FAdd(Dec(1, -5), FAdd(VelTol(s, 1), FAdd(VelTol(s, 2), VelTol(s, 3)))))
\* the vertical lines are at the ends of the blocks and of the segments, as asked for
LinesOk(e) ==
    \E want \in {(IF e.blocks THEN {segs[e.ends[n]].te : n \in DOMAIN e.ends} ELSE {}) \cup (IF e.segments THEN {segs[n].te : n \in 1..N} ELSE {})} :
        /\ \A x \in want : \E n \in DOMAIN e.lines : TSame(e.lines[n], x)
        /\ \A n \in DOMAIN e.lines : \E x \in want : TSame(e.lines[n], x)
\* every end of a block has a mark at the speed allowed there, or there is none at all
CornersOk(e) ==
    IF ~e.corners THEN e.marks = <<>>
    ELSE /\ \A n \in DOMAIN e.ends : \E m \in DOMAIN e.marks :
                /\ TSame(e.marks[m].t, segs[e.ends[n]].te)
                /\ FLeTol(Speed(segs[e.ends[n]].ve), e.marks[m].v, Dec(1, -5), Dec(1, -5))
         /\ \A m \in DOMAIN e.marks : \E n \in DOMAIN e.ends : TSame(e.marks[m].t, segs[e.ends[n]].te)
Curves ==
    /\ IsEvent("curves")
    /\ bad' = bad \cup UNION {
            Clause("C26", Ev.err, Ev.err = ""),
            Clause("C26", "times", Ev.err = "" => TimesOk(Ev.ts, Ev.steps)),
            Clause("C26", "axes", Ev.err = "" => [n \in DOMAIN Ev.c |-> Ev.c[n].axis] = Ev.axes
                                                 /\ \A n \in DOMAIN Ev.c : CurveOk(Ev.c[n], Ev.ts)),
            Clause("C26", "velocity plot", (Ev.err = "" /\ (\A n \in DOMAIN Ev.c : CurveOk(Ev.c[n], Ev.ts)) /\ Len(Ev.abs) = Len(Ev.ts))
                                    => \A i \in DOMAIN Ev.ts : PointOk(Ev.c, Ev.abs, Ev.ts[i], i)),
            Clause("C26", "vertical lines", Ev.err = "" => LinesOk(Ev)),
            Clause("C26", "corner marks", Ev.err = "" => CornersOk(Ev)),
            Clause("C26", "speed curve", Ev.err = "" => Len(Ev.abs) = Len(Ev.ts)) }
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.curves = @ + 1]
    /\ UNCHANGED <<id, segs>>

(* the polyline of the 2D plot against the XY projection of the path *)
Near2(p, x) == \A k \in 1..2 : Abs(p[k] - x[k]) <= 20
Flat(s) == s.pb[1] = s.pe[1] /\ s.pb[2] = s.pe[2]
Between(p, s) ==
    LET d == [k \in 1..2 |-> MM(s.pe[k] - s.pb[k])]
        x == [k \in 1..2 |-> MM(p[k] - s.pb[k])]
        lam == FDiv(FAdd(FMul(x[1], d[1]), FMul(x[2], d[2])), FAdd(FSq(d[1]), FSq(d[2])))
    IN  /\ FLeTol(Zero, lam, Zero, Dec(1, -5)) /\ FLeTol(lam, One, Zero, Dec(1, -5))
        /\ \A k \in 1..2 : FClose(x[k], FMul(lam, d[k]), R6, Dec(3, -5))
RECURSIVE PathOk(_, _, _)
\* the points j.. of ps follow the path from the segment i on (its begin is reached)
PathOk(ps, j, i) ==
    IF i > N THEN \A n \in j..Len(ps) : Near2(ps[n], segs[N].pe)
    ELSE IF Flat(segs[i]) THEN PathOk(ps, j, i + 1)
    ELSE j <= Len(ps)
         /\ IF Near2(ps[j], segs[i].pe) THEN PathOk(ps, j + 1, i + 1)
            ELSE (Near2(ps[j], segs[i].pb) \/ Between(ps[j], segs[i])) /\ PathOk(ps, j + 1, i)
\* the color of a piece is the speed of the nozzle where it begins
On(p, s) == Near2(p, s.pb) \/ Near2(p, s.pe) \/ (~Flat(s) /\ Between(p, s))
SpeedRange(v, s) == \E a \in {Speed(s.vb)}, b \in {Speed(s.ve)} :
    FLeTol(FMin(a, b), v, Dec(1, -5), Dec(1, -4)) /\ FLeTol(v, FMax(a, b), Dec(1, -5), Dec(1, -4))
\* between linear over the distance and the true speed there
Clip(x) == FMax(Zero, FMin(One, x))
SpeedAlong(v, s, p) ==
    \E d \in {[k \in 1..2 |-> MM(s.pe[k] - s.pb[k])]}, x \in {[k \in 1..2 |-> MM(p[k] - s.pb[k])]} :
    \E n2 \in {FAdd(FSq(d[1]), FSq(d[2]))}, a \in {Speed(s.vb)}, b \in {Speed(s.ve)} :
        IF FLt(n2, Dec(1, -4)) THEN SpeedRange(v, s)
        ELSE \E lam \in {FDiv(FAdd(FMul(x[1], d[1]), FMul(x[2], d[2])), n2)}, w \in {FDiv(Dec(1, -4), FSqrt(n2))} :
             \E lo \in {Clip(FSub(lam, w))}, hi \in {Clip(FAdd(lam, w))} :
             LET lin(y) == FAdd(a, FMul(y, FSub(b, a)))
                 true(y) == FSqrt(FMax(Zero, FAdd(FSq(a), FMul(y, FSub(FSq(b), FSq(a))))))
             IN  /\ FLeTol(FMin(lin(lo), lin(hi)), v, Dec(1, -5), Dec(1, -4))
                 /\ FLeTol(v, FMax(true(lo), true(hi)), Dec(1, -5), Dec(1, -4))
Colors(e) == /\ Len(e.cols) >= Len(e.ps) - 1
             /\ \A n \in 1..(Len(e.ps) - 1) : \E i \in 1..N : On(e.ps[n], segs[i]) /\ SpeedAlong(e.cols[n], segs[i], e.ps[n])
Path ==
    /\ IsEvent("path")
    /\ bad' = bad \cup UNION {
            Clause("C26", Ev.err, Ev.err = ""),
            Clause("C26", "path plot", Ev.err = "" => Ev.ps # <<>> /\ Near2(Ev.ps[1], segs[1].pb) /\ PathOk(Ev.ps, 2, 1)),
            Clause("C26", "colors", (Ev.err = "" /\ Ev.colored) => Colors(Ev)),
            Clause("C26", "points of the blocks", Ev.err = "" =>
                IF Ev.points THEN \A i \in DOMAIN Ev.ends : \E n \in DOMAIN Ev.marks : Near2(Ev.marks[n], segs[Ev.ends[i]].pe) ELSE Ev.marks = <<>>),
            Clause("C26", "plotted points", Ev.err = "" => \A n \in DOMAIN Ev.marks : \E i \in 1..N : Near2(Ev.marks[n], segs[i].pe)) }
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.curves = @ + 1]
    /\ UNCHANGED <<id, segs>>

-----------------------------------------------------------------------------
(* blocks: [i, j] is the range of their segments *)
NB == Len(Ev.b)
RECURSIVE LenOf(_, _)
LenOf(i, j) == IF i > j THEN Zero ELSE FAdd(FNorm3(Disp(segs[i].pb, segs[i].pe)), LenOf(i + 1, j))
RECURSIVE TopOf(_, _, _)
TopOf(i, j, k) == IF i > j THEN Zero ELSE FMax(FMax(FAbs(segs[i].vb[k]), FAbs(segs[i].ve[k])), TopOf(i + 1, j, k))
\* extrusion of a block; sums of rounding errors are neither
RECURSIVE Fed(_, _)
Fed(i, j) == IF i > j THEN Zero ELSE FAdd(segs[i].de, Fed(i + 1, j))
NoMotion(i, j) == \A k \in i..j : segs[k].pb = segs[k].pe /\ segs[k].de = Zero
Blocks ==
    /\ IsEvent("blocks")
    /\ bad' = bad \cup UNION {
            Clause("C33", Ev.err, Ev.err = ""),
            Clause("C33", "blocks make up the path", Ev.err = "" =>
                /\ NB > 0 /\ Ev.b[1].i = 1 /\ Ev.b[NB].j = N
                /\ \A n \in 1..NB : Ev.b[n].i <= Ev.b[n].j /\ (n > 1 => Ev.b[n].i = Ev.b[n-1].j + 1)),
            Clause("C33", "neighbours", Ev.err = "" => \A n \in 1..NB : Ev.b[n].prev = n - 1 /\ Ev.b[n].next = (IF n = NB THEN 0 ELSE n + 1)),
            Clause("C33", "travel of a block", Ev.err = "" => \A n \in 1..NB :
                FClose(Ev.b[n].travel, LenOf(Ev.b[n].i, Ev.b[n].j), Dec(1, -6), Dec(1, -5))),
            Clause("C33", "extruding", Ev.err = "" => \A n \in 1..NB : \E x \in {Fed(Ev.b[n].i, Ev.b[n].j)} :
                (FLt(FAbs(x), Dec(1, -8)) /\ ~NoMotion(Ev.b[n].i, Ev.b[n].j)) \/ Ev.b[n].ex = (FSign(x) > 0)),
            Clause("C33", "speeds while extruding", Ev.err = "" => \A n \in 1..NB :
                /\ Ev.b[n].ex = (Ev.b[n].top # <<>>)
                /\ Ev.b[n].ex => \A k \in AxisNo : FClose(Ev.b[n].top[k], TopOf(Ev.b[n].i, Ev.b[n].j, k), R6, R6)) }
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.blocks = @ + NB]
    /\ UNCHANGED <<id, segs>>

Gone(i, s, t) == FNorm3([k \in 1..3 |-> FSub(PosAt(s, t, k), MM(segs[i].pb[k]))])
GoneTol(s) == FAdd(Dec(1, -5), FAdd(PosTol(s, 1), FAdd(PosTol(s, 2), PosTol(s, 3))))
Reached ==
    /\ IsEvent("inverse")
    /\ bad' = bad \cup UNION {
            Clause("C33", Ev.err, Ev.err = ""),
            Clause("C33", "beyond the end", Ev.beyond => Ev.refused),
            Clause("C33", "time within the block", (Ev.err = "" /\ ~Ev.beyond) => TLe(segs[Ev.i].tb, Ev.t) /\ TLe(Ev.t, segs[Ev.j].te)),
            Clause("C33", "time at a distance", (Ev.err = "" /\ ~Ev.beyond) =>
                \E c \in Candidates(Ev.t) : FClose(Gone(Ev.i, segs[c], Ev.t), Ev.d, R6, GoneTol(segs[c]))),
            Clause("C33", "predicted time", (Ev.err = "" /\ Ev.want # <<>>) =>
                FClose(TSub(Ev.t, segs[Ev.i].tb), Ev.want[1], Dec(1, -5), Dec(1, -5))) }
    /\ q' = q + 1
    /\ num' = [num EXCEPT !.inverses = @ + 1]
    /\ UNCHANGED <<id, segs>>

-----------------------------------------------------------------------------
Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, segs, q, num>>

Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, segs, q, bad, num>>

Next == Begin \/ Value \/ Start \/ Extent \/ Width \/ Series \/ Box \/ Mesh \/ Curves \/ Path \/ Blocks \/ Reached \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
