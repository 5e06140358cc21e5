------------------------------ MODULE MC_Gcode ------------------------------
(***************************************************************************)
(* Closed model of the machine: every sequence of up to Depth lines over an *)
(* alphabet of line texts (VF_ALPHABET, a JSON sequence of sequences of     *)
(* character codes) is executed.                                           *)
(*                                                                         *)
(* Next to the machine of module Gcode runs a second one, shaped like the   *)
(* implementation: per axis a logical coordinate and an offset.  The        *)
(* refinement Refines relates both.  The programs themselves are printed    *)
(* (Leaf) and replayed into the real code, whose traces are checked against *)
(* module Run.                                                             *)
(***************************************************************************)
EXTENDS Gcode, TLC, Json, IOUtils

CONSTANTS Depth, Export

Alphabet == JsonDeserialize(IOEnv.VF_ALPHABET)
Line(i) == Lex(Alphabet[i])
Lines == TLCEval([i \in DOMAIN Alphabet |-> Line(i)])

VARIABLES m,        \* the machine
          g,        \* the implementation shaped machine: log, off, abs, eabs, inch
          hist,     \* indices of the executed lines
          last      \* the last line
vars == <<m, g, hist, last>>

F0 == Dec(35, 0)  A0 == Dec(1000, 0)  J0 == Dec(10, 0)  V0 == <<Dec(180, 0), Dec(180, 0), Dec(30, 0), Dec(33, 0)>>
Start == <<1000000, -2000000, 0, 500000>>

Init == /\ m = InitMachine(Start, FMul(F0, Dec(60, 0)), A0, J0, V0)
        /\ g = [log |-> Start, off |-> <<0, 0, 0, 0>>, abs |-> TRUE, eabs |-> TRUE, inch |-> FALSE]
        /\ hist = <<>>
        /\ last = [cmds |-> <<>>, hascom |-> FALSE, com |-> <<>>]

\* one line of the implementation shaped machine
LogTarget(s, c, k) ==
    IF ~HasArg(c, AxisLetter[k]) THEN s.log[k]
    ELSE LET v == Nm(Arg(c, AxisLetter[k]), s.inch)
         IN  IF (IF k = 4 THEN s.eabs ELSE s.abs) THEN v ELSE s.log[k] + v
LogMove(s, c) == [s EXCEPT !.log = [k \in AxisNo |-> LogTarget(s, c, k)]]
LogSet(s, c) ==
    [s EXCEPT !.log = [k \in AxisNo |-> IF HasArg(c, AxisLetter[k]) THEN Nm(Arg(c, AxisLetter[k]), s.inch) ELSE @[k]],
              !.off = [k \in AxisNo |-> IF HasArg(c, AxisLetter[k])
                                        THEN s.log[k] - Nm(Arg(c, AxisLetter[k]), s.inch) + @[k] ELSE @[k]]]
LogExec(s, line) ==
    LET s1 == SetModes(s, line)
        s2 == IF HasG(line, 0) THEN LogMove(s1, Cmd(line, LetG, 0)) ELSE s1
        s3 == IF HasG(line, 1) THEN LogMove(s2, Cmd(line, LetG, 1)) ELSE s2
    IN  IF HasG(line, 92) THEN LogSet(s3, Cmd(line, LetG, 92)) ELSE s3

Step(i) ==
    /\ m' = TLCEval(Exec(m, Lines[i]))
    /\ g' = TLCEval(LogExec(g, Lines[i]))
    /\ hist' = Append(hist, i)
    /\ last' = Lines[i]

Next == Len(hist) < Depth /\ \E i \in DOMAIN Alphabet : Step(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines == /\ \A k \in AxisNo : m.pos[k] = g.log[k] + g.off[k]
           /\ \A k \in AxisNo : m.org[k] = g.off[k]
           /\ m.abs = g.abs /\ m.eabs = g.eabs /\ m.inch = g.inch

Only(line, cmds) == \A i \in DOMAIN line.cmds : <<line.cmds[i].l, line.cmds[i].n>> \in cmds /\ line.cmds[i].d = 0
Motion == {<<LetG, 0>>, <<LetG, 1>>}
HasAny(line, cmds) == \E i \in DOMAIN line.cmds : <<line.cmds[i].l, line.cmds[i].n>> \in cmds /\ line.cmds[i].d = 0

\* action properties of the design
OnlyMotionMoves == [][m'.pos # m.pos => HasAny(last', Motion)]_vars
SetPositionReads ==          \* after G92 the named axes read the assigned values, the others are untouched
    [][HasG(last', 92) => LET c == Cmd(last', LetG, 92)
                          IN \A k \in AxisNo : IF HasArg(c, AxisLetter[k])
                                               THEN m'.pos[k] - m'.org[k] = Nm(Arg(c, AxisLetter[k]), m'.inch)
                                               ELSE m'.org[k] = m.org[k]]_vars
OriginOnlyBySetPosition == [][m'.org # m.org => HasG(last', 92)]_vars
UnnamedAxesStay ==
    [][\A k \in AxisNo : m'.pos[k] # m.pos[k] =>
        \E i \in DOMAIN last'.cmds : <<last'.cmds[i].l, last'.cmds[i].n>> \in Motion /\ HasArg(last'.cmds[i], AxisLetter[k])]_vars
SettingsBySetters ==
    [][/\ m'.F # m.F => HasAny(last', Motion)
       /\ m'.acc # m.acc => HasM(last', 204)
       /\ m'.jerk # m.jerk => HasM(last', 205)
       /\ m'.vmax # m.vmax => HasM(last', 203)]_vars
ModesByModes ==
    [][/\ m'.abs # m.abs => HasAny(last', {<<LetG, 90>>, <<LetG, 91>>})
       /\ m'.eabs # m.eabs => HasAny(last', {<<LetM, 82>>, <<LetM, 83>>})
       /\ m'.inch # m.inch => HasAny(last', {<<LetG, 20>>, <<LetG, 21>>})]_vars
Inert == [][(\A i \in DOMAIN last'.cmds : <<last'.cmds[i].l, last'.cmds[i].n>> \notin Supported \/ last'.cmds[i].d # 0) => m' = m]_vars

\* export of the maximal programs
Leaf == (Export /\ Len(hist) = Depth) => PrintT(<<"VF-PROGRAM", hist>>)
=============================================================================
