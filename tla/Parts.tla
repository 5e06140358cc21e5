-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* Taking up a program in the middle: the machine reached by its first       *)
(* lines is restored by a printer setup and a few lines that do not move     *)
(* (Preamble), from where the remaining lines have to mean the same.         *)
(***************************************************************************)
EXTENDS Gcode

PlainCmd(letter, n, args) == [l |-> letter, n |-> n, d |-> 0, args |-> args]
Only(c) == [cmds |-> <<c>>, hascom |-> FALSE, com |-> <<>>]

\* the lines restoring coordinates and modes of machine m, to be run on a machine started at m.pos
Preamble(m) ==
    <<Only(PlainCmd(LetG, 92, [k \in AxisNo |-> [l |-> AxisLetter[k], v |-> m.pos[k] - m.org[k], d |-> 6]]))>>
    \o (IF m.abs THEN <<>> ELSE <<Only(PlainCmd(LetG, 91, <<>>))>>)
    \o (IF m.eabs THEN <<>> ELSE <<Only(PlainCmd(LetM, 83, <<>>))>>)
    \o (IF m.inch THEN <<Only(PlainCmd(LetG, 20, <<>>))>> ELSE <<>>)
RECURSIVE ExecAll(_, _)
ExecAll(m, lines) == IF lines = <<>> THEN m ELSE ExecAll(Exec(m, Head(lines)), Tail(lines))

Started(m) == InitMachine(m.pos, m.F, m.acc, m.jerk, m.vmax)
Restored(m) == ExecAll(Started(m), Preamble(m))

Close9(a, b) == FClose(a, b, Dec(5, -8), Dec(1, -9))
SameSettings(m, n) == /\ Close9(m.F, n.F) /\ Close9(m.acc, n.acc) /\ Close9(m.jerk, n.jerk)
                      /\ \A k \in AxisNo : Close9(m.vmax[k], n.vmax[k])
SameModes(m, n) == m.abs = n.abs /\ m.eabs = n.eabs /\ m.inch = n.inch
SameMachine(m, n) == m.pos = n.pos /\ m.org = n.org /\ SameModes(m, n) /\ SameSettings(m, n)
StrongerMachine(m, n) == /\ m.pos = n.pos /\ m.org = n.org /\ SameModes(m, n)
                         /\ FLe(m.F, FAdd(n.F, Dec(1, -6))) /\ FLe(m.acc, FAdd(n.acc, Dec(1, -6)))
                         /\ FLe(m.jerk, FAdd(n.jerk, Dec(1, -6)))

\* the nozzle stands still after a line that leads from m to n
Standstill(fw, line, m, n) ==
    \/ fw = "none" \/ Dwells(line)
    \/ m.pos # n.pos /\ \A k \in 1..3 : m.pos[k] = n.pos[k]
=============================================================================
