------------------------------- MODULE Gcode -------------------------------
(***************************************************************************)
(* The meaning of a program: a machine executed line by line.              *)
(*                                                                         *)
(* State m of the machine:                                                 *)
(*   pos   physical position of the axes X, Y, Z, E            (nm)        *)
(*   org   physical position of the logical zero of each axis  (nm)        *)
(*   abs   absolute (G90) or incremental (G91) coordinates on X, Y, Z      *)
(*   eabs  absolute (M82) or incremental (M83) extruder coordinates        *)
(*   inch  G20 or G21                                                      *)
(*   F, acc, jerk, vmax   feedrate (mm/min) and limits, decimal floats     *)
(*   layer number of layer cue lines so far                                *)
(***************************************************************************)
EXTENDS Lexer, Num

LetX == 88  LetY == 89  LetZ == 90  LetE == 69  LetF == 70  LetP == 80  LetS == 83
AxisLetter == <<LetX, LetY, LetZ, LetE>>

Supported == {<<LetG, n>> : n \in {0, 1, 4, 20, 21, 90, 91, 92}} \cup {<<LetM, n>> : n \in {82, 83, 203, 204, 205}}
Unsupported == {<<LetG, n>> : n \in {2, 3, 10, 11, 28, 29}}

\* a length word in nm; at most 6 decimals in mm and 5 in inches
Nm(a, inch) == IF inch THEN a.v * Pow10(5 - a.d) * 254 ELSE a.v * Pow10(6 - a.d)
Num(a) == FromInt(a.v, -a.d)
Feed60(a, inch) == IF inch THEN FMul(Num(a), Dec(254, -1)) ELSE Num(a)

(***************************************************************************)
(* Effects of the single commands                                          *)
(***************************************************************************)
SetModes(m, line) ==
    [m EXCEPT !.abs  = IF HasG(line, 90) THEN TRUE ELSE IF HasG(line, 91) THEN FALSE ELSE @,
              !.eabs = IF HasM(line, 82) THEN TRUE ELSE IF HasM(line, 83) THEN FALSE ELSE @,
              !.inch = IF HasG(line, 20) THEN TRUE ELSE IF HasG(line, 21) THEN FALSE ELSE @]

Absolute(m, k) == IF k = 4 THEN m.eabs ELSE m.abs

\* target position of one axis for a move command c
Target(m, c, k) ==
    IF ~HasArg(c, AxisLetter[k]) THEN m.pos[k]
    ELSE LET v == Nm(Arg(c, AxisLetter[k]), m.inch)
         IN  IF Absolute(m, k) THEN m.org[k] + v ELSE m.pos[k] + v

Move(m, c) ==
    [m EXCEPT !.pos = [k \in AxisNo |-> Target(m, c, k)],
              !.F = IF HasArg(c, LetF) THEN Feed60(Arg(c, LetF), m.inch) ELSE @]

SetPosition(m, c) ==
    [m EXCEPT !.org = [k \in AxisNo |-> IF HasArg(c, AxisLetter[k])
                                        THEN m.pos[k] - Nm(Arg(c, AxisLetter[k]), m.inch) ELSE @[k]]]

SetVmax(m, c) ==
    [m EXCEPT !.vmax = [k \in AxisNo |-> IF HasArg(c, AxisLetter[k]) THEN Num(Arg(c, AxisLetter[k])) ELSE @[k]]]

(***************************************************************************)
(* One line: modes first, then motion, then set-position and settings.     *)
(***************************************************************************)
Exec(m, line) ==
    LET m1 == SetModes(m, line)
        m2 == IF HasG(line, 0) THEN Move(m1, Cmd(line, LetG, 0)) ELSE m1
        m3 == IF HasG(line, 1) THEN Move(m2, Cmd(line, LetG, 1)) ELSE m2
        m4 == IF HasG(line, 92) THEN SetPosition(m3, Cmd(line, LetG, 92)) ELSE m3
        m5 == IF HasM(line, 204) /\ HasArg(Cmd(line, LetM, 204), LetP)
              THEN [m4 EXCEPT !.acc = Num(Arg(Cmd(line, LetM, 204), LetP))] ELSE m4
        m6 == IF HasM(line, 203) THEN SetVmax(m5, Cmd(line, LetM, 203)) ELSE m5
        m7 == IF HasM(line, 205) /\ HasArg(Cmd(line, LetM, 205), LetX)
              THEN [m6 EXCEPT !.jerk = Num(Arg(Cmd(line, LetM, 205), LetX))] ELSE m6
    IN  m7

Dwells(line) == HasG(line, 4) /\ (HasArg(Cmd(line, LetG, 4), LetP) \/ HasArg(Cmd(line, LetG, 4), LetS))
DwellTime(line) ==                                                        \* seconds
    LET c == Cmd(line, LetG, 4)
    IN  IF HasArg(c, LetS) THEN Num(Arg(c, LetS)) ELSE FMul(Num(Arg(c, LetP)), Dec(1, -3))

IsCue(line, cue) == line.hascom /\ line.com = cue

\* the commands of a line that are known but not supported
Reported(line) == {<<line.cmds[i].l, line.cmds[i].n>> : i \in {j \in DOMAIN line.cmds : line.cmds[j].d = 0}} \cap Unsupported

InitMachine(pos, F, acc, jerk, vmax) ==
    [pos |-> pos, org |-> <<0, 0, 0, 0>>, abs |-> TRUE, eabs |-> TRUE, inch |-> FALSE,
     F |-> F, acc |-> acc, jerk |-> jerk, vmax |-> vmax]
=============================================================================
