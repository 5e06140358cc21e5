------------------------------- MODULE MC_Sym -------------------------------
(***************************************************************************)
(* Closed model: a program and its rewriting under a symmetry run side by   *)
(* side.  Rewriting word by word yields the image of the machine after      *)
(* every line, for every sequence of lines of the alphabet up to Depth and  *)
(* every symmetry; the pairs are exported and replayed into the real code.  *)
(* Corner speeds are invariant as well (Corners): the laws only depend on   *)
(* lengths and angles, and scale like squared speeds.                       *)
(***************************************************************************)
EXTENDS Symmetry, Junction, TLC, Json, IOUtils

CONSTANTS Depth, Export

Alphabet == JsonDeserialize(IOEnv.VF_ALPHABET)
Lines == TLCEval([i \in DOMAIN Alphabet |-> Lex(Alphabet[i])])
Trs == TLCEval(JsonDeserialize(IOEnv.VF_SYMMETRIES))

VARIABLES t,        \* index of the symmetry
          m, mt,    \* the machine and the machine running the rewritten program
          sh,       \* shift of the logical coordinates of mt, per axis
          hist
vars == <<t, m, mt, sh, hist>>
tr == Trs[t]

F0 == Dec(35, 0)  A0 == Dec(1000, 0)  J0 == Dec(10, 0)  V0 == <<Dec(180, 0), Dec(170, 0), Dec(30, 0), Dec(33, 0)>>
Start == <<1000000, -2000000, 0, 500000>>
Image0 == LET x == InitMachine(Start, FMul(F0, Dec(60, 0)), A0, J0, V0)
              s == SettingsImage(tr, x)
          IN  InitMachine(PosImage(tr, Start), s.F, s.acc, s.jerk, s.vmax)

Init == /\ t \in DOMAIN Trs
        /\ m = InitMachine(Start, FMul(F0, Dec(60, 0)), A0, J0, V0)
        /\ mt = Image0 /\ sh = tr.off /\ hist = <<>>

\* the machine executing a rewritten line (values in nm)
ArgOf(args, letter) == args[CHOOSE i \in DOMAIN args : args[i].l = letter].n
Rewritten(x, c) == [i \in DOMAIN c.args |-> ArgImage(tr, x, c, c.args[i], sh)]
Named(args, letter) == \E i \in DOMAIN args : args[i].l = letter
MoveImage(y, c, args) ==
    [y EXCEPT !.pos = [k \in AxisNo |->
        IF ~Named(args, AxisLetter[k]) THEN y.pos[k]
        ELSE IF Absolute(y, k) THEN y.org[k] + ArgOf(args, AxisLetter[k]) ELSE y.pos[k] + ArgOf(args, AxisLetter[k])],
      !.F = IF HasArg(c, LetF) THEN FMul(Factor(tr), Feed60(Arg(c, LetF), y.inch)) ELSE @]
SetImage(y, args) ==
    [y EXCEPT !.org = [k \in AxisNo |-> IF Named(args, AxisLetter[k]) THEN y.pos[k] - ArgOf(args, AxisLetter[k]) ELSE @[k]]]
SettingImage(y, line) ==
    LET f == Factor(tr)
        y1 == IF HasM(line, 204) /\ HasArg(Cmd(line, LetM, 204), LetP)
              THEN [y EXCEPT !.acc = FMul(f, Num(Arg(Cmd(line, LetM, 204), LetP)))] ELSE y
        y2 == IF HasM(line, 205) /\ HasArg(Cmd(line, LetM, 205), LetX)
              THEN [y1 EXCEPT !.jerk = FMul(f, Num(Arg(Cmd(line, LetM, 205), LetX)))] ELSE y1
    IN  IF ~HasM(line, 203) THEN y2
        ELSE LET c == Cmd(line, LetM, 203)
             IN  [y2 EXCEPT !.vmax = [j \in AxisNo |-> IF HasArg(c, AxisLetter[From(tr, j)])
                                                       THEN FMul(f, Num(Arg(c, AxisLetter[From(tr, j)]))) ELSE @[j]]]

Step(i) ==
    LET line == Lines[i]
        x == SetModes(m, line)  y == SetModes(mt, line)
        y1 == IF HasG(line, 0) THEN LET c == Cmd(line, LetG, 0) IN MoveImage(y, c, Rewritten(x, c)) ELSE y
        y2 == IF HasG(line, 1) THEN LET c == Cmd(line, LetG, 1) IN MoveImage(y1, c, Rewritten(x, c)) ELSE y1
        y3 == IF HasG(line, 92) THEN LET c == Cmd(line, LetG, 92) IN SetImage(y2, Rewritten(x, c)) ELSE y2
    IN  /\ m' = TLCEval(Exec(m, line))
        /\ mt' = TLCEval(SettingImage(y3, line))
        /\ sh' = IF HasG(line, 92)
                 THEN [j \in AxisNo |-> IF HasArg(Cmd(line, LetG, 92), AxisLetter[From(tr, j)]) THEN 0 ELSE sh[j]]
                 ELSE sh
        /\ hist' = Append(hist, i)
        /\ UNCHANGED t

Next == Len(hist) < Depth /\ \E i \in DOMAIN Alphabet : Step(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Commutes == IsImage(tr, m, mt)
ModesKept == m.abs = mt.abs /\ m.eabs = mt.eabs /\ m.inch = mt.inch
ShiftMeaning ==   \* logical coordinates of the image are the image of the logical ones, shifted
    \A j \in AxisNo : LET k == From(tr, j) IN
        mt.pos[j] - mt.org[j] = tr.sgn[k] * ScaleNm(tr, m.pos[k] - m.org[k]) + sh[j]

\* corner speeds of directions on a small grid, for every law
Dirs == {<<1, 0, 0>>, <<0, 1, 0>>, <<3, 4, 0>>, <<-1, 0, 0>>, <<0, 0, 2>>, <<2, -3, 6>>}
MoveOf(d, T, a, j) == LET v == <<FromInt(d[1], 0), FromInt(d[2], 0), FromInt(d[3], 0), FromInt(1, -1)>>
                      IN  [d |-> v, D |-> FNorm3(v), T |-> T, acc |-> a, jerk |-> j]
MvImage(mv) == LET f == Factor(tr) IN [d |-> VecImage(tr, mv.d), D |-> FMul(f, mv.D), T |-> FMul(f, mv.T),
                                       acc |-> FMul(f, mv.acc), jerk |-> FMul(f, mv.jerk)]
Corners == hist = <<>> =>
    \A fw \in {"none", "marlin_jd", "klipper", "marlin_jerk", "MKA"} : \A d, e \in Dirs :
        LET a == MoveOf(d, Dec(50, 0), Dec(800, 0), Dec(7, 0))
            b == MoveOf(e, Dec(30, 0), Dec(500, 0), Dec(9, 0))
        IN  FClose(FMul(FSq(Factor(tr)), Corner2(fw, a, b)), Corner2(fw, MvImage(a), MvImage(b)), Dec(2, -6), Dec(1, -6))

Leaf == (Export /\ Len(hist) = Depth) => PrintT(<<"VF-PAIR", t, hist>>)
=============================================================================
