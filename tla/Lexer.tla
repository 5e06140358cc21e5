------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The text of one G-code line (a sequence of character codes) and its     *)
(* meaning: the comment and the commands with their parameter words.       *)
(*                                                                         *)
(* A word is a letter followed by a number; blanks anywhere outside of the *)
(* comment are irrelevant; everything from the first semicolon on is the   *)
(* comment.  A word whose letter is G or M starts a new command, all other *)
(* words are parameters of the command before them.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Flt

SEMI  == 59
DOT   == 46
MINUS == 45
IsBlank(c)  == c \in {32, 9, 10, 11, 12, 13}
IsLetter(c) == c >= 65 /\ c <= 90
IsDigit(c)  == c >= 48 /\ c <= 57
LetG == 71  LetM == 77

\* index of the first semicolon, or one past the end
CutAt(txt) == IF \E i \in DOMAIN txt : txt[i] = SEMI
              THEN CHOOSE i \in DOMAIN txt : txt[i] = SEMI /\ \A j \in 1..(i-1) : txt[j] # SEMI
              ELSE Len(txt) + 1
Code(txt)       == SubSeq(txt, 1, CutAt(txt) - 1)
HasComment(txt) == CutAt(txt) <= Len(txt)
RawComment(txt) == SubSeq(txt, CutAt(txt) + 1, Len(txt))
Trim(s) ==
    LET solid == {i \in DOMAIN s : ~IsBlank(s[i])}
    IN  IF solid = {} THEN <<>>
        ELSE LET lo == CHOOSE i \in solid : \A j \in solid : i <= j
                 hi == CHOOSE i \in solid : \A j \in solid : i >= j
             IN  SubSeq(s, lo, hi)

(* A number is accumulated digit by digit as mant * 10^-dec; zeros at the  *)
(* end of the fraction are only pending, so 10.000 is <<10, 0>>.           *)
NewWord(c) == [l |-> c, neg |-> FALSE, mant |-> 0, dec |-> 0, dot |-> FALSE, pend |-> 0, num |-> FALSE]
Feed(w, c) ==
    IF c = MINUS THEN [w EXCEPT !.neg = TRUE]
    ELSE IF c = DOT THEN [w EXCEPT !.dot = TRUE]
    ELSE IF ~IsDigit(c) THEN w
    ELSE IF ~w.dot THEN [w EXCEPT !.mant = IF @ < 200000000 THEN @ * 10 + (c - 48) ELSE @, !.num = TRUE]
    ELSE IF c = 48 THEN [w EXCEPT !.pend = @ + 1, !.num = TRUE]
    ELSE IF w.pend > 8 \/ w.mant >= 200000000 \div Pow10(w.pend) THEN w          \* beyond the resolution
    ELSE [w EXCEPT !.mant = @ * Pow10(w.pend + 1) + (c - 48), !.dec = @ + w.pend + 1,
                   !.pend = 0, !.num = TRUE]

Words(code) ==
    LET step(ws, c) ==
            IF IsBlank(c) THEN ws
            ELSE IF IsLetter(c) THEN Append(ws, NewWord(c))
            ELSE IF ws = <<>> THEN ws
            ELSE [ws EXCEPT ![Len(ws)] = Feed(@, c)]
    IN  FoldLeft(step, <<>>, code)

Value(w) == IF w.neg THEN -w.mant ELSE w.mant           \* times 10^-w.dec

IsCommand(w) == w.l \in {LetG, LetM} /\ w.num
\* the parameter of a message (M117, M118) is free text up to the comment
IsMessage(c) == c.l = LetM /\ c.n \in {117, 118} /\ c.d = 0
Commands(words) ==
    LET step(cs, w) ==
            IF cs # <<>> /\ IsMessage(cs[Len(cs)]) THEN cs
            ELSE IF IsCommand(w) THEN Append(cs, [l |-> w.l, n |-> w.mant, d |-> w.dec, args |-> <<>>])
            ELSE IF cs = <<>> \/ ~w.num THEN cs
            ELSE [cs EXCEPT ![Len(cs)].args = Append(@, [l |-> w.l, v |-> Value(w), d |-> w.dec])]
    IN  FoldLeft(step, <<>>, words)

\* the line as data: what the machine executes, and the comment
Lex(txt) == [cmds |-> Commands(Words(Code(txt))),
             hascom |-> HasComment(txt),
             com |-> Trim(RawComment(txt))]

\* lookups on lexed lines
Has(line, l, n) == \E i \in DOMAIN line.cmds : line.cmds[i].l = l /\ line.cmds[i].n = n /\ line.cmds[i].d = 0
Cmd(line, l, n) == line.cmds[CHOOSE i \in DOMAIN line.cmds :
                                line.cmds[i].l = l /\ line.cmds[i].n = n /\ line.cmds[i].d = 0]
HasG(line, n) == Has(line, LetG, n)
HasM(line, n) == Has(line, LetM, n)
HasArg(c, l) == \E i \in DOMAIN c.args : c.args[i].l = l
Arg(c, l) == c.args[CHOOSE i \in DOMAIN c.args : c.args[i].l = l]
=============================================================================
