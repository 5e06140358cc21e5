------------------------------ MODULE MC_Lexer ------------------------------
(***************************************************************************)
(* A writer of G-code lines: it knows what it means (ghost variable said)  *)
(* and chooses a layout - zeros, signs, blanks, order, comment - freely.   *)
(* The reader (module Lexer) recovers the meaning from every layout; the   *)
(* machine (module Gcode) does not mind the order of the words.            *)
(* Finished lines are exported and replayed in the real code.              *)
(***************************************************************************)
EXTENDS Gcode, TLC, Json

CONSTANTS Export, Rich, Keep, Phase    \* export the lines whose hash is Phase modulo Keep

Str(digits) == [i \in DOMAIN digits |-> 48 + digits[i]]
\* a number: sign, digits before and after the decimal point
Numbers == { [neg |-> FALSE, i |-> <<1, 0>>, f |-> <<>>], [neg |-> FALSE, i |-> <<2>>, f |-> <<5>>],
             [neg |-> FALSE, i |-> <<0>>, f |-> <<2, 5>>], [neg |-> TRUE, i |-> <<7>>, f |-> <<0, 5>>] }
Small == [neg |-> FALSE, i |-> <<3>>, f |-> <<>>]
RECURSIVE NumOf(_, _)
NumOf(s, acc) == IF s = <<>> THEN acc ELSE NumOf(Tail(s), acc * 10 + Head(s))
ValueOf(x) == LET v == NumOf(x.i \o x.f, 0) IN IF x.neg THEN -v ELSE v

\* the layouts of a number
Layouts(x) ==
    LET sign == IF x.neg THEN {<<MINUS>>} ELSE {<<>>, <<43>>}
        int  == {Str(x.i), <<48>> \o Str(x.i)} \cup (IF x.i = <<0>> THEN {<<>>} ELSE {})
        frac == IF x.f = <<>> THEN {<<>>, <<DOT>>, <<DOT, 48, 48>>} ELSE {<<DOT>> \o Str(x.f), <<DOT>> \o Str(x.f) \o <<48>>}
    IN  {s \o i \o f : s \in sign, i \in int, f \in frac}
PlainNumber(x) == (IF x.neg THEN <<MINUS>> ELSE <<>>) \o Str(x.i) \o (IF x.f = <<>> THEN <<>> ELSE <<DOT>> \o Str(x.f))

\* the commands, with the letters they may carry
Cmds == { [l |-> LetG, i |-> <<0>>, f |-> <<>>, a |-> {LetX, LetE, LetF}], [l |-> LetG, i |-> <<1>>, f |-> <<>>, a |-> {LetX, LetE, LetF}],
          [l |-> LetG, i |-> <<9, 2>>, f |-> <<>>, a |-> {LetX, LetE}], [l |-> LetG, i |-> <<4>>, f |-> <<>>, a |-> {LetP, LetS}],
          [l |-> LetM, i |-> <<2, 0, 4>>, f |-> <<>>, a |-> {LetP, LetS}], [l |-> LetM, i |-> <<2, 0, 5>>, f |-> <<>>, a |-> {LetX, LetE}],
          [l |-> LetG, i |-> <<2, 8>>, f |-> <<>>, a |-> {LetX}], [l |-> LetG, i |-> <<1, 0>>, f |-> <<>>, a |-> {LetS}],
          [l |-> LetG, i |-> <<9, 2>>, f |-> <<1>>, a |-> {LetX}], [l |-> LetM, i |-> <<2, 0, 3>>, f |-> <<>>, a |-> {LetX, LetE}],
          [l |-> LetG, i |-> <<1, 1>>, f |-> <<>>, a |-> {}], [l |-> LetG, i |-> <<2, 0>>, f |-> <<>>, a |-> {}],
          [l |-> LetG, i |-> <<2>>, f |-> <<>>, a |-> {LetX}], [l |-> LetG, i |-> <<2, 9>>, f |-> <<>>, a |-> {}],
          [l |-> LetG, i |-> <<1, 2>>, f |-> <<>>, a |-> {LetX}], [l |-> LetG, i |-> <<9, 1>>, f |-> <<>>, a |-> {}],
          [l |-> LetM, i |-> <<8, 3>>, f |-> <<>>, a |-> {}], [l |-> LetG, i |-> <<3, 8>>, f |-> <<2>>, a |-> {LetX}] }
Positive(c, l) == l \in {LetF, LetP, LetS} \/ c.l = LetM
NumbersFor(c, l) == {x \in Numbers : Positive(c, l) => ~x.neg}

Gaps == {<<>>, <<32>>, <<9>>} \cup (IF Rich THEN {<<32, 32>>} ELSE {})
Inner == {<<>>, <<32>>} \cup (IF Rich THEN {<<9>>} ELSE {})
\* comments look like commands: ";", "; G28", ";G1 X9;G91", ";;M83 "
Comments == { <<SEMI>>, <<SEMI, 32, 71, 50, 56>>, <<SEMI, 71, 49, 32, 88, 57, SEMI, 71, 57, 49>>, <<SEMI, SEMI, 77, 56, 51, 32>> }

VARIABLES txt,   \* the text so far
          plain, \* the same line in plain layout
          said,  \* what it means: sequence of commands as Lexer delivers them
          cur,   \* the command being written, or <<>>
          left,  \* letters it may still carry
          words, \* words written
          done
vars == <<txt, plain, said, cur, left, words, done>>
Init == txt \in {<<>>, <<32>>, <<9>>} /\ plain = <<>> /\ said = <<>> /\ cur = <<>> /\ left = {} /\ words = 0 /\ done = FALSE

NumText(c) == IF c.f = <<>> THEN Str(c.i) ELSE Str(c.i) \o <<DOT>> \o Str(c.f)
Command ==
    /\ ~done /\ words = 0 /\ Len(said) < 2
    /\ \E c \in Cmds, pad \in {<<>>, <<48>>}, gap \in Gaps :
        \* two commands on a line: the first without words, each in the plain number
        /\ said # <<>> => /\ pad = <<>> /\ c.a = {}
                          /\ \A k \in DOMAIN said : said[k].l # c.l \/ said[k].n # NumOf(c.i, 0)
                          /\ cur[1].a = {}
        /\ said = <<>> => gap = <<>>
        /\ txt' = txt \o gap \o <<c.l>> \o pad \o NumText(c)
        /\ plain' = plain \o (IF plain = <<>> THEN <<>> ELSE <<32>>) \o <<c.l>> \o NumText(c)
        /\ said' = Append(said, [l |-> c.l, n |-> NumOf(c.i \o c.f, 0), d |-> Len(c.f), args |-> <<>>])
        /\ cur' = <<c>> /\ left' = c.a
    /\ UNCHANGED <<words, done>>
Word ==
    /\ ~done /\ cur # <<>> /\ words < 2
    /\ \E l \in left, gap \in Gaps :
        \E x \in (IF words = 0 THEN NumbersFor(cur[1], l) ELSE {Small}) :
            \E t \in (IF words = 0 THEN Layouts(x) ELSE {PlainNumber(x)}), in \in (IF words = 0 THEN Inner ELSE {<<>>}) :
                /\ txt' = txt \o gap \o <<l>> \o in \o t
                /\ plain' = plain \o <<32, l>> \o PlainNumber(x)
                /\ said' = [said EXCEPT ![Len(said)].args = Append(@, [l |-> l, v |-> ValueOf(x), d |-> Len(x.f)])]
                /\ left' = left \ {l}
    /\ words' = words + 1 /\ UNCHANGED <<cur, done>>
Finish ==
    /\ ~done /\ done' = TRUE
    /\ \E e \in {<<>>, <<32>>} \cup (IF words < 2 THEN Comments ELSE {}) : txt' = txt \o e
    /\ UNCHANGED <<plain, said, cur, left, words>>
Next == Command \/ Word \/ Finish
Spec == Init /\ [][Next]_vars

(***************************************************************************)
Read == Commands(Words(Code(txt)))
Understood == Read = said
SameAsPlain == Lex(txt).cmds = Lex(plain).cmds
NothingFromComments == \A c \in Comments : Commands(Words(Code(txt \o c))) = said \/ HasComment(txt)
Start == [InitMachine(<<1000000, -2000000, 0, 500000>>, Dec(2100, 0), Dec(1000, 0), Dec(10, 0),
                      <<Dec(180, 0), Dec(180, 0), Dec(30, 0), Dec(33, 0)>>) EXCEPT !.abs = FALSE, !.org = <<0, 100, 0, 7>>]
Line(cs) == [cmds |-> cs, hascom |-> FALSE, com |-> <<>>]
Swap(c) == [c EXCEPT !.args = [k \in DOMAIN c.args |-> c.args[Len(c.args) + 1 - k]]]
OrderIrrelevant ==
    LET other == [k \in DOMAIN said |-> Swap(said[Len(said) + 1 - k])]
    IN  /\ Exec(Start, Line(said)) = Exec(Start, Line(other))
        /\ Reported(Line(said)) = Reported(Line(other))
\* names that begin like another name are other commands
NeverConfused ==
    /\ HasG(Lex(txt), 1) <=> \E k \in DOMAIN said : said[k].l = LetG /\ said[k].n = 1 /\ said[k].d = 0
    /\ HasG(Lex(txt), 2) <=> \E k \in DOMAIN said : said[k].l = LetG /\ said[k].n = 2 /\ said[k].d = 0
    /\ HasG(Lex(txt), 92) <=> \E k \in DOMAIN said : said[k].l = LetG /\ said[k].n = 92 /\ said[k].d = 0

Hash == FoldLeft(LAMBDA h, x : (h * 31 + x) % 99991, 7, txt) % Keep
Leaf == (Export /\ done /\ Hash = Phase) => PrintT(<<"VF-LINE", txt>>)
=============================================================================
