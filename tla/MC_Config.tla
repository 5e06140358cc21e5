----------------------------- MODULE MC_Config -----------------------------
(***************************************************************************)
(* Closed model of two setups of one presets file: all sequences of up to   *)
(* Depth operations.  The dictionary of each setup is compared with the     *)
(* declarative reading of its history (the last writer of every key).       *)
(***************************************************************************)
EXTENDS Config, TLC, Json

CONSTANTS Depth, Export

Books == [a |-> [p_vel |-> "1", firmware |-> "m"], b |-> [p_vel |-> "2", firmware |-> "k", layer_cue |-> "L"]]
BookOf == [p \in {"a", "b"} |-> [k \in DOMAIN Books[p] |-> Books[p][k]]]
Slots == {1, 2}
P(k, v) == [k |-> k, v |-> v]
Ops == [o : {"select"}, s : Slots, name : {"a", "b", "zz"}]
    \cup [o : {"property"}, s : Slots, d : {<<P("p_vel", "7")>>, <<P("p_vel", "8"), P("jerk", "3")>>, <<P("layer_cue", "N")>>, <<P("X", "5")>>}]
    \cup {[o |-> "position", s |-> i, form |-> f[1], n |-> f[2], unit |-> f[3]] : i \in {1},
            f \in {<<"tuple", 4, "SImm">>, <<"tuple", 3, "SImm">>, <<"dict", 4, "inch">>, <<"dict", 3, "SI">>, <<"tuple", 4, "SI">>, <<"tuple", 4, "cm">>}}
News == {<<<<>>, <<>>>>, <<<<"a">>, <<>>>>, <<<<"b">>, <<"C">>>>, <<<<"a">>, <<"C">>>>}

VARIABLES s,      \* the two setups
          hist,   \* executed operations
          first   \* how the setups were made
vars == <<s, hist, first>>

Vals(n) == [k \in 1..n |-> FromInt(k, 0)]
Keys(n) == SubSeq(AxisNames, 1, n)
Nums(n) == [k \in 1..n |-> TRUE]
Do(me, op) ==
    CASE op.o = "select" -> Select(me, op.name)
      [] op.o = "property" -> Property(me, op.d)
      [] OTHER -> Position(me, op.form, IF op.form = "dict" THEN Keys(op.n) ELSE <<>>, Nums(op.n), Vals(op.n), op.unit)

Init == /\ \E x \in News, y \in {<<<<"b">>, <<>>>>} :
             /\ s = [i \in Slots |-> IF i = 1 THEN NewSetup(BookOf, x[1], x[2]) ELSE NewSetup(BookOf, y[1], y[2])]
             /\ first = <<x, y>>
        /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : /\ s' = TLCEval([s EXCEPT ![op.s] = Do(@, op)])
                           /\ hist' = Append(hist, op)
                           /\ UNCHANGED first
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* declarative reading of the history *)
Selecting(i) == {n \in DOMAIN hist : hist[n].o = "select" /\ hist[n].s = i /\ hist[n].name \in {"a", "b"}}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
SelAt(i, n) ==       \* selected printer of setup i before operation n
    LET S == {k \in Selecting(i) : k < n} IN IF S = {} THEN first[i][1] ELSE <<hist[Max(S)].name>>
Writers(i, p, key) == {n \in DOMAIN hist : hist[n].o = "property" /\ hist[n].s = i /\ SelAt(i, n) = <<p>>
                                           /\ \E j \in DOMAIN hist[n].d : hist[n].d[j].k = key}
Written(n, key) == LET d == hist[n].d IN d[Max({j \in DOMAIN d : d[j].k = key})].v
Value(i, p, key) ==  \* "" : no such key
    IF key = "printer_name" THEN p
    ELSE IF key = "layer_cue" /\ first[i][2] # <<>> THEN first[i][2][1]
    ELSE IF Writers(i, p, key) # {} THEN Written(Max(Writers(i, p, key)), key)
    ELSE IF key \in DOMAIN BookOf[p] THEN BookOf[p][key] ELSE ""
AllKeys == {"p_vel", "firmware", "layer_cue", "jerk", "printer_name", "zz"}
LastWriteWins ==
    \A i \in Slots : /\ s[i].sel = SelAt(i, Len(hist) + 1)
                     /\ DictOk(s[i]) => \A key \in AllKeys :
                            Value(i, s[i].sel[1], key) = (IF key \in DOMAIN Dict(s[i]) THEN Dict(s[i])[key] ELSE "")
Positions == {n \in DOMAIN hist : hist[n].o = "position" /\ hist[n].n = 4 /\ hist[n].unit # "cm"}
PositionLast == s[1].pos = IF Positions = {} THEN <<Zero, Zero, Zero, Zero>>
                           ELSE [k \in 1..4 |-> FMul(Factor(hist[Max(Positions)].unit), FromInt(k, 0))]
\* an operation touches one setup, and of the book only the selected printer
Isolated == [][LET op == hist'[Len(hist')] IN
                 /\ \A i \in Slots \ {op.s} : s'[i] = s[i]
                 /\ \A p \in {"a", "b"} : s'[op.s].book[p] # s[op.s].book[p] => op.o = "property" /\ s[op.s].sel = <<p>>]_vars
Leaf == (Export /\ Len(hist) = Depth) => PrintT(<<"VF-CASE", ToJson([first |-> first, ops |-> hist])>>)
=============================================================================
