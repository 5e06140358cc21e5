------------------------------ MODULE MC_Parts ------------------------------
(***************************************************************************)
(* Closed model: a program runs up to a cut, is restored on another machine *)
(* and continued on both.  They stay the same machine after every line, for *)
(* every history, cut and continuation over the alphabet.  The cut programs *)
(* are exported and replayed into the real code.                            *)
(***************************************************************************)
EXTENDS Parts, TLC, Json, IOUtils

CONSTANTS Before, After, Export

Alphabet == JsonDeserialize(IOEnv.VF_ALPHABET)
Lines == TLCEval([i \in DOMAIN Alphabet |-> Lex(Alphabet[i])])

VARIABLES m, n, cut, hist
vars == <<m, n, cut, hist>>

F0 == Dec(35, 0)  A0 == Dec(1000, 0)  J0 == Dec(10, 0)  V0 == <<Dec(180, 0), Dec(170, 0), Dec(30, 0), Dec(33, 0)>>
Start == <<1000000, -2000000, 0, 500000>>

Init == m = InitMachine(Start, FMul(F0, Dec(60, 0)), A0, J0, V0) /\ n = <<>> /\ cut = 0 /\ hist = <<>>

RunLine(i) == /\ m' = TLCEval(Exec(m, Lines[i]))
              /\ n' = IF cut > 0 THEN TLCEval(Exec(n, Lines[i])) ELSE n
              /\ hist' = Append(hist, i)
              /\ UNCHANGED cut
Cut == /\ cut = 0 /\ hist # <<>>
       /\ cut' = Len(hist)
       /\ n' = TLCEval(Restored(m))
       /\ UNCHANGED <<m, hist>>
Next == \/ cut = 0 /\ Len(hist) < Before /\ \E i \in DOMAIN Alphabet : RunLine(i)
        \/ cut > 0 /\ Len(hist) < cut + After /\ \E i \in DOMAIN Alphabet : RunLine(i)
        \/ Cut
Spec == Init /\ [][Next]_vars

Continues == cut > 0 => SameMachine(m, n)
Leaf == (Export /\ cut > 0 /\ Len(hist) = cut + After) => PrintT(<<"VF-CUT", cut, hist>>)
=============================================================================
