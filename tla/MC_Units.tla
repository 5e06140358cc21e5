------------------------------ MODULE MC_Units ------------------------------
(***************************************************************************)
(* Unit systems: a simulation has one, every question may name another.     *)
(* The answer is the quantity in the unit asked for; asking changes nothing.*)
(* Initial positions are converted into millimetres by the inverse factor.  *)
(* All histories of questions are exported and replayed in the real code.   *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Export

Named == {"SI", "SImm", "inch"}
None == "none"
Quantities == {"value", "extent", "speed", "series"}

VARIABLES own,     \* unit system given to the simulation
          input,   \* unit system, form of the initial position
          attr,    \* what the implementation remembers
          hist, last
vars == <<own, input, attr, hist, last>>

Init == /\ own \in Named \cup {None} /\ input \in (Named \cup {None}) \X {"tuple", "dict", "mixed"}
        /\ attr = (IF own = None THEN "SImm" ELSE own) /\ hist = <<>> /\ last = <<>>
\* the implementation: the unit of the call if there is one, else the remembered one
Factor(a, u) == Scale(IF u = None THEN a ELSE u)
Ask == /\ Len(hist) < Depth
       /\ \E x \in Quantities, u \in Named \cup {None} :
            /\ hist' = Append(hist, <<x, u>>)
            /\ last' = <<u, Factor(attr, u)>>
       /\ UNCHANGED <<own, input, attr>>
Summarise == /\ Len(hist) < Depth /\ hist' = Append(hist, <<"summary", None>>) /\ last' = <<None, Factor(attr, None)>>
             /\ UNCHANGED <<own, input, attr>>
Next == Ask \/ Summarise
Spec == Init /\ [][Next]_vars

Default(u) == IF u = None THEN "SImm" ELSE u
\* declarative: the unit of the call, else the one of the simulation, else millimetres
RightUnit == last # <<>> => last[2] = (IF last[1] # None THEN Scale(last[1]) ELSE Scale(Default(own)))
Unchanged == attr = Default(own)
\* converting forth and back is the identity, and the systems are different
Into(u) == CASE u = "SI" -> Dec(1000, 0) [] u = "inch" -> Dec(254, -1) [] OTHER -> One
Inverse == \A u \in Named : FClose(FMul(Into(u), Scale(u)), One, Dec(1, -8), Zero)
Different == \A u, w \in Named : u # w => ~FClose(Scale(u), Scale(w), Dec(1, -1), Zero)
Leaf == (Export /\ Len(hist) = Depth) => PrintT(<<"VF-UNITS", ToJson([own |-> own, input |-> input, hist |-> hist])>>)
=============================================================================
