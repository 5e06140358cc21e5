------------------------------- MODULE MC_Laws -------------------------------
(***************************************************************************)
(* The laws of module Laws for every chain of up to N blocks: cutting at a  *)
(* rest, raising limits (every pair of chains, one stronger than the other) *)
(* and dividing a block.                                                    *)
(***************************************************************************)
EXTENDS Laws, FiniteSets, TLC

CONSTANTS N, Targets, Limits, Gains, Raising

Moves == [rest : {FALSE}, T : Targets, lim : Limits, g : Gains]
Block == TLCEval(Moves \cup {RestBlock})
Pairs == TLCEval(IF Raising THEN {p \in Block \X Block : Stronger(p[1], p[2])} ELSE {<<b, b>> : b \in Block})

VARIABLES c, d
vars == <<c, d>>

Init == c = <<>> /\ d = <<>>
Next == Len(c) < N /\ \E p \in Pairs : c' = Append(c, p[1]) /\ d' = Append(d, p[2])
Spec == Init /\ [][Next]_vars

Cut == \A k \in 1..(Len(c) - 1) : c[k].rest => CutLaw(c, k)
Raise == RaiseLaw(c, d)
Split == \A k \in DOMAIN c : ~c[k].rest => \A part \in 0..c[k].g : \A v \in Limits : SplitLaw(c, k, part, v)
=============================================================================
