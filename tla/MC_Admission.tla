---------------------------- MODULE MC_Admission ----------------------------
(***************************************************************************)
(* All ways of asking for a simulation with at most one flaw in the keys:   *)
(* the checks one after another, as an implementation makes them, decide    *)
(* like the declarative rule.                                               *)
(***************************************************************************)
EXTENDS Config, TLC, Json

CONSTANT Export

Machines == {<<>>, <<"known">>, <<"mine">>, <<"unknown">>}
Defaults == {"known"}
UnitWords == {"default", "SI", "SImm", "inch", "mm", "si", "SIMM", "Inch", ""}
Strangers == {"p_vell", "vx", "Jerk", "layercue", "nozzle_dia", "f", "x", "acc"}
Presets == Required \ (PosKeys \cup {"printer_name"})
KeySets == {(Presets \ gone) \cup more \cup odd : gone \in {{}} \cup {{k} : k \in Presets},
                more \in SUBSET {"nozzle_diam", "filament_diam", "layer_cue"}, odd \in {{}} \cup {{k} : k \in Strangers}}
Complete(keys) == keys \cup PosKeys \cup {"printer_name"}
Setups == {<<>>} \cup {<<[sel |-> sel, keys |-> ks]>> : sel \in {<<>>, <<"mine">>, <<"known">>}, ks \in KeySets}

VARIABLES case, step, verdict
vars == <<case, step, verdict>>
Unit(u) == IF u = "default" THEN "SImm" ELSE u

Init == /\ case \in {[setup |-> a, machine |-> b, unit |-> c] : a \in Setups, b \in Machines, c \in UnitWords}
        /\ step = "unit" /\ verdict = "none"
Reject == verdict' = "rejected" /\ step' = "end"
Go(next) == step' = next /\ UNCHANGED verdict
Next ==
    /\ UNCHANGED case
    /\ \/ step = "unit" /\ IF Unit(case.unit) \in Units THEN Go("given") ELSE Reject
       \/ step = "given" /\ IF case.setup = <<>> THEN IF case.machine = <<>> THEN Reject ELSE Go("default") ELSE Go("selection")
       \/ step = "default" /\ IF case.machine[1] \in Defaults THEN Go("accept") ELSE Reject
       \/ step = "selection" /\ IF case.setup[1].sel = <<>> THEN Reject ELSE Go("match")
       \/ step = "match" /\ IF case.machine # <<>> /\ case.machine # case.setup[1].sel THEN Reject ELSE Go("unknown keys")
       \/ step = "unknown keys" /\ IF Complete(case.setup[1].keys) \subseteq Required \cup Optional THEN Go("missing keys") ELSE Reject
       \/ step = "missing keys" /\ IF Required \subseteq Complete(case.setup[1].keys) THEN Go("accept") ELSE Reject
       \/ step = "accept" /\ verdict' = "accepted" /\ step' = "end"
Spec == Init /\ [][Next]_vars

Decides == step = "end" => (verdict = "accepted") =
              Admitted([i \in DOMAIN case.setup |-> [sel |-> case.setup[i].sel, keys |-> Complete(case.setup[i].keys)]],
                       case.machine, Unit(case.unit), Defaults)
Leaf == (Export /\ step = "unit") => PrintT(<<"VF-CASE", ToJson(case)>>)
=============================================================================
