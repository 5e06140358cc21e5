------------------------------ MODULE MC_Cli ------------------------------
(* The plot command step by step in every world, against the declarative outcome. *)
EXTENDS Cli, TLC, Json

CONSTANT Export

Kinds == {"file", "missing", "folder"}
Gcodes == {<<>>} \cup {<<[kind |-> k, name |-> "given/part.v2.gcode"]>> : k \in Kinds}
Cwds == {<<>>, <<"cwd/one.gcode">>, <<"cwd/one.gcode", "cwd/t w o.gcode">>}
Presets == {<<>>} \cup {<<[kind |-> k, name |-> "p.yaml", printers |-> {"anisoprint_a4", "mine"}]>> : k \in Kinds}
                  \cup {<<[kind |-> "file", name |-> "bare.yaml", printers |-> {"mine"}]>>}
Defaults == {"anisoprint_a4", "prusa_mini"}
Printers == {<<>>, <<"mine">>, <<"prusa_mini">>, <<"nobody">>}
Cues == {<<>>, <<"LAYER">>, <<"absent">>}
OutAnswers == {<<<<>>, a>> : a \in {<<"y">>, <<"n">>, <<"", "maybe", "YES">>, <<"yess", "No", "y">>, <<"nope", "yes">>}}
              \cup {<<<<"old">>, <<>>>>, <<<<"new/deep er">>, <<>>>>}

VARIABLES w, step, files, left
vars == <<w, step, files, left>>

Stem(g) == CASE g = "given/part.v2.gcode" -> "part.v2" [] g = "cwd/one.gcode" -> "one" [] OTHER -> "t w o"
Init == /\ w \in {[gcode |-> a, cwd |-> b, presets |-> c, printer |-> d, cue |-> e, out |-> f[1], answers |-> f[2]] :
                    a \in Gcodes, b \in Cwds, c \in Presets, d \in Printers, e \in Cues, f \in OutAnswers}
        /\ step = "gcode" /\ files = {} /\ left = w.answers
Stop == step' = "stopped" /\ UNCHANGED <<files, left>>
Go(x) == step' = x /\ UNCHANGED <<files, left>>
Dir(d) == {d \o "/" \o Stem(Gcode(w)) \o x : x \in {"_summary.yaml", ".vtk"} \cup (IF w.cue = <<>> THEN {} ELSE {"_layer_metrics.csv"})}
Next ==
    /\ UNCHANGED w
    /\ \/ step = "gcode" /\ IF w.gcode = <<>> THEN IF Len(w.cwd) = 1 THEN Go("out") ELSE Stop
                            ELSE IF w.gcode[1].kind = "file" THEN Go("out") ELSE Stop
       \/ step = "out" /\ IF w.out # <<>> THEN Go("presets to") ELSE Go("ask")
       \/ step = "ask" /\ IF left = <<>> THEN Stop
                          ELSE /\ left' = Tail(left) /\ UNCHANGED files
                               /\ step' = IF Head(left) \in Yes THEN "presets to" ELSE IF Head(left) \in No THEN "presets only" ELSE "ask"
       \/ step \in {"presets to", "presets only"}
          /\ IF w.presets # <<>> /\ w.presets[1].kind # "file" THEN Stop ELSE Go(IF step = "presets to" THEN "printer to" ELSE "printer only")
       \/ step \in {"printer to", "printer only"}
          /\ IF Printer(w) \notin (IF w.presets = <<>> THEN Defaults ELSE w.presets[1].printers) THEN Stop
             ELSE Go(IF step = "printer to" THEN "write" ELSE "show")
       \/ step = "write" /\ files' = Dir(IF w.out # <<>> THEN w.out[1] ELSE "cwd/output_" \o Stem(Gcode(w))) /\ step' = "show" /\ UNCHANGED left
       \/ step = "show" /\ Go("done")
Spec == Init /\ [][Next]_vars
Ended == step \in {"stopped", "done"}
Outcome == Ended => /\ (step = "done") = (Runs(w, Defaults) /\ (w.out # <<>> \/ Answer(w.answers) # "none"))
                    /\ files = IF Writes(w, Defaults) THEN Files(w, Stem(Gcode(w))) ELSE {}
NothingBeforeSuccess == files # {} => Runs(w, Defaults)
Leaf == (Export /\ step = "gcode") => PrintT(<<"VF-CASE", ToJson(w)>>)
=============================================================================
