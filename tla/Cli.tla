-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The plot command: how a world (the arguments, the current folder and the *)
(* answers of the user) determines what is used and what is written.        *)
(*                                                                         *)
(* world: [gcode, cwd, presets, printer, cue, out, answers]                 *)
(*   gcode    <<>> or <<[kind, name]>> with kind file, missing or folder    *)
(*   cwd      names of the G-code files in the current folder               *)
(*   presets  <<>> or <<[kind, name, printers]>>                            *)
(*   printer, cue, out   <<>> or <<value>>                                  *)
(*   answers  what the user types, in order                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Yes == {"y", "Y", "yes", "yeS", "yEs", "yES", "Yes", "YeS", "YEs", "YES"}
No == {"n", "N", "no", "nO", "No", "NO"}
DefaultPrinter == "anisoprint_a4"

GcodeFound(w) == IF w.gcode # <<>> THEN w.gcode[1].kind = "file" ELSE Len(w.cwd) = 1
Gcode(w) == IF w.gcode # <<>> THEN w.gcode[1].name ELSE w.cwd[1]

\* the answer that counts is the first clear one
RECURSIVE Answer(_)
Answer(as) == IF as = <<>> THEN "none" ELSE IF Head(as) \in Yes THEN "yes" ELSE IF Head(as) \in No THEN "no" ELSE Answer(Tail(as))

PresetsFound(w) == w.presets = <<>> \/ w.presets[1].kind = "file"
Printer(w) == IF w.printer # <<>> THEN w.printer[1] ELSE DefaultPrinter
PrinterFound(w, defaults) == Printer(w) \in (IF w.presets = <<>> THEN defaults ELSE w.presets[1].printers)

Runs(w, defaults) == GcodeFound(w) /\ PresetsFound(w) /\ PrinterFound(w, defaults)
Writes(w, defaults) == Runs(w, defaults) /\ (w.out # <<>> \/ Answer(w.answers) = "yes")
Folder(w, stem) == IF w.out # <<>> THEN w.out[1] ELSE "cwd/output_" \o stem
Files(w, stem) == {Folder(w, stem) \o "/" \o stem \o x : x \in {"_summary.yaml", ".vtk"} \cup (IF w.cue = <<>> THEN {} ELSE {"_layer_metrics.csv"})}
=============================================================================
