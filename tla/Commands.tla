------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* Trace specification of runs of the plot command (C28).                   *)
(*   refs   contents of the files for every choice of inputs, made through  *)
(*          the Python interface                                            *)
(*   run    a world and what the command did in it                          *)
(***************************************************************************)
EXTENDS Cli, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)
Elems(q) == {q[i] : i \in DOMAIN q}
VARIABLES l, id, refs, bad, num
vars == <<l, id, refs, bad, num>>
Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(name, ok) == IF ok THEN {} ELSE {<<"C28." \o name, Ev.id, 1>>}

Init == l = 0 /\ id = "none" /\ refs = <<>> /\ bad = {} /\ num = [runs |-> 0, stopped |-> 0, written |-> 0, declined |-> 0]

Same(r, w) == r.gcode = Gcode(w) /\ r.presets = (IF w.presets = <<>> THEN "" ELSE w.presets[1].name)
              /\ r.printer = Printer(w) /\ r.cue = w.cue
References == IsEvent("refs") /\ refs' = Ev.refs /\ UNCHANGED <<id, bad, num>>

Run ==
    /\ IsEvent("run")
    /\ LET w == [Ev.w EXCEPT !.presets = [i \in DOMAIN @ |-> [@[i] EXCEPT !.printers = Elems(@)]]]
           defs == Elems(Ev.defaults)
           stem == Ev.stem
           runs == Runs(w, defs)
           want == IF Writes(w, defs) THEN Files(w, stem) ELSE {}
           got == {Ev.files[i].name : i \in DOMAIN Ev.files}
           ref == CHOOSE i \in DOMAIN refs : Same(refs[i], w)
           content(k) == LET f == CHOOSE i \in DOMAIN Ev.files : Ev.files[i].name = k IN Ev.files[f].content
       IN  /\ bad' = bad \cup UNION {
                Clause(IF Ev.err = "" THEN "outcome" ELSE "outcome (" \o Ev.err \o ")", Ev.done = runs),
                Clause("stops at once (" \o Ev.err \o ")", (~GcodeFound(w) \/ ~PresetsFound(w)) => Ev.err = ""),
                Clause("files", got = want),
                Clause("folders", want = {} => Ev.folders = 0),
                Clause("stays in its folder", Ev.touched = <<>>),
                Clause("content", (runs /\ got = want /\ want # {}) =>
                    \A k \in want : content(k) = refs[ref].content[
                        CHOOSE x \in DOMAIN refs[ref].content : k = Folder(w, stem) \o "/" \o stem \o x]),
                Clause("question", (w.out # <<>> => Ev.asked = 0) /\ (Ev.asked <= Len(w.answers))) }
           /\ num' = [num EXCEPT !.runs = @ + 1, !.stopped = @ + (IF runs THEN 0 ELSE 1), !.written = @ + Cardinality(want),
                                 !.declined = @ + (IF runs /\ want = {} THEN 1 ELSE 0)]
    /\ id' = Ev.id /\ UNCHANGED refs

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, refs, num>>
Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, refs, bad, num>>
Next == References \/ Run \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
