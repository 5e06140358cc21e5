------------------------------ MODULE Console ------------------------------
(***************************************************************************)
(* Trace specification of what is printed (C38).                            *)
(*   op    an operation of a session (create, refresh, summary, metrics,    *)
(*         series, plots), once on a usual console and once inside of       *)
(*         ABAQUS, where only ASCII can be printed:                         *)
(*         plain, abaqus   the texts without bars and times taken           *)
(*         bars, abqbars   the lines of progress bars                       *)
(*         heads           the headlines of simulations found in it         *)
(*         parsed          the numbers of lines reported                    *)
(*         warnings        lines that say that the plan is wrong            *)
(*         want            the same according to the simulation             *)
(*         saved           written files and whether the text names them    *)
(*         err, abqerr     how it failed;  same: equal results              *)
(*   show  the progress k / n is reported to the bar and shown as told      *)
(***************************************************************************)
EXTENDS Progress, Flt, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, id, last, at, bad, num
vars == <<l, id, last, at, bad, num>>
Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(name, ok) == IF ok THEN {} ELSE {<<"C38." \o name, id, at + 1>>}

Init == l = 0 /\ id = "none" /\ last = -1 /\ at = 0 /\ bad = {} /\ num = [runs |-> 0, operations |-> 0, lines |-> 0, updates |-> 0]

Begin == /\ IsEvent("begin") /\ id' = Ev.id /\ at' = 0 /\ last' = -1
         /\ num' = [num EXCEPT !.runs = @ + 1] /\ UNCHANGED bad

\* the time is printed with two decimals
Time(a, b) == FClose(a, b, Dec(1, -7), Dec(50001, -7))
Headline(h) == /\ h.states = Ev.want.states /\ h.blocks = Ev.want.blocks /\ Time(h.secs, Ev.want.secs) /\ h.named
Bar(b) == \A i \in DOMAIN b :
    /\ b[i].t \in 0..1000 /\ b[i].w = 10 /\ b[i].h \in 0..10 /\ Fits(b[i].t, b[i].h)
    /\ (b[i].s = "done" => b[i].t = 1000)
    /\ b[i].s \in {"", "done"}
Grows(b) == \A i \in 1..(Len(b) - 1) : (b[i].n = b[i + 1].n /\ b[i].s = "") => b[i].t <= b[i + 1].t

Op ==
    /\ IsEvent("op")
    /\ bad' = bad \cup UNION {
         Clause("fails under ABAQUS", Ev.err = "" => Ev.abqerr = ""),
         Clause("headline", (Ev.op = "create" /\ Ev.err = "") => (Len(Ev.heads) = 1 /\ Headline(Ev.heads[1]))),
         Clause("lines parsed", (Ev.op = "create" /\ Ev.err = "") => Ev.parsed = <<Ev.want.lines>>),
         Clause("false warning", Ev.warnings = 0),
         Clause("progress bar", Bar(Ev.bars)),
         Clause("progress grows", Grows(Ev.bars)),
         Clause("progress ends", (Ev.err = "" /\ Ev.bars # <<>>) => \E i \in DOMAIN Ev.bars : Ev.bars[i].s = "done"),
         Clause("file named", \A i \in DOMAIN Ev.saved : Ev.saved[i].exists => Ev.saved[i].named),
         Clause("file written", \A i \in DOMAIN Ev.saved : Ev.saved[i].named => Ev.saved[i].exists),
         Clause("text under ABAQUS", (Ev.err = "" /\ Ev.abqerr = "") => Ev.abaqus = Ascii(Ev.plain)),
         Clause("bars under ABAQUS", (Ev.err = "" /\ Ev.abqerr = "") => Ev.abqbars = Ev.bars),
         Clause("result under ABAQUS", (Ev.err = "" /\ Ev.abqerr = "") => Ev.same) }
    /\ num' = [num EXCEPT !.operations = @ + 1, !.lines = @ + Len(Ev.bars)]
    /\ at' = at + 1 /\ UNCHANGED <<id, last>>

\* a progress reported directly
Show ==
    /\ IsEvent("show")
    /\ LET k == Ev.k
           n == Ev.n
           o == Ev.out
       IN  /\ bad' = bad \cup UNION {
                Clause("progress shown", (o = <<>> /\ last >= 0) => Silent(last, k, n)),
                Clause("progress silent", (o # <<>> /\ last >= 0 /\ Status(k, n) = "") => Tenths(k, n) # {last}),
                Clause("one line", Len(o) <= 1),
                Clause("progress line", o # <<>> => /\ o[1].t \in Tenths(k, n) /\ o[1].h \in Hashes(k, n) /\ o[1].w = 10
                                                    /\ o[1].s = Status(k, n) /\ o[1].n = Ev.name),
                Clause("progress fails", Ev.err = "") }
           /\ last' = IF o # <<>> THEN o[1].t ELSE last
    /\ num' = [num EXCEPT !.updates = @ + 1]
    /\ at' = at + 1 /\ UNCHANGED id

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, last, at, num>>
Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, last, at, bad, num>>
Next == Begin \/ Op \/ Show \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
