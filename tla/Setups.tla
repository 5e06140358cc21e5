------------------------------- MODULE Setups -------------------------------
(***************************************************************************)
(* Trace specification of printer setups (C22) and of the admission of      *)
(* simulations (C23).                                                       *)
(*                                                                         *)
(*   begin     a presets file                                               *)
(*   new       a setup is made from it                                      *)
(*   select, property, position    operations on a setup                    *)
(*   get       the setup dictionary is read (and spoiled by the reader)     *)
(*   admit     a simulation is asked for                                    *)
(***************************************************************************)
EXTENDS Config, FiniteSets, SequencesExt, TLC, Json, IOUtils

CONSTANT Sel

Log == ndJsonDeserialize(IOEnv.VF_TRACE)
VARIABLES l, id, book, s, at, bad, num
vars == <<l, id, book, s, at, bad, num>>

Ev == Log[l + 1]
IsEvent(e) == l < Len(Log) /\ Ev.e = e /\ l' = l + 1
Clause(prop, name, ok) == IF prop \in Sel THEN IF ok THEN {} ELSE {<<prop \o "." \o name, id, at + 1>>} ELSE {}
Count(k) == num' = [num EXCEPT ![k] = @ + 1]

Init == /\ l = 0 /\ id = "none" /\ book = NoProps /\ s = NoProps /\ at = 0 /\ bad = {}
        /\ num = [books |-> 0, setups |-> 0, operations |-> 0, rejected |-> 0, dictionaries |-> 0, admissions |-> 0, admitted |-> 0]

RECURSIVE Book(_)
Book(ps) == IF ps = <<>> THEN NoProps
            ELSE LET f == Book(Tail(ps))  p == Head(ps)
                 IN  [k \in DOMAIN f \cup {p.name} |-> IF k = p.name THEN Overlay(NoProps, p.d) ELSE f[k]]

Begin == /\ IsEvent("begin")
         /\ id' = Ev.id /\ book' = Book(Ev.book) /\ s' = NoProps /\ at' = 0
         /\ Count("books")
         /\ UNCHANGED bad

New == /\ IsEvent("new")
       /\ bad' = bad \cup Clause("C22", "creation of a setup", Ev.rejected = ~NewOk(book, Ev.printer))
       /\ s' = IF Ev.rejected THEN s
               ELSE [k \in DOMAIN s \cup {Ev.s} |-> IF k = Ev.s THEN NewSetup(book, Ev.printer, Ev.cue) ELSE s[k]]
       /\ at' = at + 1 /\ Count("setups")
       /\ UNCHANGED <<id, book>>

Operation(ok, next, name) ==
    /\ bad' = bad \cup Clause("C22", name, Ev.rejected = ~ok)
    /\ s' = [s EXCEPT ![Ev.s] = next]
    /\ at' = at + 1
    /\ num' = [num EXCEPT !.operations = @ + 1, !.rejected = @ + (IF Ev.rejected THEN 1 ELSE 0)]
    /\ UNCHANGED <<id, book>>
SelectPrinter == IsEvent("select") /\ Operation(SelectOk(s[Ev.s], Ev.name), Select(s[Ev.s], Ev.name), "selection of a printer")
SetProperty == IsEvent("property") /\ Operation(PropertyOk(s[Ev.s]), Property(s[Ev.s], Ev.d), "overriding of properties")
SetPosition == IsEvent("position") /\ Operation(PositionOk(Ev.form, Ev.keys, Ev.nums, Ev.unit),
                                                Position(s[Ev.s], Ev.form, Ev.keys, Ev.nums, Ev.vals, Ev.unit), "initial position")

Pairs(d) == {<<d[i].k, d[i].v>> : i \in DOMAIN d}
Get == /\ IsEvent("get")
       /\ LET me == s[Ev.s]
              d == Dict(me)
          IN  bad' = bad \cup Clause("C22", "reading of the dictionary", Ev.rejected = ~DictOk(me))
                         \cup Clause("C22", "dictionary", (DictOk(me) /\ ~Ev.rejected) => Pairs(Ev.d) = {<<k, d[k]>> : k \in DOMAIN d})
                         \cup Clause("C22", "position in the dictionary", (DictOk(me) /\ ~Ev.rejected) =>
                                       Len(Ev.pos) = 4 /\ \A k \in 1..4 : FClose(Ev.pos[k], me.pos[k], Dec(1, -6), Dec(1, -9)))
       /\ at' = at + 1 /\ Count("dictionaries")
       /\ UNCHANGED <<id, book, s>>

Admit == /\ IsEvent("admit")
         /\ LET set == [i \in DOMAIN Ev.setup |-> [sel |-> Ev.setup[i].sel, keys |-> {Ev.setup[i].keys[k] : k \in DOMAIN Ev.setup[i].keys}]]
                ok == Admitted(set, Ev.machine, Ev.unit, {Ev.defaults[i] : i \in DOMAIN Ev.defaults})
            IN  /\ bad' = bad \cup Clause("C23", "acceptance", ok => Ev.result = "ok")
                              \cup Clause("C23", "rejection", ~ok => Ev.result # "ok")
                              \cup Clause("C23", "kind of error", ~ok => Ev.result \in {"ok", "ValueError"})
                              \cup Clause("C23", "nothing produced", Ev.files = 0)
                /\ num' = [num EXCEPT !.admissions = @ + 1, !.admitted = @ + (IF ok THEN 1 ELSE 0)]
         /\ at' = at + 1
         /\ UNCHANGED <<id, book, s>>

Crash ==
    /\ IsEvent("crash")
    /\ bad' = bad \cup {<<c \o "." \o Ev.err, Ev.id, 0>> : c \in Sel}
    /\ UNCHANGED <<id, book, s, at, num>>

Done ==
    /\ l = Len(Log) /\ l' = l + 1
    /\ PrintT(<<"VF-RESULT", ToJson([consumed |-> l, bad |-> SetToSeq(bad), num |-> num])>>)
    /\ UNCHANGED <<id, book, s, at, bad, num>>

Next == Begin \/ New \/ SelectPrinter \/ SetProperty \/ SetPosition \/ Get \/ Admit \/ Crash \/ Done
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 2 = Len(Log)
=============================================================================
