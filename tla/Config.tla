------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The printer setup: a book of presets, one selected printer, properties   *)
(* overlaid per printer, an initial position and a layer cue.  And the      *)
(* rule by which a simulation accepts a configuration.                      *)
(***************************************************************************)
EXTENDS Flt

PosKeys == {"X", "Y", "Z", "E"}
Required == {"p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "printer_name", "firmware"} \cup PosKeys
Optional == {"layer_cue", "nozzle_diam", "filament_diam"}
Units == {"SI", "SImm", "inch"}
Factor(u) == CASE u = "SI" -> Dec(1000, 0) [] u = "inch" -> Dec(254, -1) [] OTHER -> One

\* functions given as sequences of pairs [k, v]; later pairs win
RECURSIVE Overlay(_, _)
Overlay(f, ps) ==
    IF ps = <<>> THEN f
    ELSE LET p == Head(ps)
         IN  Overlay([k \in DOMAIN f \cup {p.k} |-> IF k = p.k THEN p.v ELSE f[k]], Tail(ps))
NoProps == [k \in {} |-> ""]

\* a new setup: book is a function from printer names to functions from keys to values
NewOk(book, printer) == printer = <<>> \/ printer[1] \in DOMAIN book
NewSetup(book, printer, cue) == [book |-> book, sel |-> printer, cue |-> cue, pos |-> <<Zero, Zero, Zero, Zero>>]

SelectOk(s, name) == name \in DOMAIN s.book
Select(s, name) == IF SelectOk(s, name) THEN [s EXCEPT !.sel = <<name>>] ELSE s

PropertyOk(s) == s.sel # <<>>
Property(s, ps) == IF PropertyOk(s) THEN [s EXCEPT !.book[s.sel[1]] = Overlay(@, ps)] ELSE s

\* a position is a tuple of four numbers or names exactly the four axes
PositionOk(form, keys, nums, unit) ==
    /\ unit \in Units
    /\ \A i \in DOMAIN nums : nums[i]
    /\ CASE form = "tuple" -> Len(nums) = 4
         [] form = "dict" -> {keys[i] : i \in DOMAIN keys} = PosKeys
         [] OTHER -> FALSE
AxisNames == <<"X", "Y", "Z", "E">>
Given(form, keys, vals, k) ==
    IF form = "tuple" THEN vals[k] ELSE vals[CHOOSE i \in DOMAIN keys : keys[i] = AxisNames[k]]
Position(s, form, keys, nums, vals, unit) ==
    IF PositionOk(form, keys, nums, unit)
    THEN [s EXCEPT !.pos = [k \in 1..4 |-> FMul(Factor(unit), Given(form, keys, vals, k))]]
    ELSE s

\* the setup dictionary: without the positions, which are compared as numbers
DictOk(s) == s.sel # <<>>
Dict(s) ==
    LET base == Overlay(s.book[s.sel[1]], (IF s.cue = <<>> THEN <<>> ELSE <<[k |-> "layer_cue", v |-> s.cue[1]]>>)
                                          \o <<[k |-> "printer_name", v |-> s.sel[1]]>>)
    IN  [k \in DOMAIN base \ PosKeys |-> base[k]]

-----------------------------------------------------------------------------
\* how a simulation is given its printer: setup is <<>> or <<[sel, keys]>> (its selected printer and all of
\* its keys), machine is <<>> or a name, defaults the names of the printers that come with the package
KeysOk(keys) == Required \subseteq keys /\ keys \subseteq Required \cup Optional
Admitted(setup, machine, unit, defaults) ==
    /\ unit \in Units
    /\ setup # <<>> \/ machine # <<>>
    /\ setup # <<>> => /\ setup[1].sel # <<>>
                       /\ machine # <<>> => machine[1] = setup[1].sel[1]
                       /\ KeysOk(setup[1].keys)
    /\ setup = <<>> => machine[1] \in defaults
=============================================================================
