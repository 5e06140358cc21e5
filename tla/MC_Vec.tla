------------------------------- MODULE MC_Vec -------------------------------
(***************************************************************************)
(* A calculator for vectors: every step combines the latest value with an   *)
(* operand.  The laws a user of vectors relies on are action properties.    *)
(* The calculations are exported and replayed in the real code, where all   *)
(* values calculated on the way must stay what they were.                   *)
(***************************************************************************)
EXTENDS Vec, TLC, Json

CONSTANTS Depth, Export

V(x, y, z, e) == <<FromInt(x, 0), FromInt(y, 0), FromInt(z, 0), FromInt(e, 0)>>
Operands == { V(0, 0, 0, 0), V(3, 4, 0, 0), V(0, -4, 3, 2), V(1, 2, -2, -1), V(0, 0, 0, 2), V(-3, 0, 0, 5) }
Factors == { FromInt(-2, 0), Zero, Half, One, FromInt(4, 0) }

VARIABLES v, hist, last
vars == <<v, hist, last>>
Init == /\ v \in Operands /\ last = [op |-> "new", b |-> V0, c |-> One]
        /\ hist = <<[op |-> "new", b |-> v, c |-> One]>>
Do(op, b, c, r) == v' = r /\ last' = [op |-> op, b |-> b, c |-> c] /\ hist' = Append(hist, last')
Next == /\ Len(hist) <= Depth
        /\ \/ \E b \in Operands : Do("add", b, One, VAdd(v, b)) \/ Do("sub", b, One, VSub(v, b))
           \/ \E c \in Factors : Do("mul", V0, c, VMul(v, c)) \/ (c # Zero /\ Do("div", V0, c, VDiv(v, c)))
Spec == Init /\ [][Next]_vars

Tol == Dec(1, -7)
Like(a, b) == Same(a, b, Tol, Tol)
Near(x, y) == FClose(x, y, Tol, Tol)
Undone == CASE last'.op = "add" -> Like(VSub(v', last'.b), v) /\ v' = VAdd(last'.b, v)
            [] last'.op = "sub" -> Like(VAdd(v', last'.b), v) /\ Like(v', VMul(VSub(last'.b, v), FromInt(-1, 0)))
            [] last'.op = "mul" -> last'.c = Zero \/ Like(VDiv(v', last'.c), v)
            [] last'.op = "div" -> Like(VMul(v', last'.c), v)
Triangle == \A n \in {3, 4} :
    CASE last'.op \in {"add", "sub"} -> FLeTol(Norm(v', n), FAdd(Norm(v, n), Norm(last'.b, n)), Tol, Tol)
      [] last'.op = "mul" -> Near(Norm(v', n), FMul(FAbs(last'.c), Norm(v, n)))
      [] OTHER -> TRUE
Direction == (last'.op = "mul" /\ FSign(last'.c) > 0) =>
    \A n \in {3, 4} : Len(Dir(v, n)) = Len(Dir(v', n)) /\ Same(Dir(v, n), Dir(v', n), Tol, Tol)
Laws == [][Undone /\ Triangle /\ Direction]_vars

Unit == \A n \in {3, 4} : Dir(v, n) # <<>> =>
    /\ Len(Dir(v, n)) = n
    /\ Near(FNorm3(Dir(v, n)), IF Norm(v, 3)[1] = 0 THEN Zero ELSE One)
    /\ \A k \in 1..n : Near(FMul(Dir(v, n)[k], IF Norm(v, 3)[1] = 0 THEN FAbs(v[4]) ELSE Norm(v, 3)), v[k])
Nothing == Dir(v, 4) = <<>> <=> v = V0
Limits == V(2, 3, 1, 1)
Within == LET w == Limited(v, Limits) IN
    /\ \A k \in Axes : FLe(FAbs(w[k]), FAdd(Limits[k], Tol))
    /\ w = v \/ \E k \in Axes : Near(FAbs(w[k]), Limits[k])
    /\ (\A k \in Axes : FLe(FAbs(v[k]), Limits[k])) => w = v
    /\ Dir(v, 4) # <<>> => Same(Dir(w, 4), Dir(v, 4), Tol, Tol)
Leaf == (Export /\ Len(hist) = Depth + 1) => PrintT(<<"VF-CALC", ToJson(hist)>>)
=============================================================================
