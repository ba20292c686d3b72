------------------------------- MODULE FitsMC -------------------------------
(* Design: the cutting itself.  A piece fits if it is no longer than what     *)
(* each of the cells it covers allows (0: nothing fits there); a piece that   *)
(* does not is cut into equal parts, short enough for the first part to fit,  *)
(* or given up if there are none.                                             *)
EXTENDS Fits, Json
CONSTANTS Cells, Unit
VARIABLES need, len, todo, kept, failed
vars == <<need, len, todo, kept, failed>>
Span == Cells * Unit
Cell(k) == [a |-> (k - 1) * Unit, b |-> k * Unit]
Good(p) == \A k \in 1 .. Cells : Overlap(p, Cell(k)) => need[k] >= p.b - p.a
Parts(p, m) == [j \in 1 .. ((p.b - p.a) \div m) |-> [a |-> p.a + ((j - 1) * m), b |-> p.a + (j * m)]]
Div(n) == {m \in 1 .. (n - 1) : n % m = 0}
Init == /\ need \in [1 .. Cells -> {0, 1, Unit, Span}]
        /\ len \in {Unit, Span} \cup (IF Cells % 2 = 0 THEN {2 * Unit} ELSE {})
        /\ todo = Parts([a |-> 0, b |-> Span], len) /\ kept = <<>> /\ failed = <<>>
Step == LET p == todo[1]
            ok == {m \in Div(p.b - p.a) : Good([a |-> p.a, b |-> p.a + m])}
        IN IF Good(p) THEN kept' = Append(kept, p) /\ todo' = Tail(todo) /\ UNCHANGED failed
           ELSE IF ok = {} THEN failed' = Append(failed, p) /\ todo' = Tail(todo) /\ UNCHANGED kept
           ELSE \E m \in ok : todo' = Parts(p, m) \o Tail(todo) /\ UNCHANGED <<kept, failed>>
Next == todo # <<>> /\ Step /\ UNCHANGED <<need, len>>
        /\ (todo' = <<>> => PrintT("@@" \o ToJson([need |-> need, len |-> len])))
Covered == Tiles(kept \o failed \o todo, 0, Span)
Inside == Nested(kept \o failed \o todo, 0, len, 0) /\ Divides(len, Span)
Hopeless == SelectSeq([k \in 1 .. Cells |-> IF need[k] = 0 THEN Cell(k) ELSE [a |-> -1, b |-> -1]], LAMBDA c : c.b > 0)
Honest == Justified(failed, Hopeless) /\ Usable(kept, Hopeless)
(* every step leaves less to do: the cutting ends *)
Size(ps) == SumSeq([k \in DOMAIN ps |-> (ps[k].b - ps[k].a) * (ps[k].b - ps[k].a)])
Ends == [][Size(todo') < Size(todo)]_vars
=============================================================================
