------------------------------- MODULE OorbMC -------------------------------
EXTENDS Oorb, Json
CONSTANT Depth
VARIABLES st, hist
Objs(n) == [k \in 1..n |-> [el |-> [j \in 1..6 |-> k + j], epoch |-> 0, h |-> k, g |-> k + 1]]
Ops == {[op |-> "set", fmt |-> f, objs |-> Objs(n)] : f \in Formats, n \in 0..2}
       \cup {[op |-> "convert", fmt |-> f, fails |-> e] : f \in Formats, e \in {0, 3}}
       \cup {[op |-> "propagate", epoch |-> 8, mode |-> m, fails |-> e] : m \in {"2body", "other"}, e \in {0, 5}}
       \cup {[op |-> "ephemerides", mode |-> "nbody", type |-> t, times |-> q, scale |-> "TAI", fails |-> e] : t \in {"basic", "full", "some"}, q \in {<<1, 3>>, <<>>}, e \in {0, 9}}
       \cup {[op |-> "read"]}
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : /\ (st = Empty => op.op = "set" /\ op.objs # <<>>)
                           /\ st' = Result(st, op)
                           /\ hist' = Append(hist, op)
                           /\ IF Len(hist') = Depth THEN PrintT("@@" \o ToJson([h |-> hist'])) ELSE TRUE
(* a failed operation changes nothing, and reading never does *)
Safe == [][LET op == hist'[Len(hist')] IN (~Valid(op) \/ op.op \in {"read", "ephemerides"}) => st' = st]_<<st, hist>>
Whole == st # Empty => st.fmt \in Formats /\ st.objs # <<>>
Kept == [][LET op == hist'[Len(hist')] IN op.op \in {"convert", "propagate"} => Len(st'.objs) = Len(st.objs) /\ \A k \in DOMAIN st.objs : st'.objs[k].h = st.objs[k].h /\ st'.objs[k].g = st.objs[k].g]_<<st, hist>>
=============================================================================
