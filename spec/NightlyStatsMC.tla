--------------------------- MODULE NightlyStatsMC ---------------------------
(* All small tables: emitted as inputs for the real code; the definition's  *)
(* own sanity is checked on each of them.                                   *)
EXTENDS NightlyStats, Json
CONSTANTS Times, Values, MaxN
VARIABLES visits
Visit == {[t |-> t, night |-> 0, x |-> [a |-> v, b |-> v * 3 % 7]] : t \in Times, v \in Values}
Init == visits = <<>>
Next == /\ Len(visits) < MaxN
        /\ \E v \in Visit : visits' = Append(visits, v)
        /\ PrintT("@@" \o ToJson(visits'))
RECURSIVE SetSum(_)
SetSum(S) == IF S = {} THEN 0 ELSE LET z == CHOOSE z \in S : TRUE IN z.count + SetSum(S \ {z})
Partition == SetSum(Stats(visits, FALSE, <<"a">>)) = Len(visits)
Ordered == \A r \in Stats(visits, FALSE, <<"a", "b">>) :
    r.count > 0 => 20 * r.min <= r.p05 /\ r.p05 <= r.q1 /\ r.q1 <= r.median /\ r.median <= r.q3 /\ r.q3 <= r.p95
                   /\ r.p95 <= 20 * r.max
Inv == Partition /\ Ordered
=============================================================================
