------------------------- MODULE StateChangesMC ----------------------------
EXTENDS StateChanges, Json
CONSTANTS Size, Gap, States
VARIABLE vs
Init == vs = <<>>
Next == Len(vs) < Size /\ \E g \in 1 .. Gap, s \in 1 .. States :
           vs' = Append(vs, [t |-> IF vs = <<>> THEN 0 ELSE vs[Len(vs)].t + g, s |-> s])
Rev(w) == [k \in DOMAIN w |-> w[Len(w) + 1 - k]]
Inv == vs # <<>> =>
    LET w == InOrder(Rev(vs))
    IN /\ PrintT("@@" \o ToJson(vs))
       /\ w = vs
       /\ NChanges(w) <= Len(w) - 1 /\ Len(Held(w)) = NChanges(w)
       /\ NChanges(w) >= Cardinality({w[k].s : k \in DOMAIN w}) - 1
       (* intervals between changes add up to the time until the last change *)
       /\ NChanges(w) > 0 => SumSeq(Held(w)) = MaxS(ChangeTimes(w)) - w[1].t
       /\ Faster(w, 100) = NChanges(w) /\ \A c \in 1 .. 4 : Faster(w, c) <= Faster(w, c + 1)
       (* windows grow with their length; at most one change per time unit *)
       /\ \A c \in 0 .. 4 : MaxWithin(w, c) <= MaxWithin(w, c + 1) /\ MaxWithin(w, c) <= c + 1
       /\ MaxWithin(w, 100) = NChanges(w)
       /\ OpenTime(w, 100) = w[Len(w)].t - w[1].t
       /\ \A c \in 0 .. 4 : OpenTime(w, c) <= OpenTime(w, c + 1)
=============================================================================
