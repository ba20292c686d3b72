-------------------------- MODULE VisitGroupsMC ----------------------------
EXTENDS VisitGroups, Json
CONSTANTS Slots, Size
VARIABLE ts
Init == ts = <<>>
Next == Len(ts) < Size /\ \E v \in 0 .. Slots - 1 : (ts # <<>> => ts[Len(ts)] < v) /\ ts' = Append(ts, v)
Rev(t) == [k \in DOMAIN t |-> Slots - t[Len(t) + 1 - k]]
P == [tmin |-> 2, tmax |-> 3, minvisits |-> 2, minnights |-> 2, window |-> 2]
(* times as nights, for the derived quantities *)
R(m) == [nights |-> Map(ts, LAMBDA x : m * x), two |-> Map(ts, LAMBDA x : 2 + (x % 4))]
Inv == ts # <<>> =>
    /\ PrintT("@@" \o ToJson(ts))
    /\ Cardinality(Paired(ts, 2, 3)) # 1 /\ Paired(ts, 1, 2) \subseteq Paired(ts, 1, 3)
    /\ Paired(ts, 0, 2) = Paired(ts, 0, 1) \cup Paired(ts, 2, 2)
    (* the same counts with time reversed; no visit is counted twice *)
    /\ Low2(ts, P) = Low2(Rev(ts), P) /\ High2(ts, P) = High2(Rev(ts), P)
    /\ Low2(ts, P) <= High2(ts, P) /\ High2(ts, P) <= 2 * Len(ts)
    /\ Full(ts, P) = {} => Low2(ts, P) = 0
    /\ Full(ts, P) # {} => Cardinality(Full(ts, P)) >= 2
    /\ \A m \in {1, 7, 20} :
          /\ MaxSeq(R(m), P) <= NLunations(R(m), P) /\ (MaxSeq(R(m), P) = 0) = (NLunations(R(m), P) = 0)
          /\ MaxNights(R(m), P) <= NNights(R(m), P) /\ MaxVisits2(R(m), P) >= 4 * (IF NNights(R(m), P) > 0 THEN 1 ELSE 0)
          /\ NLunations(R(m), P) > 0 => MaxNights(R(m), P) >= P.minnights
=============================================================================
