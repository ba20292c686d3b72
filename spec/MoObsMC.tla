------------------------------ MODULE MoObsMC ------------------------------
(* All small histories of detections; the rules as a whole.                 *)
EXTENDS MoObs, Json
CONSTANTS Slots, PerNight, Size
VARIABLE os
O(x) == [t |-> (x \div PerNight) * 1024 + (<<0, 1, 3, 7>>)[(x % PerNight) + 1], night |-> x \div PerNight, vis |-> 1, snr |-> 5]
Init == os = <<>>
Next == Len(os) < Size /\ \E x \in 0 .. Slots - 1 : (os # <<>> => os[Len(os)].t < O(x).t) /\ os' = Append(os, O(x))
Rules == {[nobs |-> n, tmin |-> a, tmax |-> b, nnights |-> k, window |-> win] : n \in 1 .. 2, a \in {0, 2}, b \in {2, 3, 6}, k \in 1 .. 3, win \in {1, 3}}
Drop(s, k) == [j \in 1 .. Len(s) - 1 |-> IF j < k THEN s[j] ELSE s[j + 1]]
Inv == os # <<>> =>
    /\ PrintT("@@" \o ToJson(Map(os, LAMBDA o : <<o.night, o.t - 1024 * o.night>>)))
    /\ \A p \in Rules :
         /\ Found(os, p) <=> \E S \in SUBSET NightsOf(os) : /\ Cardinality(S) = p.nnights
                                                           /\ Max(S) - Min(S) <= p.window
                                                           /\ \A n \in S : Tracklet(os, n, p)
         /\ Found(os, p) => /\ Len(TrackObs(os, p)) >= p.nobs * p.nnights
                            /\ FirstObs(os, p) = TrackObs(os, p)[1]
         (* more detections never take a discovery away, nor make it later, nor remove chances *)
         /\ \A k \in DOMAIN os : Found(Drop(os, k), p) => Found(os, p) /\ First(os, p) <= First(Drop(os, k), p)
                                                         /\ Starts(Drop(os, k), p) \subseteq Starts(os, p)
         (* laxer rules find whatever stricter ones do *)
         /\ Found(os, p) => Found(os, [p EXCEPT !.tmax = @ + 1]) /\ Found(os, [p EXCEPT !.window = @ + 1])
         /\ Found(os, p) /\ p.nobs > 1 => Found(os, [p EXCEPT !.nobs = @ - 1])
    /\ \A n \in 1 .. 3 : Magic(os, n, 2) >= Magic(os, n + 1, 2) /\ Magic(os, n, 3) >= Magic(os, n, 2)
    /\ NoSingles(os) <= Len(os)
    /\ Active(os, 2, 6) = Norm(Cardinality({n \div 2 : n \in NightsOf(os)}), 3)
=============================================================================
