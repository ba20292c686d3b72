----------------------------- MODULE SlicersMC -----------------------------
EXTENDS Slicers, Json
CONSTANTS MaxVal, MaxVisits, MaxEdges
VARIABLES vals, edges
Init == vals = <<>> /\ \E n \in 2 .. MaxEdges : edges \in {f \in [1 .. n -> 0 .. MaxVal] : \A k \in 1 .. n - 1 : f[k] < f[k + 1]}
Next == /\ Len(vals) < MaxVisits
        /\ \E v \in 0 .. MaxVal : vals' = Append(vals, v)
        /\ UNCHANGED edges
K == 1 .. Len(edges) - 1
Inv ==
    /\ vals = <<>> \/ PrintT("@@" \o ToJson([vals |-> vals, edges |-> edges]))
    /\ \A j \in 1 .. Len(vals) :
          /\ Cardinality({k \in K : j \in Bin(vals, edges, k)}) = IF In(vals[j], edges[1], edges[Len(edges)]) THEN 1 ELSE 0
          /\ Cardinality({k \in K : j \in OpenBin(vals, edges, k)}) = IF edges[1] <= vals[j] THEN 1 ELSE 0
    /\ \A k \in K : UpTo(vals, edges, k) = {j \in 1 .. Len(vals) : vals[j] < edges[1]} \cup UNION {OpenBin(vals, edges, m) : m \in 1 .. k}
    /\ \A n \in 1 .. 3 : vals # <<>> =>
          UNION {Interval(vals, 3, n, k) : k \in 1 .. NInterval(vals, 3, n)} = 1 .. Len(vals)
=============================================================================
