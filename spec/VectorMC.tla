----------------------------- MODULE VectorMC ------------------------------
(* All small histories (multisets of positions) against all small bins.     *)
EXTENDS Vector, Json
CONSTANTS Top, Size
VARIABLES vs, e
Init == vs = <<>> /\ e \in {Sorted(SetToSeq(S)) : S \in {R \in SUBSET (0 .. Top) : Cardinality(R) \in 2 .. 4}}
Next == /\ Len(vs) < Size
        /\ \E b \in 0 .. Top : (vs # <<>> => vs[Len(vs)].b <= b) /\ vs' = Append(vs, [b |-> b, v |-> 1 + ((b * 3 + Len(vs)) % 5), f |-> 1 + Len(vs)])
        /\ UNCHANGED e
Total(k) == FoldSeq(LAMBDA x, acc : x + acc, 0, [j \in 1 .. k |-> Len(Inside(vs, e, j))])
Inv == vs # <<>> =>
    /\ PrintT("@@" \o ToJson([b |-> Map(vs, LAMBDA v : v.b), e |-> e]))
    (* a visit is in at most one bin; exactly in one when within the edges *)
    /\ \A j \in DOMAIN vs : Cardinality({k \in Bins(e) : InBin(e, k, vs[j].b)}) = IF vs[j].b >= e[1] /\ vs[j].b <= e[Len(e)] THEN 1 ELSE 0
    (* an accumulation is the visits before the bins and those of the bins so far, but for the edge *)
    /\ \A k \in Bins(e) : Len(UpTo(vs, e, k)) = CountIf(vs, LAMBDA v : v.b < e[1]) + Total(k)
                              + (IF k = Len(e) - 1 THEN 0 ELSE CountIf(vs, LAMBDA v : v.b = e[k + 1]))
    /\ \A k \in Bins(e) : Accum("count", UpTo(vs, e, k)) = <<>> <=> \A j \in DOMAIN vs : vs[j].b > e[k + 1]
    /\ \A k \in Bins(e) : k > 1 /\ Accum("add", UpTo(vs, e, k - 1)) # <<>> => RLe(Accum("add", UpTo(vs, e, k - 1)), Accum("add", UpTo(vs, e, k)))
    /\ Len(e) > 2 => \A k \in Bins(e) : RLe(Steady(vs, e, k), Q(1)) /\ (k > 1 => RLe(Steady(vs, e, k - 1), Steady(vs, e, k)))
=============================================================================
