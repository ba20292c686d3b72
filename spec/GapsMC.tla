------------------------------ MODULE GapsMC -------------------------------
EXTENDS Gaps, Json
CONSTANTS Slots, PerNight, Size
VARIABLE ts
Init == ts = <<>>
Next == Len(ts) < Size /\ \E v \in 0 .. Slots - 1 : (ts # <<>> => ts[Len(ts)] < v) /\ ts' = Append(ts, v)
W == Map(ts, LAMBDA x : [t |-> x, night |-> x \div PerNight])
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Inv == ts # <<>> =>
    /\ PrintT("@@" \o ToJson(ts))
    /\ InOrder(Rev(W)) = W
    (* every successive gap is within a night or between nights, once *)
    /\ Len(IntraGaps(W)) + Len(InterGaps(W)) = Len(ts) - 1
    /\ SumSeq(IntraGaps(W)) + SumSeq(InterGaps(W)) = ts[Len(ts)] - ts[1]
    /\ SumSeq(Spans(W)) = SumSeq(IntraGaps(W))
    /\ Len(AllDiffs(ts)) = (Len(ts) * (Len(ts) - 1)) \div 2
    /\ Len(ts) > 1 => MaxS(AllDiffs(ts)) = ts[Len(ts)] - ts[1] /\ MinS(AllDiffs(ts)) = MinS(Diffs(ts))
    /\ SumSeq(Hist(AllDiffs(ts), <<0, 2, 3, 100>>)) = Len(AllDiffs(ts))
    /\ Hist(Diffs(ts), <<1, 2, 3>>)[1] = CountIf(Diffs(ts), LAMBDA x : x = 1)
    /\ Len(ts) > 1 => /\ RLe(Uniformity(ts, Slots), Q(1))
                      /\ RLe(GeneralUniformity(ts, ts[1], ts[Len(ts)]), Q(1))
                      /\ GeneralUniformity(ts, ts[1], ts[Len(ts)]) = Q(0) <=> Cardinality(Ints(Diffs(ts))) = 1
=============================================================================
