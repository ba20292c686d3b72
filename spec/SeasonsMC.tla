----------------------------- MODULE SeasonsMC -----------------------------
(* All small histories of visits; seasons as a partition of the visits and  *)
(* templates as the earliest usable ones.                                   *)
EXTENDS Seasons, Json
CONSTANTS Size, Slots, Qual
VARIABLE os
\* one slot per quarter of a season, from before season 0
O(x, s, k) == [t |-> (x * Year) \div 4, night |-> x \div 2, s |-> s, k |-> k]
Init == os = <<>>
Next == Len(os) < Size /\ \E x \in -3 .. Slots : /\ (IF os = <<>> THEN TRUE ELSE os[Len(os)].t < O(x, 1, 1).t)
                                               /\ \E s, k \in 1 .. Qual : os' = Append(os, O(x, s, k))
Rules == {[n |-> n, sq |-> a, mq |-> b, sbest2 |-> c, kbest2 |-> d] : n \in 1 .. 2, a \in {0, 50, 100}, b \in {0, 50, 100}, c \in {1, 3}, d \in {3, 5}}
Inv == os # <<>> =>
    /\ PrintT("@@" \o ToJson(Map(os, LAMBDA o : <<(4 * o.t) \div Year, o.s, o.k>>)))
    (* every visit is in exactly one season; seasons follow one another *)
    /\ SumSeq(Map(SetToSeq(SeasonsOf(os)), LAMBDA s : Len(Visits(os, s)))) = Len(os)
    /\ \A a, b \in DOMAIN os : a < b => Season(os[a]) <= Season(os[b])
    /\ \A s \in SeasonsOf(os) : Length(os, s) < Year
    (* lengths and the gaps between seasons make up the whole history *)
    /\ LET S == Sorted(SetToSeq(SeasonsOf(os)))
           gap(j) == MinS(Times(Visits(os, S[j + 1]))) - MaxS(Times(Visits(os, S[j])))
       IN SumSeq(Lengths(os)) + SumSeq([j \in 1 .. Len(S) - 1 |-> gap(j)]) = os[Len(os)].t - os[1].t
    /\ RSgn(Cadence(os)) >= 0
    /\ Edges(Map(os, LAMBDA o : (4 * o.t) \div Year)).first[1] = 0
    /\ \A p \in Rules :
         /\ HasTemplate(os, p) =>
              LET c == Created(os, p)
              IN /\ \A j \in 1 .. c - 1 : Len(SelectSeq(Usable(os, p), LAMBDA u : u <= j)) < p.n   \* not any earlier
                 /\ Len(After(os, p)) <= Len(os) - c
                 /\ Better(os, p) <= BetterOrEqual(os, p)
                 /\ Depth(Inputs(os, p)) >= p.n
         (* a laxer rule has a template no later *)
         /\ \A f \in {"sq", "mq", "sbest2"} :
              LET q == [p EXCEPT ![f] = IF f = "sbest2" THEN @ + 2 ELSE 100]
              IN HasTemplate(os, p) => HasTemplate(os, q) /\ Created(os, q) <= Created(os, p)
=============================================================================
