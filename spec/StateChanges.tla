--------------------------- MODULE StateChanges ----------------------------
(* Changes of state over a sequence of visits (property T02).  A visit is   *)
(* [t, s, ...] with a whole number time and a state; times are distinct.    *)
EXTENDS Rat
InOrder(vs) == SortSeq(vs, LAMBDA a, b : a.t < b.t)
(* positions (in time order) at which the state differs from the one before *)
ChangesAt(w) == {k \in 2 .. Len(w) : w[k].s # w[k - 1].s}
ChangeTimes(w) == Sorted([k \in 1 .. Cardinality(ChangesAt(w)) |-> w[SetToSeq(ChangesAt(w))[k]].t])
(* how long the state left at each change had been held (since the first visit, for the first one) *)
Held(w) == LET c == ChangeTimes(w) IN [k \in DOMAIN c |-> c[k] - (IF k = 1 THEN w[1].t ELSE c[k - 1])]
NChanges(w) == Cardinality(ChangesAt(w))
Faster(w, cutoff) == CountIf(Held(w), LAMBDA h : h < cutoff)
MaxWithin(w, span) == LET c == ChangeTimes(w)
                      IN IF c = <<>> THEN 0
                         ELSE Max({Cardinality({j \in k .. Len(c) : c[j] - c[k] <= span}) : k \in DOMAIN c})
(* open shutter time over the time of the gaps that are no breaks *)
OpenGaps(w, maxgap) == {k \in 1 .. Len(w) - 1 : w[k + 1].t - w[k].t < maxgap}
OpenTime(w, maxgap) == FoldSet(LAMBDA k, a : w[k + 1].t - w[k].t + a, 0, OpenGaps(w, maxgap))
=============================================================================
