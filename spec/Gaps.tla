------------------------------- MODULE Gaps --------------------------------
(* Gaps between visits and their statistics (property T03).  A visit is     *)
(* [t, night]; nights do not decrease with time; times are distinct.        *)
EXTENDS Rat
InOrder(vs) == SortSeq(vs, LAMBDA a, b : a.t < b.t)
Diffs(t) == [k \in 1 .. Len(t) - 1 |-> t[k + 1] - t[k]]
Times(w) == Map(w, LAMBDA v : v.t)
PairsUpTo(n) == {p \in (1 .. n) \X (1 .. n) : p[1] < p[2]}
(* gaps of all pairs, as a sequence *)
AllDiffs(t) == LET ps == SetToSeq(PairsUpTo(Len(t))) IN Map(ps, LAMBDA p : t[p[2]] - t[p[1]])
(* numbers of values in bins given by edges, the last one closed *)
Hist(s, b) == [k \in 1 .. Len(b) - 1 |-> CountIf(s, LAMBDA x : x >= b[k] /\ (x < b[k + 1] \/ (k = Len(b) - 1 /\ x = b[k + 1])))]
NightSeq(w) == Sorted(SetToSeq({w[k].night : k \in DOMAIN w}))
OfNight(w, n) == Times(SelectSeq(w, LAMBDA v : v.night = n))
IntraGaps(w) == LET k == SetToSeq({k \in 1 .. Len(w) - 1 : w[k].night = w[k + 1].night}) IN Map(k, LAMBDA x : w[x + 1].t - w[x].t)
InterGaps(w) == LET n == NightSeq(w) IN [k \in 1 .. Len(n) - 1 |-> MinS(OfNight(w, n[k + 1])) - MaxS(OfNight(w, n[k]))]
Spans(w) == LET n == SelectSeq(NightSeq(w), LAMBDA x : Len(OfNight(w, x)) > 1)
            IN Map(n, LAMBDA x : MaxS(OfNight(w, x)) - MinS(OfNight(w, x)))
Reduce(f, s) == CASE f = "median" -> Median(s) [] f = "mean" -> Mean(s) [] f = "max" -> Q(MaxS(s)) [] f = "min" -> Q(MinS(s)) [] f = "sum" -> Q(SumSeq(s))
(* timescale sampled: half-timescale bins, counted from the first visit, two apart *)
Sampled(t, b) == Cardinality({k \in {(t[j] - MinS(t)) \div b : j \in DOMAIN t} : \E j \in DOMAIN t : (t[j] - MinS(t)) \div b = k + 2})
(* distance between the distribution of values v[k] / top in order and a uniform one u[k] *)
RMax(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
RAbsQ(a) == IF RSgn(a) < 0 THEN RNeg(a) ELSE a
Far(f(_), n) == RMax({RAbsQ(f(k)) : k \in 1 .. n})
Uniformity(t, total) ==   \* total: length of the survey
    LET s == Sorted(t) d == Map(s, LAMBDA x : Norm(x - s[1], total))
    IN Far(LAMBDA k : RSub(RSub(Norm(k, Len(s)), d[k]), d[2]), Len(s))
GeneralUniformity(t, lo, hi) ==
    LET s == Sorted(t) IN Far(LAMBDA k : RSub(Norm(k - 1, Len(s) - 1), Norm(s[k] - lo, hi - lo)), Len(s))
RapidUniformity(t, lo, hi) ==
    LET g == Sorted(SelectSeq(Diffs(Sorted(t)), LAMBDA x : x >= lo /\ x <= hi))
        d == Map(g, LAMBDA x : Norm(x - g[1], hi - lo))
    IN Far(LAMBDA k : RSub(RSub(Norm(k, Len(g)), d[k]), d[2]), Len(g))
=============================================================================
