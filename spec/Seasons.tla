------------------------------ MODULE Seasons ------------------------------
(* Metrics of seasons (T06) and of templates (T04).                         *)
(* Times are in 1/1024 day since the Sun first passes the target (the start *)
(* of season 0); Year is the length of a season in that unit.               *)
EXTENDS Rat
CONSTANT Year
InOrder(os) == SortSeq(os, LAMBDA a, b : a.t < b.t)
Season(o) == o.t \div Year
SeasonsOf(w) == {Season(w[k]) : k \in DOMAIN w}
Visits(w, s) == SelectSeq(w, LAMBDA o : Season(o) = s)
Times(w) == Map(w, LAMBDA o : o.t)
Length(w, s) == LET v == Times(Visits(w, s)) IN MaxS(v) - MinS(v)
Lengths(w) == Map(Sorted(SetToSeq(SeasonsOf(w))), LAMBDA s : Length(w, s))
(* mean separation of the nights of a season; a single night has none *)
Separation(w, s) ==
    LET n == {o.night : o \in Ints(Visits(w, s))}
    IN IF Cardinality(n) = 1 THEN Q(0) ELSE Norm(Max(n) - Min(n), Cardinality(n) - 1)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN Q(0) ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(f[x], SumOver(f, S \ {x}))
Cadence(w) == LET S == SeasonsOf(w) IN RDiv(SumOver([s \in S |-> Separation(w, s)], S), Q(Cardinality(S)))
Reduce(how, s) == CASE how = "median" -> Median(s) [] how = "max" -> Q(MaxS(s)) [] how = "min" -> Q(MinS(s))
                    [] how = "sum" -> Q(SumSeq(s)) [] how = "mean" -> Mean(s)
Days(r) == RDiv(r, Q(1024))
(* first and last position (from 0) of each season in visits in time order, the seasons in quarters *)
Edges(q) == LET of(s) == {k \in DOMAIN q : q[k] \div 4 = s}
                S == Sorted(SetToSeq({q[k] \div 4 : k \in DOMAIN q}))
            IN [first |-> Map(S, LAMBDA s : Min(of(s)) - 1), last |-> Map(S, LAMBDA s : Max(of(s)) - 1)]

(* ------------------------------------------------------------ templates *)
(* a visit: [t, night, s, k]: seeing s, and k proportional to the inverse   *)
(* variance of its noise (its depth); p: [n, sq, mq, sbest2, kbest2]        *)
Exists(w) == Norm(Cardinality({k \in DOMAIN w : \E j \in 1 .. k - 1 : w[j].s <= w[k].s}), Len(w))
Depths(w) == Sorted(Map(w, LAMBDA o : o.k))
BenchSeeing(w, p) == LET q == Percentile(Map(w, LAMBDA o : o.s), p.sq) b == Norm(p.sbest2, 2) IN IF RLt(q, b) THEN b ELSE q
(* the position of the percentile among the sorted depths, rounded up *)
DeepRank(w, p) == ((Len(w) - 1) * (100 - p.mq) + 99) \div 100
DeepEnough(w, p, k) == 2 * k >= p.kbest2 \/ k >= Depths(w)[DeepRank(w, p) + 1]
Usable(w, p) == LET b == BenchSeeing(w, p)
                IN Sorted(SetToSeq({k \in DOMAIN w : RLe(Q(w[k].s), b) /\ DeepEnough(w, p, w[k].k)}))
HasTemplate(w, p) == Len(w) >= p.n /\ Len(Usable(w, p)) >= p.n
Inputs(w, p) == [k \in 1 .. p.n |-> w[Usable(w, p)[k]]]
Created(w, p) == Usable(w, p)[p.n]
After(w, p) == SelectSeq(w, LAMBDA o : o.night > w[Created(w, p)].night)
Depth(v) == SumSeq(Map(v, LAMBDA o : o.k))
(* square of the template's seeing *)
Seeing2(v) == Norm(SumSeq(Map(v, LAMBDA o : o.s * o.s * o.k)), Depth(v))
DiffDepth(k, tk) == Norm(k * tk, k + tk)
Better(w, p) == LET b == Seeing2(Inputs(w, p)) IN CountIf(After(w, p), LAMBDA o : RLt(b, Q(o.s * o.s)))
BetterOrEqual(w, p) == LET b == Seeing2(Inputs(w, p)) IN CountIf(After(w, p), LAMBDA o : RLe(b, Q(o.s * o.s)))
=============================================================================
