------------------------------- MODULE MoPop --------------------------------
(* Summaries of a population of moving objects.  A table t has one row for  *)
(* each object and one column for each absolute magnitude; a cell is <<v>>, *)
(* or <<>> where the object has no value.                                   *)
EXTENDS Rat
Column(t, j) == [k \in DOMAIN t |-> t[k][j]]
Found(c, thr) == CountIf(c, LAMBDA v : v # <<>> /\ v[1] >= thr)
(* fraction of the population that meets the threshold, at each magnitude   *)
Differential(t, thr) == [j \in DOMAIN t[1] |-> Norm(Found(Column(t, j), thr), Len(t))]
(* the mean of c up to and including each place, weighted by w              *)
RSum(s) == FoldLeft(LAMBDA a, b : RAdd(a, b), Q(0), s)
Cumulated(c, w) == [j \in DOMAIN c |-> RDiv(RSum([k \in 1 .. j |-> RMul(c[k], w[k])]), RSum([k \in 1 .. j |-> w[k]]))]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
(* a population that grows b times from one magnitude to the next           *)
Weights(n, b) == [j \in 1 .. n |-> Q(Pow(b, j - 1))]
Completeness(t, thr, cumulative, b) ==
    LET c == Differential(t, thr) IN IF cumulative THEN Cumulated(c, Weights(Len(c), b)) ELSE c

(* ------------------------------------- objects with their own magnitude - *)
(* n equal bins over the magnitudes hs (in units; at least `least` wide,    *)
(* then around the middle of the magnitudes); doubled to stay whole         *)
Lo2(hs, least) == LET r == MaxS(hs) - MinS(hs) IN IF r < least THEN MaxS(hs) + MinS(hs) - least ELSE 2 * MinS(hs)
Width2(hs, least) == LET r == MaxS(hs) - MinS(hs) IN 2 * (IF r < least THEN least ELSE r)
InBin(h, hs, n, least, j) ==
    LET x == n * (2 * h - Lo2(hs, least)) w == Width2(hs, least)
    IN (j - 1) * w <= x /\ (x < j * w \/ (j = n /\ x = n * w))
Binned(t, hs, thr, n, least) ==
    [j \in 1 .. n |-> LET in == SelectSeq([k \in DOMAIN hs |-> k], LAMBDA k : InBin(hs[k], hs, n, least, j))
                      IN IF in = <<>> THEN Q(0) ELSE Norm(CountIf(in, LAMBDA k : t[k][1] # <<>> /\ t[k][1][1] >= thr), Len(in))]
OwnCompleteness(t, hs, thr, n, least, cumulative, b) ==
    LET c == Binned(t, hs, thr, n, least) IN IF cumulative THEN Cumulated(c, Weights(n, b)) ELSE c

(* ------------------------------------- along the magnitudes ------------- *)
(* linear between the magnitudes hs (increasing), x inside their range      *)
At(hs, vals, x) ==
    LET k == Max({j \in DOMAIN hs : hs[j] <= x})
    IN IF hs[k] = x THEN vals[k]
       ELSE RAdd(vals[k], RMul(Norm(x - hs[k], hs[k + 1] - hs[k]), RSub(vals[k + 1], vals[k])))
Inside(hs, x) == x >= hs[1] /\ x <= hs[Len(hs)]
(* as At, with the first and the last value beyond the range                *)
Clamped(hs, vals, x) == IF x < hs[1] THEN vals[1] ELSE IF x > hs[Len(hs)] THEN vals[Len(hs)] ELSE At(hs, vals, x)
Given(c) == Map(SelectSeq(c, LAMBDA v : v # <<>>), LAMBDA v : v[1])
MeanAt(t, j) == Mean(Given(Column(t, j)))
Numbers(c, w) == [j \in DOMAIN c |-> RSum([k \in 1 .. j |-> RMul(c[k], w[k])])]

(* ------------------------------------- over time ------------------------ *)
(* fraction of the population discovered from the first of the times until  *)
(* each of them (values of t are times of discovery)                        *)
By(t, times, j) == [k \in DOMAIN times |-> Norm(CountIf(Column(t, j), LAMBDA v : v # <<>> /\ v[1] >= times[1] /\ v[1] < times[k]), Len(t))]
OverTime(t, times, place, cumulative, b) ==
    [k \in DOMAIN times |->
        LET c == [j \in DOMAIN t[1] |-> By(t, times, j)[k]]
        IN (IF cumulative THEN Cumulated(c, Weights(Len(c), b)) ELSE c)[place]]
Nearest(hs, x) == LET d(j) == RAbs(hs[j] - x) IN Min({j \in DOMAIN hs : \A k \in DOMAIN hs : d(j) <= d(k)})
=============================================================================
