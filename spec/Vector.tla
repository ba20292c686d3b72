------------------------------ MODULE Vector -------------------------------
(* Metrics with one value per bin (property T07).  A visit is [b, v, f]: its *)
(* position on the axis of the bins, a value, and the flux weight of its     *)
(* depth.  Bins are given by strictly increasing edges e[1] < .. < e[n+1].   *)
EXTENDS Rat
Bins(e) == 1 .. Len(e) - 1
(* histograms: bin k holds [e[k], e[k+1]), the last bin also its right edge *)
InBin(e, k, x) == x >= e[k] /\ (x < e[k + 1] \/ (k = Len(e) - 1 /\ x = e[k + 1]))
Inside(vs, e, k) == SelectSeq(vs, LAMBDA v : InBin(e, k, v.b))
(* accumulations: everything up to the end of the bin *)
UpTo(vs, e, k) == SelectSeq(vs, LAMBDA v : v.b <= e[k + 1])
Vs(w) == Map(w, LAMBDA v : v.v)
Fs(w) == Map(w, LAMBDA v : v.f)
Prod(s) == FoldSeq(LAMBDA x, acc : x * acc, 1, s)
(* statistics of the visits of a bin; <<>> where there is none *)
Stat(st, w) ==
    CASE st = "count" -> Q(Len(w))
      [] st = "sum" -> Q(SumSeq(Vs(w)))
      [] w = <<>> -> <<>>
      [] st = "mean" -> Mean(Vs(w))
      [] st = "median" -> Median(Vs(w))
      [] st = "min" -> Q(MinS(Vs(w)))
      [] st = "max" -> Q(MaxS(Vs(w)))
Accum(f, w) ==
    CASE w = <<>> -> <<>>
      [] f = "add" -> Q(SumSeq(Vs(w)))
      [] f = "maximum" -> Q(MaxS(Vs(w)))
      [] f = "minimum" -> Q(MinS(Vs(w)))
      [] f = "multiply" -> Q(Prod(Vs(w)))
      [] f = "count" -> Q(Len(w))
      [] f = "m5" -> Q(SumSeq(Fs(w)))
(* largest distance, up to each bin, between the visits seen and a steady rate *)
RMax(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
RAbsQ(a) == IF RSgn(a) < 0 THEN RNeg(a) ELSE a
Seen(vs, e, k) == CountIf(vs, LAMBDA v : \E j \in 1 .. k : InBin(e, j, v.b))
Steady(vs, e, k) ==
    LET n == Len(e) - 2
    IN RMax({RAbsQ(RSub(Norm(Seen(vs, e, j), Len(vs)), Norm(j - 1, n))) : j \in 1 .. k})
=============================================================================
