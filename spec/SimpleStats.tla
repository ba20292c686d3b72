--------------------------- MODULE SimpleStats -----------------------------
(* The definitions of the elementary summarising metrics (property T08).    *)
(* s is the sequence of the values of the visits in units of 1/q; a metric  *)
(* is described by its name m and its parameters p.  Def gives what the     *)
(* report g of the metric has to satisfy.                                   *)
EXTENDS Rat
Scaled(r, q) == RDiv(r, Q(q))
Abses(s) == Map(s, RAbs)
Squared(g, r) == g.k \in {"n", "x"} /\ g.sq = r          \* (the square of the result)
SgnOk(g, r) == g.sgn = r

(* outliers: values beyond the mean by more than w/2 standard deviations (w of either sign) *)
Beyond(v, s, w, orequal) ==
    LET dev == RSub(Q(v), Mean(s))                    \* > w/2 sigma  <=>  2 dev > w sigma
        l == RMul(Q(4), RSqr(dev))
        r == RMul(Q(w * w), Var(s))
        sg == IF w >= 0 THEN RSgn(dev) ELSE -RSgn(dev)
    IN IF sg < 0 THEN FALSE
       ELSE IF sg = 0 THEN r = Q(0) /\ orequal       \* on the mean, which is the boundary
       ELSE IF RLt(r, l) THEN TRUE ELSE orequal /\ l = r

(* angles in whole degrees 0..359 *)
Gaps(t) == [k \in DOMAIN t |-> IF k < Len(t) THEN t[k + 1] - t[k] ELSE 360 - t[k] + t[1]]
Rotations(s) == LET t == Sorted(s) g == Gaps(t)
                IN {[k \in DOMAIN s |-> (s[k] - t[(c % Len(t)) + 1] + 360) % 360] : c \in {c \in DOMAIN t : g[c] = MaxS(g)}}
(* sums of unit vectors at multiples of a quarter turn *)
Cos4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Sin4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
X4(s) == SumSeq(Map(s, Cos4))
Y4(s) == SumSeq(Map(s, Sin4))
Quarters(s) == \A k \in DOMAIN s : s[k] % 90 = 0
(* a direction about which the angles are symmetric and to which all are near *)
Off(a, c) == ((a - c + 180 + 360) % 360) - 180
Symmetric(s, c) == /\ \A k \in DOMAIN s : RAbs(Off(s[k], c)) <= 60
                   /\ \A k \in DOMAIN s : CountIf(s, LAMBDA a : Off(a, c) = Off(s[k], c)) = CountIf(s, LAMBDA a : Off(a, c) = -Off(s[k], c))
Centres(s) == {c \in 0 .. 359 : Symmetric(s, c)}
MeanAngleOk(s, g) ==
    IF Quarters(s)
    THEN LET x == X4(Map(s, LAMBDA a : a \div 90)) y == Y4(Map(s, LAMBDA a : a \div 90)) n == Len(s)
         IN IF 100 * (x * x + y * y) < n * n THEN Is(g, Q(180))
            ELSE 100 * (x * x + y * y) > n * n =>
                 IsNum(g.cos2) /\ Val(g.cos2) = Norm(x * x, x * x + y * y) /\ g.cx = RSgn(Q(x)) /\ g.sy = RSgn(Q(y)) /\ g.turn
    ELSE \A c \in Centres(s) : Is(g, Q(c)) \/ (c = 0 /\ Is(g, Q(360)))

(* rounding v/e to the nearest whole number, ties either way *)
RoundLo(v, e) == (2 * v + e - 1) \div (2 * e)
RoundHi(v, e) == (2 * v + e) \div (2 * e)

(* areas in units of one pixel: need/2 pixels asked for, rounded up *)
Ceil2(h) == (h + 1) \div 2
Best(s, n, down) == LET t == Sorted(s) IN IF down THEN SubSeq(t, Len(t) - n + 1, Len(t)) ELSE SubSeq(t, 1, n)

Def(m, p, s, q, g) ==
    LET n == Len(s)
        V(r) == Is(g, Scaled(r, q))
    IN CASE m = "Max" -> V(Q(MaxS(s)))
         [] m = "Min" -> V(Q(MinS(s)))
         [] m = "AbsMax" -> V(Q(MaxS(Abses(s))))
         [] m = "Mean" -> V(Mean(s))
         [] m = "AbsMean" -> V(Mean(Abses(s)))
         [] m = "Median" -> V(Median(s))
         [] m = "AbsMedian" -> V(Median(Abses(s)))
         [] m = "FullRange" -> V(Q(MaxS(s) - MinS(s)))
         [] m = "Sum" -> V(Q(SumSeq(s)))
         [] m = "Rms" -> Squared(g, Scaled(Scaled(Var(s), q), q)) /\ g.sgn >= 0
         [] m = "RelRms" -> Median(s) # Q(0) => /\ Squared(g, RDiv(Var(s), RSqr(Median(s))))
                                                /\ g.sgn = (IF Var(s) = Q(0) THEN 0 ELSE RSgn(Median(s)))
         [] m = "RobustRms" -> V(RMul(RSub(Percentile(s, 75), Percentile(s, 25)), Norm(1000, 1349)))
         [] m = "CountUnique" -> Is(g, Q(Cardinality(Ints(s))))
         [] m = "UniqueRatio" -> Is(g, Norm(Cardinality(Ints(s)), n))
         [] m = "Count" -> Is(g, Q(n))
         [] m = "CountRatio" -> Is(g, Norm(n, p.norm))
         [] m = "CountSubset" -> Is(g, Q(CountIf(s, LAMBDA x : x = p.subset)))
         [] m = "CountBeyond" -> Is(g, Q(CountIf(s, LAMBDA x : (p.haslow => x > p.low) /\ (p.hasup => x < p.up))))
         [] m = "CountExplim" ->
               LET t == SelectSeq(s, LAMBDA x : x >= p.min)
               IN \E k \in SumSeq(Map(t, LAMBDA x : RoundLo(x, p.exp))) .. SumSeq(Map(t, LAMBDA x : RoundHi(x, p.exp))) : Is(g, Q(k))
         [] m = "MaxPercent" -> Is(g, Norm(100 * CountIf(s, LAMBDA x : x = MaxS(s)), n))
         [] m = "AbsMaxPercent" -> Is(g, Norm(100 * CountIf(s, LAMBDA x : RAbs(x) = RAbs(MaxS(s))), n))
         [] m = "Binary" -> Is(g, Q(1))
         [] m = "FracAbove" -> Is(g, Norm(p.scale * CountIf(s, LAMBDA x : x >= p.cutoff), n))
         [] m = "FracBelow" -> Is(g, Norm(p.scale * CountIf(s, LAMBDA x : x <= p.cutoff), n))
         [] m = "Percentile" -> V(Percentile(s, p.percent))
         [] m = "Noutliers" -> \E k \in CountIf(s, LAMBDA x : Beyond(x, s, p.w, FALSE)) .. CountIf(s, LAMBDA x : Beyond(x, s, p.w, TRUE)) : Is(g, Q(k))
         [] m = "RealMean" -> LET t == SelectSeq(s, LAMBDA x : x # p.notreal) IN t # <<>> => Is(g, Scaled(Mean(t), q))
         [] m = "SkySaturation" -> Is(g, Q(CountIf(s, LAMBDA x : x = p.notreal)))
         [] m = "Kuiper" ->    \* whole degrees
               LET t == Sorted(Map(s, LAMBDA x : x % 360))
                   up == {RSub(Norm(t[k], 360), Norm(k, n)) : k \in DOMAIN t}
                   Top(S) == CHOOSE a \in S : \A b \in S : RLe(b, a)
                   v == RAdd(Top(up), Top({RNeg(a) : a \in up}))
               IN Is(g, v) \/ Is(g, RAdd(v, Norm(1, n)))     \* (from either side of the steps)
         [] m = "Age" -> IF p.mjd - MaxS(s) > p.limit THEN g.k = "bad" ELSE Is(g, Scaled(Q(p.mjd - MaxS(s)), q))
         [] m = "YearCoverage" -> Is(g, Q(Cardinality({k \in 1 .. Len(p.bins) - 1 :
                  \E j \in DOMAIN s : p.bins[k] <= s[j] /\ (s[j] < p.bins[k + 1] \/ (k = Len(p.bins) - 1 /\ s[j] = p.bins[k + 1]))})))
         (* angles *)
         [] m = "FullRangeAngle" -> Is(g, Q(360 - MaxS(Gaps(Sorted(s)))))
         [] m = "RmsAngle" -> \E t \in Rotations(s) : Squared(g, Var(t)) /\ g.sgn >= 0
         [] m = "MeanAngle" -> MeanAngleOk(s, g)
         [] m = "AngularSpread" -> g.k \in {"n", "x"} /\ IsNum(g.left2) /\ Val(g.left2) = Norm(X4(s) * X4(s) + Y4(s) * Y4(s), n * n) /\ g.lsgn >= 0
         (* depths: the values are fluxes (squared), reported as fluxes *)
         [] m = "Coadd" -> LET t == IF p.has THEN SelectSeq([k \in 1 .. n |-> <<s[k], p.bands[k]>>], LAMBDA x : x[2] = p.band)
                                    ELSE [k \in 1 .. n |-> <<s[k], "">>]
                           IN IF t = <<>> THEN g.k = "bad" ELSE Is(g, Q(SumSeq([k \in DOMAIN t |-> t[k][1]])))
         [] m = "Optimal" ->   \* s: fluxes of the visits, p.opt: of the optimal ones
               LET d == SumSeq(p.opt) - SumSeq(s)
                   t == Sorted(s)
                   med2 == IF n % 2 = 1 THEN t[(n + 1) \div 2] * t[(n + 1) \div 2] ELSE t[n \div 2] * t[n \div 2 + 1]
                   f == IF p.norm THEN Norm(100, n) ELSE Q(1)
               IN IF p.mag THEN Is(g, Norm(SumSeq(p.opt), SumSeq(s)))
                  ELSE Squared(g, RMul(Norm(d * d, med2), RSqr(f))) /\ g.sgn = RSgn(Q(d))
         [] m = "SnrWeighted" -> \* p.w: weights
               LET W == SumSeq(p.w) IN Is(g, Scaled(Norm(SumSeq([k \in 1 .. n |-> s[k] * p.w[k]]), W), q))
         (* summaries over pixels; results in units of a pixel's area *)
         [] m = "FOArea" -> LET c == CountIf(s, LAMBDA x : x >= p.nvisit)
                            IN IF c = 0 THEN g.k = "bad" ELSE Is(g, IF p.norm THEN Norm(2 * c, p.asky) ELSE Q(c))
         [] m = "FONvMedian" -> IF n < Ceil2(p.asky) THEN g.k = "bad" ELSE Is(g, Scaled(RDiv(Median(Best(s, Ceil2(p.asky), TRUE)), Q(p.norm)), q))
         [] m = "FONvMin" -> IF n < Ceil2(p.asky) THEN g.k = "bad" ELSE Is(g, Scaled(Norm(MinS(Best(s, Ceil2(p.asky), TRUE)), p.norm), q))
         [] m = "FootprintFraction" ->
               Is(g, Norm(Cardinality({k \in 1 .. n : p.foot[k] > 0 /\ s[k] >= p.nmin}), Cardinality({k \in 1 .. n : p.foot[k] > 0})))
         [] m = "AreaSummary" ->   \* p.notreal marks pixels without value
               LET t == SelectSeq(s, LAMBDA x : x # p.notreal)
                   b == Best(t, IF Ceil2(p.area) > Len(t) THEN Len(t) ELSE Ceil2(p.area), p.down)
               IN t # <<>> => Is(g, Scaled(CASE p.func = "default" -> Q(IF p.down THEN MinS(b) ELSE MaxS(b))
                                             [] p.func = "median" -> Median(b) [] p.func = "sum" -> Q(SumSeq(b)), q))
         [] m = "AreaThreshold" -> Is(g, Q(IF ~p.haslow /\ ~p.hasup THEN n
                                           ELSE CountIf(s, LAMBDA x : x # p.notreal /\ (p.haslow => x > p.low) /\ (p.hasup => x < p.up))))

(* metrics that return one value per value given; a single one for a single one *)
Each(m, p, s, q) == CASE m = "Identity" -> Map(s, LAMBDA x : Norm(x, q))
                      [] m = "Normalize" -> Map(s, LAMBDA x : Norm(x, q * p.norm))
                      [] m = "Zeropoint" -> Map(s, LAMBDA x : Norm(x + p.zp, q))
                      [] m = "Mapping" -> Map(s, LAMBDA x : IF p.none THEN Norm(x, q) ELSE Q(p.map[x + 1]))
                      [] m = "Pass" -> Map(s, LAMBDA x : Norm(x, q))

(* strings *)
CountOf(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
(* classification by start of the label, the first that matches *)
Use(p, kinds) == IF p.programs # <<>> /\ p.program \notin SeqToSet(p.programs) THEN "not science"
                 ELSE LET hit == {k \in DOMAIN kinds : \E n \in 0 .. Len(p.note) : SubSeq(p.note, 1, n) = kinds[k]}
                      IN IF hit = {} THEN "other" ELSE kinds[Min(hit)]
(* cumulative number of visits at a night: exact on nights with visits, between the neighbours otherwise *)
UpTo(s, x) == CountIf(s, LAMBDA v : v <= x)
CumulativeOk(s, xs, ys) ==
    /\ Len(xs) = Len(ys)
    /\ \A k \in DOMAIN xs :
          /\ IsNum(ys[k])
          /\ (xs[k] \in Ints(s)) => Is(ys[k], Q(UpTo(s, xs[k])))
          /\ xs[k] > MinS(s) => RLe(Q(UpTo(s, xs[k])), Val(ys[k])) /\ RLe(Val(ys[k]), Q(UpTo(s, xs[k]) + 1))
          /\ xs[k] >= MaxS(s) => Is(ys[k], Q(Len(s)))
=============================================================================
