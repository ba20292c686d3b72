------------------------------- MODULE MoObs -------------------------------
(* Metrics of the observations of one moving object (property T05).         *)
(* An observation is [t, night, vis, snr, ...]: t in 1/1024 day, nights do   *)
(* not decrease with t and times are distinct; vis whether it was detected   *)
(* at the usual completeness, snr its signal to noise ratio.  lim = 0 stands *)
(* for "no limit on SNR" (vis counts).                                       *)
EXTENDS Rat
Detected(o, lim) == IF lim = 0 THEN o.vis > 0 ELSE o.snr >= lim
InOrder(os) == SortSeq(os, LAMBDA a, b : a.t < b.t)
Det(os, lim) == SelectSeq(InOrder(os), LAMBDA o : Detected(o, lim))
NightsOf(w) == {w[k].night : k \in DOMAIN w}
OnNight(w, n) == SelectSeq(w, LAMBDA o : o.night = n)
ObsIn(w, a, b) == SelectSeq(w, LAMBDA o : o.night >= a /\ o.night <= b)

(* ------------------------------------------------------------ discovery rules *)
(* p: [nobs, tmin, tmax, nnights, window] *)
Tracklet(w, n, p) ==
    LET s == OnNight(w, n)
    IN \E i, j \in DOMAIN s : /\ i <= j
                              /\ j - i + 1 >= p.nobs
                              /\ s[j].t - s[i].t >= p.tmin
                              /\ s[j].t - s[i].t <= p.tmax
Good(w, p) == Sorted(SetToSeq({n \in NightsOf(w) : Tracklet(w, n, p)}))
(* nights at which a track can start *)
Starts(w, p) == LET g == Good(w, p)
                IN {g[k] : k \in {k \in DOMAIN g : k + p.nnights - 1 <= Len(g) /\ g[k + p.nnights - 1] - g[k] <= p.window}}
Found(w, p) == Starts(w, p) # {}
First(w, p) == Min(Starts(w, p))
(* nights with tracklets in the first track, its observations *)
TrackNights(w, p) == {n \in Ints(Good(w, p)) : n >= First(w, p) /\ n <= First(w, p) + p.window}
TrackObs(w, p) == SelectSeq(w, LAMBDA o : o.night \in TrackNights(w, p))
FirstObs(w, p) == OnNight(w, First(w, p))[1]
(* enough observations in a period, whatever the nights *)
Magic(w, n, len) == Cardinality({u \in NightsOf(w) : Len(ObsIn(w, u, u + len - 1)) >= n})

(* ------------------------------------------------------------ other counts *)
NoSingles(w) == LET m == {n \in NightsOf(w) : Len(OnNight(w, n)) > 1} IN Len(SelectSeq(w, LAMBDA o : o.night \in m))
Arc(w) == IF w = <<>> THEN 0 ELSE w[Len(w)].t - w[1].t
(* trailed: velocity in units of the PSF per exposure; limit in the same *)
Trailed(w, f) == SelectSeq(w, LAMBDA o : o.vel >= f * o.trail)
FirstTrailed(w, f, n) ==
    LET h == Trailed(w, f) m == {x \in NightsOf(h) : Len(OnNight(h, x)) >= n}
    IN IF m = {} THEN <<>> ELSE OnNight(h, Min(m))[1]
(* a color at one instant: pairs of observations in bands a and b close together *)
Near(o, q, limit2) == 2 * RAbs(o.t - q.t) < limit2
PairsOf(w, a, b, limit2) == {<<x, y>> \in (DOMAIN w) \X (DOMAIN w) : w[x].band = a /\ w[y].band = b /\ Near(w[x], w[y], limit2)}
(* surely at least n pairs without a common observation (n is 1 or 2); surely less *)
HasPairs(w, a, b, limit2, n) ==
    LET s == PairsOf(w, a, b, limit2)
    IN IF n = 1 THEN s # {} ELSE \E u, v \in s : u[1] # v[1] /\ u[2] # v[2]
LacksPairs(w, a, b, limit2, n) == Cardinality({u[2] : u \in PairsOf(w, a, b, limit2)}) < n
(* SNR-weighted observations in a band, times snrmax *)
Weight(w, b, top) == SumSeq(Map(SelectSeq(w, LAMBDA o : o.band = b), LAMBDA o : IF o.snr < top THEN o.snr ELSE top))
ColorFlag(w, need, top) ==   \* bands u g r i z y are 0 .. 5
    LET f == {b \in 0 .. 5 : Weight(w, b, top) >= need * top}
        five == f \cap (1 .. 5)
    IN IF w = <<>> THEN 0
       ELSE IF Cardinality(f) = 6 THEN 4
       ELSE IF Cardinality(five) = 5 THEN 3
       ELSE IF Cardinality(five) = 4 THEN 2
       ELSE IF 1 \in f /\ f \cap {2, 3} # {} /\ f \cap {4, 5} # {} THEN 1
       ELSE 0
Bands(w, bs, n) == {b \in bs : CountIf(w, LAMBDA o : o.band = b) >= n}
OuterFlag(w, bs, full, second) ==
    LET l == Bands(w, bs, full) c == Bands(w, bs, second) \ l
    IN IF l = {} THEN 0 ELSE Cardinality(l) + (IF c = {} THEN 0 ELSE 1)
(* bands with enough weight, ecliptic longitudes at least 90 degrees apart, phase angles at least 5 *)
Invertible(w, bs, need, top) ==
    \E b \in bs : LET s == SelectSeq(w, LAMBDA o : o.band = b)
                  IN /\ s # <<>> /\ Weight(w, b, top) >= need * top
                     /\ MaxS(Map(s, LAMBDA o : o.lon)) - MinS(Map(s, LAMBDA o : o.lon)) >= 90
                     /\ MaxS(Map(s, LAMBDA o : o.phase)) - MinS(Map(s, LAMBDA o : o.phase)) >= 5
(* windows of `win` nights, from the first night of the survey to the one which holds its end *)
Windows(win, days) == LET twice == 2 * days + win - 1 IN twice \div (2 * win)   \* edges 0, win, .. < days + win / 2
Active(w, win, days) ==
    LET n == Windows(win, days)
    IN Norm(Cardinality({IF o.night = n * win THEN n - 1 ELSE o.night \div win : o \in {o \in {w[k] : k \in DOMAIN w} : o.night <= n * win}}), n)
(* slices of `size` degrees of the orbit (anomaly in half degrees) *)
Slices(size) == (360 + size - 1) \div size
ActiveOrbit(w, size) == Norm(Cardinality({(w[k].anom % 720) \div (2 * size) : k \in DOMAIN w}), Slices(size))
(* first time at which an object was bright enough, in periods up to given times *)
(* p: [elong, mags, ends, effs]: effs 0 or 1 *)
KnownAt(os, p) ==
    LET from(k) == IF k = 1 THEN -1000000 ELSE p.ends[k - 1]
        to(k) == IF k = 4 THEN 1000000000 ELSE p.ends[k]
        seen(k) == {o.t : o \in {o \in {os[j] : j \in DOMAIN os} : o.elong >= p.elong /\ o.t >= from(k) /\ o.t < to(k) /\ o.mag <= p.mags[k]}}
        ok == {k \in 1 .. 4 : p.effs[k] = 1 /\ seen(k) # {}}
    IN IF ok = {} THEN -1 ELSE Min(seen(Min(ok)))
=============================================================================
