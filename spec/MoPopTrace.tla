----------------------------- MODULE MoPopTrace -----------------------------
EXTENDS MoPop, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Same(g, w) == Len(g) = Len(w) /\ \A k \in DOMAIN w : Is(g[k], w[k])
(* r: what one summary made of the table of e *)
Good(e, r) ==
    CASE r.m = "completeness" -> Same(r.g, Completeness(e.t, r.thr, r.cumulative, r.base)) /\ r.names = Len(e.hs)
      [] r.m = "own completeness" -> Same(r.g, OwnCompleteness(e.t, e.hs, r.thr, r.n, r.least, r.cumulative, r.base))
      [] r.m = "bundle" -> LET c == Completeness(e.t, r.thr, r.cumulative, r.base)
                           IN r.same /\ Same(r.g, c) /\ (IF Inside(e.hs, r.x) THEN Is(r.at, At(e.hs, c, r.x)) ELSE r.at.k = "?")
      [] r.m = "value" -> IF Inside(e.hs, r.x) THEN Is(r.g, At(e.hs, [j \in DOMAIN e.hs |-> Q(e.t[1][j][1])], r.x)) ELSE r.g.k = "?"
      [] r.m = "mean" -> IF Inside(e.hs, r.x) THEN Is(r.g, At(e.hs, [j \in DOMAIN e.hs |-> MeanAt(e.t, j)], r.x)) ELSE r.g.k = "?"
      [] r.m = "max" -> IF Inside(e.hs, r.x) THEN Is(r.g, At(e.hs, [j \in DOMAIN e.hs |-> Q(MaxS(Given(Column(e.t, j))))], r.x)) ELSE r.g.k = "?"
      [] r.m = "number" -> Is(r.g, Clamped(e.hs, Numbers(Differential(e.t, r.thr), [j \in DOMAIN e.hs |-> Q(r.w[j])]), r.x))
      [] r.m = "over time" -> LET place == IF r.x = -999 THEN (Len(e.hs) \div 2) + 1 ELSE Nearest(e.hs, r.x)
                              IN Same(r.g, OverTime(e.t, r.times, place, r.cumulative, r.base)) /\ r.h = e.hs[place]
      (* a number of objects in bins as wide as the step s (in units of 1/8): a first one of a * s / 8 * f, then b times more each *)
      [] r.m = "population" -> Len(r.g) = r.n /\ \A k \in 1 .. r.n : Is(r.g[k], RMul(<<r.a[1], r.a[2]>>, Q(Pow(r.base, k - 1))))
      [] r.m = "positive" -> r.ok
Bad(e) == UNION {(IF r.raised # "" THEN {r.m \o " raised"} ELSE IF Good(e, r) THEN {} ELSE {r.m}) \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the values"}) : r \in SeqToSet(e.res)}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
