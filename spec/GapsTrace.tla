---------------------------- MODULE GapsTrace ------------------------------
EXTENDS Gaps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
(* times in 1/1024 day *)
Days(r) == RDiv(r, Q(1024))
Hours(r) == RMul(r, Norm(3, 128))
Minutes(r) == RMul(r, Norm(45, 32))
Same(g, s) == g.k = "seq" /\ Len(g.v) = Len(s) /\ \A k \in DOMAIN s : g.v[k] = s[k]
NoValue(g) == g.k \in {"bad", "nan", "masked"}
Value(m, p, vs, g) ==
    LET w == InOrder(vs) t == Times(w) n == Len(w)
    IN CASE m = "Gaps" -> IF n < 2 THEN NoValue(g) ELSE Is(g, Q(Sampled(t, p.half)))
         [] m = "Tgaps" -> IF n < 2 THEN NoValue(g) ELSE Same(g, Hist(IF p.all THEN AllDiffs(t) ELSE Diffs(t), p.bins))
         [] m = "TgapsPercent" -> IF n < 2 THEN NoValue(g)
                                  ELSE LET s == IF p.all THEN AllDiffs(t) ELSE Diffs(t)
                                       IN Is(g, Norm(100 * CountIf(s, LAMBDA x : x >= p.lo /\ x <= p.hi), Len(s)))
         [] m = "Nightgaps" -> LET s == NightSeq(w) IN IF Len(s) < 2 THEN NoValue(g) ELSE Same(g, Hist(IF p.all THEN AllDiffs(s) ELSE Diffs(s), p.bins))
         [] m = "NVisitsPerNight" -> Same(g, Hist(Map(NightSeq(w), LAMBDA x : Len(OfNight(w, x))), p.bins))
         [] m = "CoaddM5PerNight" ->  \* fluxes and edges in flux
               Same(g, Hist(Map(NightSeq(w), LAMBDA x : SumSeq(Map(SelectSeq(w, LAMBDA v : v.night = x), LAMBDA v : v.f))), p.bins))
         [] m = "MaxGap" -> IF n < 2 THEN NoValue(g) ELSE Is(g, Days(Q(MaxS(Diffs(t)))))
         [] m = "NightTimespan" -> LET s == Spans(w) IN IF s = <<>> THEN NoValue(g) ELSE Is(g, Minutes(Percentile(s, p.percent)))
         [] m = "IntraNight" -> LET s == IntraGaps(w) IN IF s = <<>> THEN NoValue(g) ELSE Is(g, Hours(Reduce(p.f, s)))
         [] m = "InterNight" -> LET s == InterGaps(w) IN IF s = <<>> THEN NoValue(g) ELSE Is(g, Days(Reduce(p.f, s)))
         [] m = "VisitGap" -> IF n < 2 THEN NoValue(g) ELSE Is(g, Hours(Reduce(p.f, Diffs(t))))
         [] m = "NRevisits" -> LET c == CountIf(Diffs(t), LAMBDA x : x <= p.dt) IN Is(g, IF p.normed THEN Norm(c, n) ELSE Q(c))
         [] m = "RapidRevisit" -> LET a == CountIf(Diffs(t), LAMBDA x : x >= p.lo /\ x <= p.mid)
                                      b == CountIf(Diffs(t), LAMBDA x : x >= p.lo /\ x <= p.hi)
                                  IN Is(g, Q(IF a >= p.n1 /\ b >= p.n2 THEN 1 ELSE 0))
         [] m = "RapidUniformity" -> LET s == CountIf(Diffs(t), LAMBDA x : x >= p.lo /\ x <= p.hi)
                                     IN IF s < Max({2, p.nmin}) THEN NoValue(g) ELSE Is(g, RapidUniformity(t, p.lo, p.hi))
         [] m = "Uniformity" -> IF n = 1 THEN Is(g, Q(1)) ELSE Is(g, Uniformity(t, p.total))
         [] m = "GeneralUniformity" -> IF n = 1 THEN Is(g, Q(1)) ELSE Is(g, GeneralUniformity(t, p.lo, p.hi))
One(e, r) == (IF Value(r.m, r.p, e.vs, r.g) THEN {} ELSE {r.m \o " value"})
             \cup (IF r.same THEN {} ELSE {r.m \o " depends on the order"})
             \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the visits"})
Bad(e) == UNION {One(e, e.res[k]) : k \in DOMAIN e.res}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
