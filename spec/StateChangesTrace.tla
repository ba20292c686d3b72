------------------------ MODULE StateChangesTrace --------------------------
EXTENDS StateChanges, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Minutes(t) == Norm(t * 45, 32)          \* of times in 1/1024 day
SumOf(w, f(_)) == SumSeq([k \in DOMAIN w |-> f(w[k])])
Value(m, p, vs, g) ==
    LET w == InOrder(vs)
    IN CASE m = "NChanges" -> Is(g, Q(NChanges(w)))
         [] m = "MinTime" -> IF NChanges(w) = 0 THEN g.k = "bad" ELSE Is(g, Minutes(MinS(Held(w))))
         [] m = "Faster" -> Is(g, Q(Faster(w, p.cutoff)))
         [] m = "MaxWithin" -> Is(g, Q(MaxWithin(w, p.span)))
         [] m = "OpenShutter" -> LET all == SumOf(w, LAMBDA v : v.visit + v.slew)
                                 IN all > 0 => Is(g, Norm(SumOf(w, LAMBDA v : v.exp), all))
         [] m = "BruteOSF" -> LET o == OpenTime(w, p.maxgap)       \* seconds are 675/8 of the unit
                              IN o > 0 => Is(g, RDiv(Q(SumOf(w, LAMBDA v : v.exp + p.fudge)), Norm(o * 675, 8)))
One(e, r) == (IF Value(r.m, r.p, e.vs, r.g) THEN {} ELSE {r.m \o " value"})
             \cup (IF r.same THEN {} ELSE {r.m \o " depends on the order"})
             \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the visits"})
Bad(e) == UNION {One(e, e.res[k]) : k \in DOMAIN e.res}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
