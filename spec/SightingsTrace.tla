--------------------------- MODULE SightingsTrace ---------------------------
EXTENDS Sightings, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Pairs(e) == [k \in DOMAIN e.rows |-> <<e.rows[k].o, e.rows[k].v>>]
Row(e, w) ==
    LET o == e.objects[w.o]
        v == e.visits[w.v]
        p == Position(o, v.t)
        x == Widths(RAbs(o.v) \div 4, v.texp, v.seeing)
    IN (IF w.ra = p.ra /\ w.dec = p.dec /\ w.t = v.t /\ w.velocity = RAbs(o.v) THEN {} ELSE {"positions"})
       \cup (IF w.texp = v.texp /\ w.seeing = v.seeing /\ w.m5 = v.m5 /\ w.night = v.night /\ w.band = v.band /\ w.when = v.t THEN {} ELSE {"columns of the visit"})
       \cup (IF w.sed = o.sed /\ w.color = e.colors[o.sed][v.band] THEN {} ELSE {"colors"})
       \cup (IF Is(w.trail, Loss(x, 761, 1162)) /\ Is(w.detect, Loss(x, 420, 3)) THEN {} ELSE {"trailing losses"})
Bad(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE LET want(k, j) == Sees(e.fov, e.objects[k], e.visits[j])
         IN (IF \A n \in DOMAIN e.rows : e.rows[n].o \in DOMAIN e.objects /\ e.rows[n].v \in DOMAIN e.visits THEN UNION {Row(e, e.rows[n]) : n \in DOMAIN e.rows} ELSE {"objects or visits"})
            \cup (IF \A k \in DOMAIN e.objects, j \in DOMAIN e.visits : Count(Pairs(e), <<k, j>>) \in CASE want(k, j) = "in" -> {1} [] want(k, j) = "out" -> {0} [] OTHER -> {0, 1} THEN {} ELSE {"sightings"})
            \cup (IF e.kept THEN {} ELSE {"modifies its arguments"})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
