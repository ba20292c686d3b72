----------------------------- MODULE MoObsTrace ----------------------------
EXTENDS MoObs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Days(t) == Norm(t, 1024)
NoValue(g) == g.k = "bad"
(* results of the children of a discovery metric: fields of the first observation of the track *)
Child(m, w, p, x) ==
    LET o == FirstObs(w, p)
    IN CASE m = "N_Chances" -> Is(x, Q(Cardinality(Starts(w, p))))
         [] m = "N_Obs" -> Is(x, Q(Len(TrackObs(w, p))))
         [] m = "Time" -> Is(x, Days(o.t))
         [] m = "Distance" -> Is(x, Q(o.id + 100))
         [] m = "RADec" -> x.k = "ids" /\ x.v = <<o.id + 200, o.id + 300>>
         [] m = "EcLonLat" -> x.k = "ids" /\ x.v = <<o.id + 400, o.id + 500, o.id + 600>>
         [] m = "Velocity" -> Is(x, Q(o.vel))
Nothing(m, x) == IF m \in {"N_Chances", "N_Obs"} THEN Is(x, Q(0)) ELSE NoValue(x)
Value(m, p, os, g) ==
    LET w == Det(os, p.lim)
    IN CASE m = "Discovery" -> IF ~Found(w, p) THEN NoValue(g) \/ (g.k = "children" /\ \A c \in DOMAIN g.v : Nothing(c, g.v[c]))
                               ELSE g.k = "children" /\ \A c \in DOMAIN g.v : Child(c, w, p, g.v[c])
         [] m = "Magic" -> Is(g, Q(IF Len(w) < p.n THEN 0 ELSE Magic(w, p.n, p.len)))
         [] m = "NObs" -> Is(g, Q(Len(w)))
         [] m = "NNights" -> Is(g, Q(Cardinality(NightsOf(w))))
         [] m = "NoSingles" -> Is(g, Q(NoSingles(w)))
         [] m = "Arc" -> Is(g, Days(Arc(w)))
         [] m = "HighVelocity" -> Is(g, Q(Len(Trailed(w, p.f))))
         [] m = "HighVelocityNights" -> LET o == FirstTrailed(w, p.f, p.n) IN IF o = <<>> THEN Is(g, Q(0)) ELSE Is(g, Days(o.t))
         [] m = "InstantColor" -> (Is(g, Q(0)) \/ Is(g, Q(1)))
                                  /\ (HasPairs(w, p.a, p.b, p.limit2, p.n) => Is(g, Q(1)))
                                  /\ (LacksPairs(w, p.a, p.b, p.limit2, p.n) => Is(g, Q(0)))
         [] m = "Color" -> Is(g, Q(ColorFlag(w, p.need, p.top)))
         [] m = "Outer" -> Is(g, Q(OuterFlag(w, SeqToSet(p.bands), p.full, p.second)))
         [] m = "Inversion" -> Is(g, Q(IF Invertible(w, SeqToSet(p.bands), p.need, p.top) THEN 1 ELSE 0))
         [] m = "Activity" -> Is(g, IF w = <<>> THEN Q(0) ELSE Active(w, p.win, p.days))
         [] m \in {"ActivityOrbit", "ActivityPerihelion"} -> Is(g, IF w = <<>> THEN Q(0) ELSE ActiveOrbit(w, p.size))
         [] m = "Peak" -> Is(g, Q(MinS(Map(os, LAMBDA o : o.mag))))
         [] m = "Known" -> IF KnownAt(os, p) = -1 THEN NoValue(g) ELSE Is(g, Q(KnownAt(os, p)))
(* a recorded defect: orbits since perihelion taken as radians (o.turns: the slice which holds them) *)
Radians(m, p, os, g) ==
    LET w == Det(os, p.lim)
    IN m = "ActivityPerihelion" /\ w # <<>> /\ Is(g, Norm(Cardinality({w[k].turns : k \in DOMAIN w}), Slices(p.size)))
One(e, r) == (IF Value(r.m, r.p, e.os, r.g) THEN {}
              ELSE IF Radians(r.m, r.p, e.os, r.g) THEN {"orbits since perihelion taken as radians"}
              ELSE {r.m \o " value"})
             \cup (IF r.same THEN {} ELSE {r.m \o " depends on the order"})
             \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the observations"})
Bad(e) == UNION {One(e, e.res[k]) : k \in DOMAIN e.res}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
