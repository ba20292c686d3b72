---------------------------- MODULE SeasonsTrace ---------------------------
EXTENDS Seasons, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
NoValue(g) == g.k = "bad"
Near(a, b, tol) == RAbs(a - b) <= tol
(* logarithms in units of 1e-6: the formulas of Liao et al. (2015) *)
Tdc(g, p) ==
    LET sea == g.l.snorm - g.l.sea  camp == g.l.cnorm - g.l.camp  cad == g.l.cad - g.l.dnorm
    IN /\ Near(10 * g.l.accuracy, 10 * g.l.c006 + 10 * sea + 11 * camp, 60)
       /\ Near(10 * g.l.precision, 10 * g.l.c4 + 7 * cad + 3 * sea + 6 * camp, 60)
       /\ Near(10 * g.l.rate, 10 * g.l.c30 - 4 * cad - 8 * sea + 2 * camp, 60)
Sky(m, p, w, g) ==
    CASE m = "SeasonLength" -> IF w = <<>> THEN NoValue(g)
                               ELSE IF p.how = "size" THEN Is(g, Q(Len(Lengths(w)))) ELSE Is(g, Days(Reduce(p.how, Lengths(w))))
      [] m = "Campaign" -> IF w = <<>> THEN NoValue(g) ELSE Is(g, Q(Cardinality(SeasonsOf(w))))
      [] m = "Frequency" -> IF w = <<>> THEN NoValue(g) ELSE Is(g, Cadence(w))
      [] m = "Tdc" -> IF w = <<>> \/ RSgn(Median(Lengths(w))) = 0 \/ RSgn(Cadence(w)) = 0 THEN NoValue(g)
                      ELSE /\ g.k = "tdc"
                           /\ Is(g.sea, RDiv(Days(Median(Lengths(w))), Q(30)))
                           /\ Is(g.cad, Cadence(w))
                           /\ Is(g.camp, Q(Cardinality(SeasonsOf(w))))
                           /\ Tdc(g, p)
Template(p, w, g) ==
    IF ~HasTemplate(w, p) THEN {x \in {"template"} : ~NoValue(g)}
    ELSE IF g.k # "t" THEN {"template"}
    ELSE LET c == Created(w, p)  v == Inputs(w, p)  a == After(w, p)  K == Depth(v)
             ok(name, x) == IF x THEN {} ELSE {name}
         IN ok("night created", Is(g.night, Q(w[c].night)))
            \cup ok("images until", Is(g.until, Q(c)))
            \cup ok("images with", Is(g.with, Q(Len(a))))
            \cup ok("season", Is(g.season, Norm(w[c].t, Year)))
            \cup ok("bench seeing", Is(g.bench, BenchSeeing(w, p)))
            \cup ok("depth", Is(g.depth, Q(K)))
            \cup ok("seeing", Is(g.seeing2, Seeing2(v)))
            \cup ok("input depths", g.inK = Map(v, LAMBDA o : o.k))
            \cup ok("input seeings", g.inS = Map(v, LAMBDA o : o.s))
            \cup ok("fraction better", IF a = <<>> THEN g.better.k \in {"nan", "bad"} \/ Is(g.better, Q(0))
                                       ELSE \E x \in Better(w, p) .. BetterOrEqual(w, p) : Is(g.better, Norm(x, Len(a))))
            \cup ok("later visits", g.lc.t = Map(a, LAMBDA o : o.t) /\ g.lc.night = Map(a, LAMBDA o : o.night)
                                    /\ g.lc.s = Map(a, LAMBDA o : o.s) /\ g.lc.k = Map(a, LAMBDA o : o.k))
            \cup ok("difference depths", /\ Len(g.lc.alerts) = Len(a) /\ Len(g.lc.diff) = Len(a)
                                         /\ \A j \in DOMAIN a : Is(g.lc.alerts[j], DiffDepth(a[j].k, K)) /\ Is(g.lc.diff[j], DiffDepth(a[j].k, K)))
            \cup ok("total of alerts", g.sums)
            \cup ok("reductions", g.reduced)
Res(e, r) ==
    LET w == InOrder(e.os)
    IN (CASE r.m = "Exists" -> IF Is(r.g, Exists(w)) THEN {} ELSE {"Exists value"}
          [] r.m = "Template" -> Template(r.p, w, r.g)
          [] OTHER -> IF Sky(r.m, r.p, SelectSeq(w, LAMBDA o : IF r.m = "Tdc" THEN o.deep = 1 ELSE o.exp > r.p.exp), r.g) THEN {} ELSE {r.m \o " value"})
       \cup (IF r.same THEN {} ELSE {r.m \o " depends on the order"})
       \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the visits"})
Bad(e) == IF e.op = "edges"
          THEN IF e.first = Edges(e.q).first /\ e.last = Edges(e.q).last THEN {} ELSE {"season edges"}
          ELSE UNION {Res(e, e.res[k]) : k \in DOMAIN e.res}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
