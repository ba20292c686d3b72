---------------------------- MODULE VectorTrace ----------------------------
EXTENDS Vector, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
All(g, e, f(_, _)) == g.k = "seq" /\ Len(g.v) = Len(e) - 1 /\ \A k \in Bins(e) : f(g.v[k], k)
(* no visit defines the bin: the value of empty bins *)
Empty(g) == g.k \in {"bad"}
Value(m, p, vs, e, g) ==
    CASE m = "Histogram" -> All(g, e, LAMBDA x, k : LET s == Stat(p.st, Inside(vs, e, k)) IN IF s = <<>> THEN x.k = "nan" ELSE Is(x, s))
      [] m = "HistogramM5" -> All(g, e, LAMBDA x, k : LET w == Inside(vs, e, k) IN IF w = <<>> THEN Empty(x) ELSE Is(x, Q(SumSeq(Fs(w)))))
      [] m = "Accumulate" -> All(g, e, LAMBDA x, k : LET s == Accum(p.f, UpTo(vs, e, k)) IN IF s = <<>> THEN Empty(x) ELSE Is(x, s))
      [] m = "Uniformity" -> All(g, e, LAMBDA x, k : IF Len(vs) = 1 THEN Is(x, Q(1)) ELSE Is(x, Steady(vs, e, k)))
One(ev, r) == (IF Value(r.m, r.p, ev.vs, ev.e, r.g) THEN {} ELSE {r.m \o " value"})
             \cup (IF r.same THEN {} ELSE {r.m \o " depends on the order"})
             \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the visits"})
Bad(ev) == UNION {One(ev, ev.res[k]) : k \in DOMAIN ev.res}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
