------------------------- MODULE SimpleStatsTrace --------------------------
(* Judges the values the metrics returned.                                  *)
EXTENDS SimpleStats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Seqs(x) == IF Len(x) = 0 THEN <<>> ELSE x
One(e, r) == (IF Def(r.m, r.p, e.s, e.q, r.g) THEN {} ELSE {r.m \o " value"})
             \cup (IF r.same THEN {} ELSE {r.m \o " depends on the order"})
             \cup (IF r.kept THEN {} ELSE {r.m \o " modifies the visits"})
Bad(e) ==
    CASE e.op = "stats" -> UNION {One(e, e.res[k]) : k \in DOMAIN e.res}
      [] e.op = "each" -> LET w == Each(e.m, e.p, e.s, e.q)
                          IN (IF /\ Len(e.g) = Len(w) /\ \A k \in DOMAIN w : Is(e.g[k], w[k])
                                 /\ e.m # "Mapping" /\ e.m # "Pass" => e.scalar = (Len(w) = 1) THEN {} ELSE {e.m \o " value"})
                             \cup (IF e.kept THEN {} ELSE {e.m \o " modifies the visits"})
      [] e.op = "strings" ->
            LET want == SeqToSet(e.want)   \* labels after clipping
                n == Len(e.want)
                W(x) == IF e.percent THEN Norm(100 * CountOf(e.want, x), n) ELSE Q(CountOf(e.want, x))
            IN (IF e.ok /\ SeqToSet(e.names) = want /\ Len(e.names) = Cardinality(want)
                   /\ \A k \in DOMAIN e.names : Is(e.g[k], W(e.names[k])) /\ Is(e.red[k], W(e.names[k])) THEN {} ELSE {"StringCount value"})
               \cup (IF e.kept THEN {} ELSE {"StringCount modifies the visits"})
      [] e.op = "use" -> IF e.got = Use(e.p, e.kinds) THEN {} ELSE {"Use value"}
      [] e.op = "vendor" -> LET v == {e.digits[k] % 2 : k \in DOMAIN e.digits}
                            IN IF Is(e.g, Q(IF v = {0} THEN 1 ELSE IF v = {1} THEN 2 ELSE 3)) THEN {} ELSE {"ChipVendor value"}
      [] e.op = "cumulative" -> (IF CumulativeOk(e.s, e.x, e.y) /\ (e.grid => /\ e.x[1] = MinS(e.s) /\ e.x[Len(e.x)] = MaxS(e.s)
                                                                             /\ \A k \in 1 .. Len(e.x) - 1 : e.x[k + 1] = e.x[k] + 1)
                                 THEN {} ELSE {"Cumulative value"})
                                \cup (IF e.kept THEN {} ELSE {"Cumulative modifies the visits"})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
