--------------------------- MODULE VsVisitsTrace ---------------------------
EXTENDS VsVisits, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, tab, sims
ToSet(s) == {s[k] : k \in 1 .. Len(s)}
Sims(e) == {[s EXCEPT !.tags = ToSet(@)] : s \in ToSet(e.sims)}
Q(e) == [e.q EXCEPT !.tags = ToSet(@)]
Source(e) == IF e.src = "latest" THEN Latest(sims, Q(e)).tab ELSE tab
Found(e) == e.src = "latest" => Usable(sims, Q(e)) # {}
Expect(e) == InNights(Select(Source(e), e.cond), e.q.first, e.q.last)
Checks(e) ==
    CASE e.op = "convert" -> [ok |-> e.ok, tables |-> e.ok => ToSet(e.names) = ToSet(e.back) /\ Len(e.back) = Len(e.names),
                              columns |-> e.ok => e.cols_before = e.cols_after, rows |-> e.ok => e.rows_before = e.rows_after,
                              source |-> e.untouched]
      [] e.op = "visits" -> LET w == Select(tab, e.cond)
                            IN [ok |-> e.ok, rows |-> e.ok => e.rows = Cells(w), derived |-> e.ok => e.extra = Derived(w, e.stack),
                                columns |-> e.ok => e.columns = e.base \o e.stack, arguments |-> e.before = e.after]
      [] e.op = "fetch" -> LET w == Expect(e)
                           IN [ok |-> Found(e) => e.ok, nosim |-> ~Found(e) => ~e.ok,
                               rows |-> (Found(e) /\ e.ok) => e.rows = Cells(w), derived |-> (Found(e) /\ e.ok) => e.extra = Derived(w, e.stack),
                               columns |-> (Found(e) /\ e.ok) => e.columns = e.base \o e.stack, arguments |-> e.before = e.after]
      [] e.op = "obsloc" -> LET w == Expect(e)
                            IN [ok |-> Found(e) => e.ok, nosim |-> ~Found(e) => ~e.ok,
                                rows |-> (Found(e) /\ e.ok) => e.rows = [j \in 1 .. Len(w) |-> [k \in 1 .. Len(e.pick) |-> w[j].cells[e.pick[k]]]],
                                columns |-> (Found(e) /\ e.ok) => e.columns = e.cols]
      [] e.op = "stats" -> [ok |-> Found(e) => e.ok, nosim |-> ~Found(e) => ~e.ok,
                            visits |-> (Found(e) /\ e.ok) => e.nominal = CountOn(Source(e), e.q.first)]
      [] OTHER -> [x |-> TRUE]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == CASE e.op = "visits" -> [n |-> Len(Select(tab, e.cond))]
             [] e.op \in {"fetch", "obsloc"} -> [n |-> IF Found(e) THEN Len(Expect(e)) ELSE -1]
             [] e.op = "stats" -> [n |-> IF Found(e) THEN CountOn(Source(e), e.q.first) ELSE -1]
             [] OTHER -> [n |-> 0]
TInit == i = 0 /\ tab = <<>> /\ sims = {}
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ tab' = IF Trace[i + 1].op = "load" THEN Trace[i + 1].tab ELSE tab
         /\ sims' = IF Trace[i + 1].op = "sims" THEN Sims(Trace[i + 1]) ELSE sims
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
