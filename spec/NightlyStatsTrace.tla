-------------------------- MODULE NightlyStatsTrace --------------------------
EXTENDS NightlyStats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Bad(e) ==
    LET want == Stats(e.visits, e.given, e.cols)
        b == [raised |-> e.ok,
              rows |-> e.ok => (SeqToSet(e.rows) = want /\ Len(e.rows) = Cardinality(want)),
              stored |-> (e.ok /\ "stored" \in DOMAIN e) => (SeqToSet(e.stored) = want /\ Len(e.stored) = Cardinality(want)),
              argument |-> e.unmodified]
    IN {k \in DOMAIN b : ~b[k]}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE
               ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Stats(Trace[i+1].visits, Trace[i+1].given, Trace[i+1].cols)]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
