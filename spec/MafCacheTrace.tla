--------------------------- MODULE MafCacheTrace ----------------------------
(* Judges the values that real bundles got with and without caching.        *)
EXTENDS MafCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Checks(e) ==
    [raised |-> e.error = "",
     cached |-> e.error = "" => e.cached = Direct(e.metric, e.vals, e.slices),
     uncached |-> e.error = "" => e.uncached = Direct(e.metric, e.vals, e.slices)]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> ToString(Direct(Trace[i + 1].metric, Trace[i + 1].vals, Trace[i + 1].slices))]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
