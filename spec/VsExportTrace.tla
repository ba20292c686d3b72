---------------------------- MODULE VsExportTrace ----------------------------
EXTENDS VsExport, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
ToSet(s) == {s[k] : k \in 1 .. Len(s)}
Fix(x) == [x EXCEPT !.tags = ToSet(@), !.files = ToSet(@)]
Imp(e) == LET d == Fix(e.d) IN
    IF Acceptable(d)
    THEN [accepted |-> e.ok, one |-> e.added = 1, same |-> e.ok => Fix(e.got) = Import(d),
          visits |-> e.ok => e.stored \in {"none", ObsOf(d)}]
    ELSE [refused |-> ~e.ok, nothing |-> e.added = 0]
Exp(e) == LET s == Fix(e.s) IN
    [ok |-> e.ok, same |-> e.ok => Fix(e.got) = Export(s), nothing |-> e.added = 0]
Bad(e) == LET b == (IF e.op = "import" THEN Imp(e) ELSE Exp(e)) IN {k \in DOMAIN b : ~b[k]}
Want(e) == IF e.op = "import" THEN (IF Acceptable(Fix(e.d)) THEN Import(Fix(e.d)) ELSE Null) ELSE Export(Fix(e.s))
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
