---------------------------- MODULE TrackDbTrace ----------------------------
EXTENDS TrackDb, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
ToSet(s) == {s[k] : k \in 1 .. Len(s)}
(* What e.run is expected to be when it is taken from the results database. *)
Adds(e) == e.op = "add" \/ (e.op = "cli" /\ e.isdir)
StepSt(e) ==
    CASE e.op = "reset" -> {}
      [] Adds(e) -> IF e.ok THEN Add(st, e.dir, e.id, e.info) ELSE st
      [] e.op = "del" -> Delete(st, e.id)
      [] OTHER -> st
Answer(e) ==
    CASE Adds(e) -> [refusal |-> e.ok = ~Refused(st, e.dir, e.ask), identity |-> e.ok => GoodId(st, e.dir, e.ask, e.id)]
      [] e.op = "cli" -> [refusal |-> ~e.ok]
      [] e.op = "addfail" -> [fails |-> ~e.ok]
      [] e.op = "del" -> [refusal |-> e.ok = (e.id \in Ids(st))]
      [] OTHER -> [ok |-> e.ok]
Checks(e) == Answer(e) @@ [rows |-> ToSet(e.obs) = StepSt(e) /\ Len(e.obs) = Cardinality(StepSt(e))]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
TInit == i = 0 /\ st = {}
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ st' = StepSt(Trace[i + 1])
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> StepSt(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
