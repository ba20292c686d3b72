--------------------------- MODULE ResultsDbTrace ---------------------------
EXTENDS ResultsDb, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
ToSet(s) == {s[k] : k \in 1 .. Len(s)}
Pick(r, D) == [k \in D |-> r[k]]
(* An operation that was cut short has happened, or not (of a set of        *)
(* statistics, some).                                                       *)
Could(e) ==
    CASE e.what = "metric" -> {st, AddMetric(st, e.key, e.file, e.id)}
      [] e.what = "display" -> {st, SetDisplay(st, e.d, e.overwrite)}
      [] e.what = "plot" -> {st, AddPlot(st, e.p, e.overwrite)}
      [] e.what = "stat" -> {AddStats(st, SubSeq(e.ss, 1, k)) : k \in 0 .. Len(e.ss)}
      [] OTHER -> {Partly(st)}
Seen(o) == [metrics |-> ToSet(o.metrics), displays |-> ToSet(o.displays), plots |-> o.plots, stats |-> o.stats, schema |-> st.schema]
StepSt(e) ==
    CASE e.op = "reset" -> Empty
      [] e.op = "interrupt" -> IF Seen(e.obs) \in Could(e) THEN Seen(e.obs) ELSE CHOOSE s \in Could(e) : TRUE
      [] e.op = "locked" -> IF e.free <= 3 THEN AddStats(st, e.ss) ELSE st
      [] e.op = "metric" -> IF e.ok THEN AddMetric(st, e.key, e.file, e.id) ELSE st
      [] e.op = "display" -> IF e.ok THEN SetDisplay(st, e.d, e.overwrite) ELSE st
      [] e.op = "plot" -> IF e.ok THEN AddPlot(st, e.p, e.overwrite) ELSE st
      [] e.op = "stat" -> IF e.ok THEN AddStats(st, e.ss) ELSE st
      [] e.op = "reopen" -> Upgrade(st)
      [] e.op = "downgrade" -> Downgrade(st)
      [] OTHER -> st
(* The tables as read directly from the file after every step.              *)
SameTables(s, o) ==
    [metrics |-> ToSet(o.metrics) = s.metrics /\ Len(o.metrics) = Cardinality(s.metrics),
     displays |-> ToSet(o.displays) = s.displays /\ Len(o.displays) = Cardinality(s.displays),
     plots |-> o.plots = s.plots, stats |-> o.stats = s.stats, schema |-> s.schema = "partly" \/ o.schema = s.schema]
Ids0(e) == IF e.all THEN Ids(st) ELSE ToSet(e.ids)
Once(s, S) == ToSet(s) = S /\ Len(s) = Cardinality(S)
WithKey(s) == [mid |-> s.mid, name |-> s.name, val |-> s.val, key |-> Pick(Key(st, s.mid), {"name", "slicer", "label"}), run |-> Key(st, s.mid).run]
KeepStat(e, s) == /\ (e.name # "any" => s.name = e.name)
                  /\ (e.part # <<>> => HasPart(e.chars[s.name], e.part))
                  /\ \A k \in 1 .. Len(e.notparts) : ~HasPart(e.chars[s.name], e.notparts[k])
PlotRow(p) == [mid |-> p.mid, type |-> p.type, file |-> p.file, name |-> Key(st, p.mid).name, label |-> Key(st, p.mid).label, run |-> Key(st, p.mid).run]
Plain(s) == [k \in 1 .. Len(s) |-> WithKey(s[k])]
Part(q, k, S) == q[k] = <<>> \/ HasPart(S, q[k])
Like(e) == {m.id : m \in {x \in st.metrics :
              /\ Part(e.q, "name", e.chars[x.key.name]) /\ Part(e.q, "slicer", e.chars[x.key.slicer])
              /\ Part(e.q, "label", e.chars[x.key.label]) /\ (e.run = "any" \/ x.key.run = e.run)}}
Answer(e) ==
    CASE e.op = "interrupt" -> [identity |-> e.what = "metric" => (e.id = 9999 \/ GoodId(st, e.key, e.id))]
      [] e.op = "metric" -> [identity |-> e.ok => GoodId(st, e.key, e.id)]
      [] e.op = "ids" -> [found |-> e.ok => Once(e.got, MatchIds(st, e.q))]
      [] e.op = "like" -> [found |-> e.ok => Once(e.got, Like(e))]
      [] e.op = "all" -> [found |-> e.ok => Once(e.got, Ids(st))]
      [] e.op = "runs" -> [found |-> e.ok => Once(e.got, {m.key.run : m \in st.metrics})]
      [] e.op = "getstats" -> [rows |-> e.ok => Bag(e.rows) = Bag(Plain(Stats(st, Ids0(e), LAMBDA s : KeepStat(e, s)))),
                               order |-> e.ok => \A a \in Ids(st) : LET P(s) == s.mid = a
                                                                   IN SelectSeq(e.rows, P) = SelectSeq(Plain(Stats(st, Ids0(e), LAMBDA s : KeepStat(e, s))), P)]
      [] e.op = "getplots" -> [rows |-> e.ok => Bag(e.rows) = Bag([k \in 1 .. Len(Plots(st, Ids0(e))) |-> PlotRow(Plots(st, Ids0(e))[k])])]
      [] e.op = "getfiles" -> [rows |-> e.ok => Bag(e.rows) = [f \in {m.file : m \in {x \in st.metrics : x.id \in Ids0(e)}} |->
                                   Cardinality({m \in st.metrics : m.id \in Ids0(e) /\ m.file = f})]]
      [] e.op = "getinfo" -> [rows |-> e.ok => Once(e.rows, {m \in st.metrics : m.id \in Ids0(e)})]
      [] e.op = "getdisplays" -> [rows |-> e.ok => Once(e.rows, {[m |-> CHOOSE m \in st.metrics : m.id = d.mid, d |-> d] : d \in Displays(st, Ids0(e))})]
      [] OTHER -> [x |-> TRUE]
Checks(e) == IF e.op = "reset" THEN SameTables(Empty, e.obs) @@ [ok |-> e.ok]
             ELSE Answer(e) @@ [ok |-> IF e.op = "locked" THEN e.ok = (e.free <= 3) ELSE e.ok] @@ SameTables(StepSt(e), e.obs) @@ [argument |-> "before" \in DOMAIN e => e.before = e.after]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == IF e.op \in {"metric", "display", "plot", "stat", "reopen", "downgrade", "interrupt", "locked"} THEN [st |-> StepSt(e)] ELSE [st |-> st]
TInit == i = 0 /\ st = Empty
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ st' = StepSt(Trace[i + 1])
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
