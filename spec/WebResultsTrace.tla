-------------------------- MODULE WebResultsTrace ---------------------------
(* Judges what the results object and the served pages show.                *)
EXTENDS WebResults, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, db, rank
R(s) == IF s \in DOMAIN rank THEN rank[s] ELSE -1
In(e, m) == m.id \in Set(e.subset)
StatDict(ss) == LET ns == StatNames(ss, R) IN [k \in DOMAIN ns |-> <<ns[k], Value(ss, ns[k])>>]
Nub(s) == Cardinality(Set(s)) = Len(s)
Caption(m) == IF m.caption = "NULL" THEN "" ELSE m.caption
GridShown(places, ps) ==
    LET want == Grid(ps)
    IN IF Crowded(ps) THEN CrowdedGrid(db, ps, places, R)
       ELSE /\ Len(places) = Len(want)
            /\ \A k \in DOMAIN want : k <= 6 => places[k] = want[k]
            /\ Set(SubSeq(places, 7, Len(places))) = Set(SubSeq(want, 7, Len(want)))
            /\ \A k \in 7 .. Len(want) : (places[k] = <<>>) = (want[k] = <<>>)
Checks(e) ==
    CASE e.op = "db" -> [ok |-> TRUE]
      [] e.op = "all" -> [shown |-> Shows(db, e.got, LAMBDA m : TRUE, "page", R), groups |-> e.groups = Groups(db, AllIds(db), R)]
      [] e.op = "group" -> [shown |-> Shows(db, e.got, LAMBDA m : m.group = e.group /\ In(e, m), IF e.sort THEN "page" ELSE "any", R)]
      [] e.op = "subgroup" -> [shown |-> Shows(db, e.got, LAMBDA m : m.group = e.group /\ m.subgroup = e.subgroup /\ In(e, m), "page", R)]
      [] e.op = "subgroups" -> [groups |-> e.got = Groups(db, Set(e.subset), R)]
      [] e.op = "type" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ \E t \in Set(e.types) : m.id \in WithType(db, t), "any", R)]
      [] e.op = "stat" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ (\E n \in Set(e.stat) : m.id \in WithStat(db, n)), "stats", R)]
      [] e.op = "stats" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ m.id \in WithStats(db), "stats", R)]
      [] e.op = "slicer" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ m.slicer = e.slicer, "any", R)]
      [] e.op = "label" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ m.label = e.label, "any", R)]
      [] e.op = "name" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ (IF e.baseonly THEN Base(m.name) ELSE m.name) = e.name, "any", R)]
      [] e.op = "ids" -> [shown |-> Shows(db, e.got, LAMBDA m : In(e, m) /\ m.id \in Set(e.ids), "any", R)]
      [] e.op = "select" -> [shown |-> Shows(db, e.got, LAMBDA m : m.id \in Selected(db, Set(e.pairs), Set(e.ids)), "page", R)]
      [] e.op = "unique" -> LET ms == {m \in Set(db.metrics) : In(e, m)}
                            IN [unique |-> Nub(e.got),
                                same |-> Set(e.got) = CASE e.what = "base" -> {Base(m.name) : m \in ms} [] e.what = "name" -> {m.name : m \in ms}
                                                        [] e.what = "slicer" -> {m.slicer : m \in ms} [] e.what = "label" -> {m.label : m \in ms}
                                                        [] e.what = "both" -> {m.name \o " " \o m.label : m \in ms}]
      [] e.op = "info" -> LET keys == <<"Metric Name">> \o (IF e.slicer THEN <<"Slicer">> ELSE <<>>) \o <<"Info Label">> \o (IF e.link THEN <<"Data">> ELSE <<>>)
                              m == Metric(db, e.id)
                          IN [keys |-> e.keys = keys /\ e.blank = keys, name |-> e.name = m.name, label |-> e.label = m.label,
                              slicer |-> e.slicer => e.slicername = m.slicer, link |-> e.link => e.file = m.file,
                              caption |-> e.caption = Caption(m)]
      [] e.op = "plots" -> [plots |-> Set(e.got) = Set(PlotsOf(db, {e.id})), dict |-> ShowsPlots(e.dict, PlotsOf(db, {e.id}), R)]
      [] e.op = "sky" -> [plots |-> Set(e.got) = {p \in Set(PlotsOf(db, Set(e.subset))) : p.type \in Set(e.types)}]
      [] e.op = "grid" -> LET ps == SelectSeq(PlotsOf(db, Set(e.subset)), LAMBDA p : p.type \in Set(e.types))
                          IN [grid |-> GridShown(e.got, ps)]
      [] e.op = "statsof" -> [stats |-> Set(e.got) = {x \in Set(StatsOf(db, Set(e.ids))) : e.stat = "" \/ x.name = e.stat} /\ Nub(e.got)]
      [] e.op = "statdict" -> [dict |-> e.got = StatDict(StatsOf(db, {e.id})), names |-> e.names = StatNames(StatsOf(db, Set(e.subset)), R)]
      [] e.op = "results" -> LET ids == e.ids
                             IN [shown |-> Shows(db, ids, LAMBDA m : m.id \in Selected(db, Set(e.pairs), Set(e.asked)), "page", R),
                                 each |-> Set(ids) \subseteq AllIds(db) /\ \A k \in DOMAIN ids :
                                            /\ InRow(e.plots[k], PlotsOf(db, {ids[k]}), R)
                                            /\ e.stats[k] = StatDict(StatsOf(db, {ids[k]}))
                                            /\ e.captions[k] = Caption(Metric(db, ids[k]))]
      [] e.op = "all-page" -> [shown |-> Shows(db, e.ids, LAMBDA m : PlotsOf(db, {m.id}) # <<>>, "page", R),
                               each |-> Set(e.ids) \subseteq AllIds(db) /\ \A k \in DOMAIN e.ids :
                                            InRow(e.plots[k], PlotsOf(db, {e.ids[k]}), R) /\ e.captions[k] = Caption(Metric(db, e.ids[k])),
                               tables |-> TablesHold(db, e.tables)]
      [] e.op = "stats-page" -> [tables |-> TablesHold(db, e.tables)]
      [] e.op = "sky-page" -> LET sky == {"SkyMap", "TwoD", "neoxyPlotter"}
                                  ps(types) == SelectSeq(db.plots, LAMBDA p : p.type \in types)
                                  secs == {<<m.group, m.subgroup, Base(m.name)>> : m \in {x \in Set(db.metrics) : \E p \in Set(ps(sky)) : p.id = x.id}}
                                  IdsOf(sec) == {m.id : m \in {x \in Set(db.metrics) : <<x.group, x.subgroup, Base(x.name)>> = sec}}
                              IN [grids |-> {<<g.group, g.subgroup, g.name>> : g \in Set(e.grids)} = secs /\ Len(e.grids) = Cardinality(secs),
                                  grid |-> \A g \in Set(e.grids) :
                                             LET q == SelectSeq(ps(sky), LAMBDA p : p.id \in IdsOf(<<g.group, g.subgroup, g.name>>))
                                             IN /\ GridShown([k \in DOMAIN g.places |-> IF g.places[k] = "" THEN <<>> ELSE <<g.places[k]>>], q)
                                                /\ Set(g.linked) = {p.id : p \in Set(q)},
                                  others |-> Set(e.others) = Files2(ps({"ComboHistogram", "Hourglass"})),
                                  tables |-> TablesHold(db, e.tables)]
      [] e.op = "select-page" -> [ids |-> Shows(db, e.ids, LAMBDA m : TRUE, "page", R), boxes |-> e.groups = Groups(db, AllIds(db), R)]
      [] e.op = "data" -> [npz |-> e.npz, json |-> e.json]
      [] e.op = "nodata" -> [said |-> e.said]
      [] e.op = "renewed" -> [run |-> e.ok, shown |-> e.shown = <<e.name>>]
      [] e.op = "plotfile" -> [same |-> e.same]
      [] e.op = "runs" -> [runs |-> e.got = e.given, page |-> e.page = e.given]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
TInit == i = 0 /\ db = <<>> /\ rank = <<>>
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ db' = (IF Trace[i + 1].op = "db" THEN Trace[i + 1].db ELSE db)
         /\ rank' = (IF Trace[i + 1].op = "db" THEN Trace[i + 1].rank ELSE rank)
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> ""]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
