---------------------------- MODULE ResultsDbMC ----------------------------
EXTENDS ResultsDb, Json
CONSTANTS MaxOps, Migrate
VARIABLES st, hist
Keys == {[name |-> "a", slicer |-> "S", run |-> "r", con |-> "", label |-> "x"],
         [name |-> "a", slicer |-> "S", run |-> "r", con |-> "c", label |-> "x"],
         [name |-> "b", slicer |-> "S", run |-> "NULL", con |-> "", label |-> "x"]}
Init == st = Empty /\ hist = <<>>
H(e) == hist' = Append(hist, e) /\ PrintT("@@" \o ToJson(hist'))
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ /\ st.schema = "new"
          /\ \/ \E k \in Keys, f \in {"NULL", "f1", "f2"} :
                   st' = AddMetric(st, k, f, Cardinality(st.metrics) + 1) /\ H([op |-> "metric", key |-> k, file |-> f])
             \/ \E m \in st.metrics, g \in {"g1", "g2"}, o \in BOOLEAN :
                   /\ st' = SetDisplay(st, [mid |-> m.id, group |-> g, subgroup |-> "NULL", order |-> "n0", caption |-> "c"], o)
                   /\ H([op |-> "display", key |-> m.key, group |-> g, overwrite |-> o])
             \/ \E m \in st.metrics, t \in {"map"}, o \in BOOLEAN :
                   st' = AddPlot(st, [mid |-> m.id, type |-> t, file |-> "p"], o) /\ H([op |-> "plot", key |-> m.key, type |-> t, overwrite |-> o])
             \/ \E m \in st.metrics :
                   st' = AddStats(st, <<[mid |-> m.id, name |-> "Mean", val |-> "n1"]>>) /\ H([op |-> "stat", key |-> m.key])
             \/ Migrate /\ st' = Downgrade(st) /\ H([op |-> "downgrade"])
             \/ Migrate /\ st' = Partly(st) /\ H([op |-> "interrupted", what |-> "downgrade"])
       \/ Migrate /\ st.schema # "new" /\ st' = Partly(st) /\ H([op |-> "interrupted", what |-> "reopen"])
       \/ st' = Upgrade(st) /\ st # Empty /\ (hist # <<>> => hist[Len(hist)].op # "reopen") /\ H([op |-> "reopen"])
Inv == OneIdentity(st) /\ Attached(st)
NoLoss == [][/\ Ids(st) \subseteq Ids(st') /\ Len(st.stats) <= Len(st'.stats)
             /\ \A m \in st.metrics : \E n \in st'.metrics : n.id = m.id /\ n.key = m.key /\ (m.file # "NULL" => n.file = m.file)]_<<st, hist>>
View == <<st, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
=============================================================================
