----------------------------- MODULE ResultsDb -----------------------------
(* The results database of an analysis: metrics with one identity each,     *)
(* their display, plot and summary records, queries, and the two schemas it *)
(* can be stored in.                                                        *)
(* metrics: set of [id, key, file]; key = [name, slicer, run, con, label];  *)
(* displays: set of [mid, group, subgroup, order, caption];                 *)
(* plots, stats: sequences in the order recorded of [mid, type, file] and   *)
(* [mid, name, val].                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [metrics |-> {}, displays |-> {}, plots |-> <<>>, stats |-> <<>>, schema |-> "new"]
Ids(st) == {m.id : m \in st.metrics}
Known(st, key) == {m \in st.metrics : m.key = key}
(* A metric that is already there stays as it was first recorded, but for   *)
(* its data file when that was not known then.                              *)
AddMetric(st, key, file, id) ==
    IF Known(st, key) = {} THEN [st EXCEPT !.metrics = @ \cup {[id |-> id, key |-> key, file |-> file]}]
    ELSE [st EXCEPT !.metrics = {IF m.key = key /\ m.file = "NULL" THEN [m EXCEPT !.file = file] ELSE m : m \in @}]
GoodId(st, key, id) == IF Known(st, key) = {} THEN id \notin Ids(st) ELSE id \in {m.id : m \in Known(st, key)}
SetDisplay(st, d, overwrite) ==
    IF ~overwrite /\ (\E x \in st.displays : x.mid = d.mid) THEN st
    ELSE [st EXCEPT !.displays = {x \in @ : x.mid # d.mid} \cup {d}]
AddPlot(st, p, overwrite) ==
    [st EXCEPT !.plots = Append(IF overwrite THEN SelectSeq(@, LAMBDA x : ~(x.mid = p.mid /\ x.type = p.type)) ELSE @, p)]
AddStats(st, ss) == [st EXCEPT !.stats = @ \o ss]
Upgrade(st) == [st EXCEPT !.schema = "new"]
Downgrade(st) == [st EXCEPT !.schema = "old"]
(* A change of schema that was cut short leaves it to be completed by the   *)
(* next to open the database.                                               *)
Partly(st) == [st EXCEPT !.schema = "partly"]
-----------------------------------------------------------------------------
(* Queries.  Names are sequences of characters where parts are searched for *)
Has(s, part) == \E k \in 0 .. Len(s) - Len(part) : SubSeq(s, k + 1, k + Len(part)) = part
HasPart(s, part) == Len(part) <= Len(s) /\ Has(s, part)
Key(st, id) == (CHOOSE m \in st.metrics : m.id = id).key
MatchIds(st, q) == {m.id : m \in {x \in st.metrics :
        /\ x.key.name = q.name /\ (q.slicer = "any" \/ x.key.slicer = q.slicer)
        /\ (q.label = "any" \/ x.key.label = q.label) /\ (q.run = "any" \/ x.key.run = q.run)}}
Stats(st, ids, keep(_)) == SelectSeq(st.stats, LAMBDA s : s.mid \in ids /\ keep(s))
Plots(st, ids) == SelectSeq(st.plots, LAMBDA p : p.mid \in ids)
Displays(st, ids) == {d \in st.displays : d.mid \in ids}
Bag(s) == [x \in {s[k] : k \in 1 .. Len(s)} |-> Cardinality({k \in 1 .. Len(s) : s[k] = x})]
-----------------------------------------------------------------------------
OneIdentity(st) == /\ \A m, n \in st.metrics : (m.id = n.id \/ m.key = n.key) => m = n
                   /\ \A x, y \in st.displays : x.mid = y.mid => x = y
Attached(st) == /\ \A d \in st.displays : d.mid \in Ids(st)
                /\ \A k \in 1 .. Len(st.plots) : st.plots[k].mid \in Ids(st)
                /\ \A k \in 1 .. Len(st.stats) : st.stats[k].mid \in Ids(st)
=============================================================================
