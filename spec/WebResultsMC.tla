---------------------------- MODULE WebResultsMC ----------------------------
(* Small databases: every metric is on exactly one page section, every plot *)
(* of a section is in its grid, every statistic in its table.               *)
EXTENDS WebResults, Json
CONSTANTS N
Names == {"b", "a_x"}
Kinds == [name : Names, group : {"G", "H"}, order : {0, 1}, plot : {"", "x_r_y", "x_g_y", "x_all"}, stat : {"", "Mean", "Zed"}]
VARIABLES chosen
Init == chosen = <<>>
Next == /\ Len(chosen) < N
        /\ \E k \in Kinds : chosen' = Append(chosen, k)
        /\ IF Len(chosen') = N THEN PrintT("@@" \o ToJson(chosen')) ELSE TRUE
R(s) == CASE s = "" -> 0 [] s = "G" -> 1 [] s = "H" -> 2 [] s = "S" -> 3 [] s = "a" -> 4 [] s = "b" -> 5 [] s = "l" -> 6 [] s = "Zed" -> 7
          [] s = "SkyMap" -> 8 [] OTHER -> 9
Db == [metrics |-> [k \in DOMAIN chosen |-> [id |-> k, name |-> chosen[k].name, slicer |-> "S", label |-> "l", group |-> chosen[k].group, subgroup |-> "S", order |-> chosen[k].order]],
       stats |-> LET s == SelectSeq([k \in DOMAIN chosen |-> [id |-> k, name |-> chosen[k].stat, val |-> "1"]], LAMBDA x : x.name # "") IN s,
       plots |-> SelectSeq([k \in DOMAIN chosen |-> [id |-> k, type |-> "SkyMap", file |-> chosen[k].plot \o "." \o ToString(k), thumb |-> ""]], LAMBDA x : ~(Len(x.file) = 2))]
Sections == {<<g.g, sg>> : g \in Set(Groups(Db, AllIds(Db), R)), sg \in {"S"}}
OneSection == \A m \in Set(Db.metrics) : Cardinality({p \in Sections : m.id \in Selected(Db, {p}, {})}) = 1
GridHolds == ~Crowded(Db.plots) => (\A p \in Set(Db.plots) : \E c \in Set(Grid(Db.plots)) : p.file \in Set(c)) /\ Len(Grid(Db.plots)) % 3 = 0
TableHolds == Set(StatNames(Db.stats, R)) = {s.name : s \in Set(Db.stats)} /\ Cardinality(Set(StatNames(Db.stats, R))) = Len(StatNames(Db.stats, R))
TypesHold == Set(PlotTypes(Db.plots, R)) = {p.type : p \in Set(Db.plots)}
=============================================================================
