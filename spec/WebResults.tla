----------------------------- MODULE WebResults -----------------------------
(* The pages that show the results of an analysis.  A database is metrics   *)
(* (sequence of [id, name, slicer, label, group, subgroup, order, caption,  *)
(* file]), stats ([id, name, val]) and plots ([id, type, file, thumb]).     *)
(* R(s) is the position of a string in their order.                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Set(s) == {s[k] : k \in DOMAIN s}
Has(s, t) == \E k \in 1 .. Len(s) - Len(t) + 1 : SubSeq(s, k, k + Len(t) - 1) = t
At(s, k) == SubSeq(s, k, k)
Base(s) == IF ~Has(s, "_") THEN s
           ELSE SubSeq(s, 1, (CHOOSE k \in 1 .. Len(s) : At(s, k) = "_" /\ \A j \in 1 .. k - 1 : At(s, j) # "_") - 1)

(* -------------------------------------------------------------- order --- *)
Lex(p, q) == \E k \in 1 .. Len(p) : p[k] < q[k] /\ \A j \in 1 .. k - 1 : p[j] = q[j]
Key(m, how, R(_)) ==
    CASE how = "page" -> <<R(m.group), R(m.subgroup), R(Base(m.name)), R(m.slicer), m.order, R(m.label)>>
      [] how = "stats" -> <<R(m.group), R(m.subgroup), R(m.slicer), m.order, R(m.label), R(Base(m.name))>>
      [] how = "order" -> <<m.order>>
Sorted(ms, how, R(_)) == \A j, k \in DOMAIN ms : j < k => ~Lex(Key(ms[k], how, R), Key(ms[j], how, R))
(* A list of identifiers shows the metrics with P, each once, in order.     *)
Metric(db, id) == db.metrics[CHOOSE k \in DOMAIN db.metrics : db.metrics[k].id = id]
AllIds(db) == {m.id : m \in Set(db.metrics)}
Shows(db, ids, P(_), how, R(_)) ==
    /\ Set(ids) = {m.id : m \in {x \in Set(db.metrics) : P(x)}}
    /\ Cardinality(Set(ids)) = Len(ids)
    /\ (how # "any" => Sorted([k \in DOMAIN ids |-> Metric(db, ids[k])], how, R))
InOrder(S, R(_)) == SetToSortSeq(S, LAMBDA a, b : R(a) < R(b))
Groups(db, ids, R(_)) ==
    LET ms == {m \in Set(db.metrics) : m.id \in ids}
        gs == InOrder({m.group : m \in ms}, R)
    IN [k \in DOMAIN gs |-> [g |-> gs[k], sgs |-> InOrder({m.subgroup : m \in {x \in ms : x.group = gs[k]}}, R)]]

(* -------------------------------------------------------- statistics ---- *)
StatOrder == <<"Id", "Identity", "Median", "Mean", "Rms", "RobustRms", "N(-3Sigma)", "N(+3Sigma)", "Count", "25th%ile", "75th%ile", "Min", "Max">>
LastNames == <<"TableFraction 1 == P", "TableFraction 1 < P">>
IsTable(s) == Has(s, "TableFraction") /\ SubSeq(s, 1, 13) = "TableFraction"
(* Names that are not shown: statistics of moving objects at every size.    *)
Skipped(s) == \E t \in {"Completeness@Time", "Completeness H", "FractionPop "} : Has(s, t)
StatsOf(db, ids) == SelectSeq(db.stats, LAMBDA s : s.id \in ids /\ ~Skipped(s.name))
StatNames(ss, R(_)) ==
    LET names == {s.name : s \in Set(ss)}
        known == Set(StatOrder)
        tables == {n \in names : IsTable(n)} \ ({"TableFraction 0 == P"} \cup Set(LastNames))
        rest == {n \in names : n \notin known /\ ~IsTable(n)}
        Kept(s) == SelectSeq(s, LAMBDA n : n \in names)
    IN Kept(StatOrder) \o Kept(<<"TableFraction 0 == P">>) \o InOrder(tables, R) \o Kept(LastNames) \o InOrder(rest, R)
Value(ss, name) == ss[CHOOSE k \in DOMAIN ss : ss[k].name = name /\ \A j \in DOMAIN ss : ss[j].name = name => k <= j].val

(* -------------------------------------------------------------- plots --- *)
PlotsOf(db, ids) == SelectSeq(db.plots, LAMBDA p : p.id \in ids)
PlotOrder == <<"SkyMap", "Histogram", "PowerSpectrum", "Combo">>
PlotTypes(ps, R(_)) == LET ts == {p.type : p \in Set(ps)}
                       IN SelectSeq(PlotOrder, LAMBDA t : t \in ts) \o InOrder(ts \ Set(PlotOrder), R)
(* What is shown of plots: per type, in order, the files and thumbnails.    *)
Files2(ps) == {<<p.file, p.thumb>> : p \in Set(ps)}
ShowsPlots(got, ps, R(_)) ==
    LET ts == PlotTypes(ps, R)
    IN /\ [k \in DOMAIN got |-> got[k].type] = ts
       /\ \A k \in DOMAIN got : Set(got[k].files) = Files2(SelectSeq(ps, LAMBDA p : p.type = ts[k])) /\ Len(got[k].files) = Cardinality(Set(got[k].files))
(* The same, told by a row of pictures only.                                *)
InRow(row, ps, R(_)) ==
    LET ts == PlotTypes(ps, R)
        TypeOf(x) == (CHOOSE p \in Set(ps) : p.file = x[1]).type
        RankOf(x) == CHOOSE k \in DOMAIN ts : ts[k] = TypeOf(x)
    IN Set(row) = Files2(ps) /\ Len(row) = Cardinality(Set(row)) /\ \A j, k \in DOMAIN row : j < k => RankOf(row[j]) <= RankOf(row[k])
(* The grid of sky maps: one place per band, in order, then the others; or  *)
(* one place per metric when a band has several; in rows of three.          *)
Bands == <<"u", "g", "r", "i", "z", "y">>
OfBand(ps, b) == SelectSeq(ps, LAMBDA p : Has(p.file, "_" \o b \o "_"))
Files(ps) == [k \in DOMAIN ps |-> ps[k].file]
Pad(s) == s \o [k \in 1 .. ((3 - (Len(s) % 3)) % 3) |-> <<>>]
Crowded(ps) == \E b \in Set(Bands) : Len(OfBand(ps, b)) > 1
Grid(ps) ==
    LET other == SelectSeq(ps, LAMBDA p : ~\E b \in Set(Bands) : Has(p.file, "_" \o b \o "_"))
    IN IF ps = <<>> THEN <<>>
       ELSE Pad([k \in 1 .. 6 |-> Files(OfBand(ps, Bands[k]))] \o [k \in DOMAIN other |-> <<other[k].file>>])
(* In a crowded grid the places are those of the metrics, in their order.   *)
CrowdedGrid(db, ps, places, R(_)) ==
    LET ms == {p.id : p \in Set(ps)}
        full == SelectSeq(places, LAMBDA x : x # <<>>)
        OwnerOf(files) == (CHOOSE p \in Set(ps) : p.file = files[1]).id
    IN /\ Len(full) = Cardinality(ms) /\ {OwnerOf(full[k]) : k \in DOMAIN full} = ms
       /\ \A k \in DOMAIN full : Set(full[k]) = {p.file : p \in {x \in Set(ps) : x.id = OwnerOf(full[k])}}
       /\ Sorted([k \in DOMAIN full |-> Metric(db, OwnerOf(full[k]))], "order", R)
       /\ places = Pad(full)

(* -------------------------------------------------------------- tables -- *)
(* The cells of the statistics tables: one table for each group, subgroup   *)
(* and slicer with statistics, a row per metric and a column per statistic  *)
(* (or the other way round); with one statistic only, a row per label and a *)
(* column per name.                                                         *)
SecOf(m) == <<m.group, m.subgroup, m.slicer>>
CellsOf(db, sec) == LET ms == {m \in Set(db.metrics) : SecOf(m) = sec}
                    IN UNION {{[name |-> m.name, label |-> m.label, stat |-> s.name, val |-> s.val] : s \in Set(StatsOf(db, {m.id}))} : m \in ms}
Single(cells) == Cardinality({c.stat : c \in cells}) = 1
NameLabel(c) == <<c.name, c.label>>
TablesHold(db, tables) ==
    LET secs == {SecOf(m) : m \in {x \in Set(db.metrics) : StatsOf(db, {x.id}) # <<>>}}
    IN /\ {t.sec : t \in Set(tables)} = secs /\ Len(tables) = Cardinality(secs)
       /\ \A t \in Set(tables) :
            LET want == CellsOf(db, t.sec)
                got == Set(t.cells)
            IN IF Single(want) THEN /\ Len(t.cells) = Cardinality(got)
                                    /\ \A c \in got : \E w \in want : NameLabel(c) = NameLabel(w) /\ c.val = w.val
                                    /\ {NameLabel(c) : c \in got} = {NameLabel(w) : w \in want} /\ Cardinality({NameLabel(c) : c \in got}) = Len(t.cells)
               ELSE got = want
(* ---------------------------------------------------------- selection --- *)
WithType(db, t) == {p.id : p \in {x \in Set(db.plots) : x.type = t}}
WithStat(db, n) == {s.id : s \in {x \in Set(db.stats) : x.name = n /\ ~Skipped(n)}}
WithStats(db) == {s.id : s \in {x \in Set(db.stats) : ~Skipped(x.name)}}
Selected(db, pairs, ids) == ids \cup {m.id : m \in {x \in Set(db.metrics) : \E p \in pairs : x.group = p[1] /\ x.subgroup = p[2]}}
=============================================================================
