------------------------------ MODULE MafStore ------------------------------
(* Metric results on disk.  A directory of results is a map from file paths *)
(* to what was saved; a bundle is saved under a name made from its identity;*)
(* reading gives what was last saved there.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Set(s) == {s[k] : k \in DOMAIN s}

(* ------------------------------------------------------------- strings --- *)
RECURSIVE Rep(_, _, _)
Rep(s, a, b) ==     (* every occurrence of a (not empty), from the left *)
    IF Len(s) < Len(a) THEN s
    ELSE IF SubSeq(s, 1, Len(a)) = a THEN b \o Rep(SubSeq(s, Len(a) + 1, Len(s)), a, b)
    ELSE SubSeq(s, 1, 1) \o Rep(SubSeq(s, 2, Len(s)), a, b)
RepAll(s, pairs) == FoldLeft(LAMBDA acc, p : Rep(acc, p[1], p[2]), s, pairs)
RECURSIVE Strip(_)
Strip(s) == IF s = "" THEN s
            ELSE IF SubSeq(s, 1, 1) = " " THEN Strip(SubSeq(s, 2, Len(s)))
            ELSE IF SubSeq(s, Len(s), Len(s)) = " " THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Low == "abcdefghijklmnopqrstuvwxyz"
Upp == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
At(s, k) == SubSeq(s, k, k)
UpChar(c) == IF \E k \in 1 .. 26 : At(Low, k) = c THEN At(Upp, CHOOSE k \in 1 .. 26 : At(Low, k) = c) ELSE c
Up(s) == FoldLeft(LAMBDA a, k : a \o UpChar(At(s, k)), "", [k \in 1 .. Len(s) |-> k])
Prefix(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

(* Characters that do not go in the name of a file.                         *)
Unfriendly == <<<<">", "gt">>, <<"<", "lt">>, <<"=", "eq">>, <<" ", "_">>, <<".", "_">>, <<",", "">>, <<"/", "_">>,
                <<"\\", "_">>, <<"(", "">>, <<")", "">>, <<":", "_">>, <<";", "_">>, <<"%", "_">>, <<"#", "_">>>>
RECURSIVE Single(_)
Single(s) == LET t == Rep(s, "__", "_") IN IF t = s THEN s ELSE Single(t)
Friendly(s) == Single(RepAll(s, Unfriendly))
FileRoot(run, name, label, kind) == Friendly(run \o "_" \o name \o "_" \o label \o "_" \o Up(Prefix(kind, 4)))
(* The label made from a constraint when none is given.                     *)
LabelOf(con) == Strip(RepAll(con, <<<<"=", "">>, <<"filter", "">>, <<"'", "">>, <<"band", "">>, <<"\"", "">>, <<"  ", " ">>>>))
PathOf(dir, root, suffix) == dir \o "/" \o root \o (IF suffix = "" THEN "" ELSE "_" \o suffix) \o ".npz"

(* ------------------------------------------------------------- slicers --- *)
(* What makes two slicers of a kind the same: the settings that decide      *)
(* which visits their slices hold.  A slicer is its kind, its settings      *)
(* (a function from names to terms) and, once set up, its points.           *)
Spatial == {"lon_col", "lat_col", "lat_lon_deg", "radius", "use_camera", "camera_radius", "camera_footprint_file", "rot_sky_pos_col_name"}
Keys(kind) == CASE kind = "UniSlicer" -> {}
                [] kind = "OneDSlicer" -> {"slice_col_name"}
                [] kind = "MovieSlicer" -> {"slice_col_name", "cumulative"}
                [] kind = "NDSlicer" -> {"slice_col_list"}
                [] kind = "HealpixSlicer" -> Spatial \cup {"nside", "use_cache"}
                [] kind = "HealpixSubsetSlicer" -> Spatial \cup {"nside", "use_cache", "hpid"}
                [] kind = "UserPointsSlicer" -> Spatial \cup {"ra", "dec"}
                [] kind = "TimeIntervalSlicer" -> {"interval_seconds", "mjd_column_name"}
                [] kind = "BlockIntervalSlicer" -> {"mjd_column_name", "duration_column_name", "note_column_name"}
                [] kind = "VisitIntervalSlicer" -> {"mjd_column_name", "duration_column_name", "extra_column_names"}
Binned == {"OneDSlicer", "MovieSlicer", "NDSlicer"}
Timed == {"TimeIntervalSlicer", "BlockIntervalSlicer", "VisitIntervalSlicer"}
Keyed(s) == [k \in Keys(s.kind) |-> s.set[k]]
(* "" says that the two need not be told apart or found equal: one was set  *)
(* up and not the other, or only one of them has its bins given.            *)
Same(a, b) ==
    IF a.kind # b.kind \/ Keyed(a) # Keyed(b) THEN "no"
    ELSE IF a.kind \notin Binned \cup Timed THEN "yes"
    ELSE IF a.up # b.up THEN (IF a.kind \in Timed THEN "yes" ELSE "")
    ELSE IF a.up THEN (IF a.points = b.points THEN "yes" ELSE "no")
    ELSE IF a.kind \in Timed \/ a.binning = b.binning THEN "yes"
    ELSE IF a.given = b.given THEN "no" ELSE ""

(* ------------------------------------------------------------- files ----- *)
(* A saved bundle is read back with masked values replaced by its slicer's  *)
(* bad value.                                                               *)
ReadBack(rec, bundled) == IF bundled THEN [rec EXCEPT !.fill = rec.badval] ELSE rec
(* A group made from a list is refused when two bundles have one file.      *)
Refused(roots) == Cardinality(Set(roots)) < Len(roots)

(* ------------------------------------------------------------- JSON ------ *)
(* The exported data of a slicer: points with their values, masked points   *)
(* left out (bins: as 0, and the last edge closes the list).                *)
Indices(m) == SelectSeq([k \in DOMAIN m |-> k], LAMBDA k : ~m[k])
Export(kind, edges, lons, lats, vals, mask) ==
    CASE kind = "bins" -> [k \in 1 .. Len(vals) + 1 |-> <<edges[k], IF k > Len(vals) THEN "0" ELSE IF mask[k] THEN "0" ELSE vals[k]>>]
      [] kind = "sky" -> LET s == Indices(mask) IN [k \in DOMAIN s |-> <<lons[s[k]], lats[s[k]], vals[s[k]]>>]
      [] kind = "one" -> IF mask[1] THEN <<>> ELSE <<<<vals[1]>>>>
(* Its labels: the given ones, or ones made from the names ("" is no label).*)
Units(name, units) == IF units = "-" THEN name ELSE name \o " (" \o units \o ")"
Header(e) ==
    [metric_name |-> e.name, info_label |-> e.label, sim_data_name |-> e.run, slicer_name |-> e.slicer, slicer_len |-> e.n,
     title |-> IF e.title # "" THEN e.title ELSE e.run \o " " \o e.label \o ": " \o e.name,
     xlabel |-> IF e.xlabel # "" THEN e.xlabel ELSE IF e.kind = "bins" THEN e.col \o " (" \o e.colunits \o ")" ELSE Units(e.name, e.units),
     ylabel |-> IF e.ylabel # "" THEN e.ylabel ELSE IF e.kind = "bins" THEN Units(e.name, e.units) ELSE ""]
=============================================================================
