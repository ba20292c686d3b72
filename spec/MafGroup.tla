------------------------------ MODULE MafGroup ------------------------------
(* Metric bundles: what a bundle's result is, whatever it is run with.      *)
(* A bundle is a metric, a slicer, a constraint, stackers and maps.  Its    *)
(* result is defined from the visits alone: select the visits that satisfy  *)
(* its own constraint, add the columns of its own stackers, and apply its   *)
(* metric to the visits of each slice point.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Set(s) == {s[k] : k \in DOMAIN s}

(* ------------------------------------------------------------ stackers --- *)
(* Stackers as known to the column registry (a column has a default one),   *)
(* and others which only a bundle's own list provides.                      *)
Adds(cls) == CASE cls = "A" -> {"xa"} [] cls = "B" -> {"xb"} [] cls = "D" -> {"xd"} [] cls = "E" -> {"xe"}
               [] cls = "M" -> {"xa"} [] cls = "O" -> {"y"}  [] cls = "C" -> {"xc"} [] cls = "N" -> {"xn"}
Reqs(cls) == CASE cls = "A" -> {"x"}  [] cls = "B" -> {"xa"} [] cls = "D" -> {"night"} [] cls = "E" -> {"xb", "xd"}
               [] cls = "M" -> {"x"}  [] cls = "O" -> {"y"}  [] cls = "C" -> {"y"}  [] cls = "N" -> {"x", "xa"}
Default == [xa |-> "A", xb |-> "B", xd |-> "D", xe |-> "E"]
AddsAll(S) == UNION {Adds(s.cls) : s \in S}
ReqsAll(S) == UNION {Reqs(s.cls) : s \in S}

(* The stackers of a bundle: its own, and default ones for derived columns  *)
(* that are needed (by metric, slicer or a stacker) and that nobody adds.   *)
RECURSIVE Resolve(_, _)
Resolve(S, cols) ==
    LET need == {c \in cols \cup ReqsAll(S) : c \in DOMAIN Default /\ c \notin AddsAll(S)}
    IN IF need = {} THEN S ELSE Resolve(S \cup {[cls |-> Default[c], p |-> 0] : c \in need}, cols)
(* The columns to ask the database for: the needed ones no stacker supplies *)
(* (a stacker that reads a column before replacing it does not supply it).  *)
DbCols(S, cols) == {c \in cols \cup ReqsAll(S) : ~\E s \in S : c \in Adds(s.cls) \ Reqs(s.cls)}
(* A list of stackers is in order when each finds its inputs.               *)
InOrder(list, S, cols) ==
    \A k \in DOMAIN list : \A c \in Reqs(list[k].cls) :
        \/ c \in DbCols(S, cols)
        \/ \E j \in 1 .. k - 1 : c \in Adds(list[j].cls)

(* ------------------------------------------------------------ values ----- *)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
RECURSIVE Col(_, _, _, _)
Col(S, rows, k, c) ==
    IF ~\E s \in S : c \in Adds(s.cls) THEN rows[k][c]
    ELSE LET s == CHOOSE t \in S : c \in Adds(t.cls)
             In(d) == Col(S, rows, k, d)
         IN CASE s.cls = "A" -> In("x") + 10 * s.p
              [] s.cls = "M" -> In("x") * (s.p + 2)
              [] s.cls = "B" -> 2 * In("xa") + s.p
              [] s.cls = "D" -> Cardinality({j \in DOMAIN rows : rows[j].night = rows[k].night}) + s.p
              [] s.cls = "E" -> In("xb") + In("xd") + s.p
              [] s.cls = "O" -> rows[k].y + 100 + s.p
              [] s.cls = "C" -> In("y") - s.p
              [] s.cls = "N" -> 3 * In("x") + In("xa") + s.p

Selected(con, v) == CASE con.kind = "all" -> TRUE
                      [] con.kind = "night" -> v.night < con.n
                      [] con.kind = "band" -> v.band = con.s
                      [] con.kind = "both" -> v.band = con.s /\ v.night >= con.n
Rows(con, visits) == SelectSeq(visits, LAMBDA v : Selected(con, v))

MaxOf(S) == Max(S)
InBin(v, edges, j, open) == edges[j] <= v /\ (v < edges[j + 1] \/ (open /\ j = Len(edges) - 1))
NSlices(sl) == CASE sl.kind = "uni" -> 1
                 [] sl.kind = "oned" -> Len(sl.edges[1]) - 1
                 [] sl.kind = "nd" -> (Len(sl.edges[1]) - 1) * (Len(sl.edges[2]) - 1)
                 [] sl.kind = "points" -> Len(sl.pts)
SlicerCols(sl) == CASE sl.kind = "uni" -> {}
                    [] sl.kind \in {"oned", "nd"} -> Set(sl.cols)
                    [] sl.kind = "points" -> {"fieldRA", "fieldDec", "rotSkyPos"}
(* The visits of slice k.  Fields and points are at whole degrees on the    *)
(* equator, so that the distance is the difference of the right ascensions. *)
InSlice(S, rows, sl, k, j) ==
    CASE sl.kind = "uni" -> TRUE
      [] sl.kind = "oned" -> InBin(Col(S, rows, j, sl.cols[1]), sl.edges[1], k, FALSE)
      [] sl.kind = "nd" -> LET n == Len(sl.edges[2]) - 1
                           IN /\ InBin(Col(S, rows, j, sl.cols[1]), sl.edges[1], ((k - 1) \div n) + 1, TRUE)
                              /\ InBin(Col(S, rows, j, sl.cols[2]), sl.edges[2], ((k - 1) % n) + 1, TRUE)
      [] sl.kind = "points" -> LET d == rows[j].fieldRA - sl.pts[k]
                               IN 100 * (IF d < 0 THEN -d ELSE d) <= sl.radius
Members(S, rows, sl, k) == SelectSeq([j \in 1 .. Len(rows) |-> j], LAMBDA j : InSlice(S, rows, sl, k, j))

(* Metric values, as sequences of integers (twice the value for scalars);   *)
(* the empty sequence stands for a masked value.                            *)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
MapValue(maps, k) == (IF "P" \in maps THEN 3 + 10 * (k - 1) ELSE 0) + (IF "Q" \in maps THEN 7 * (k - 1) ELSE 0)
Metric(m, vals, maps, k) ==
    LET n == Len(vals)
        t == SumSeq(vals)
        s == Sorted(vals)
    IN CASE m.kind = "count" -> <<2 * n>>
         [] m.kind = "sum" -> <<2 * t>>
         [] m.kind = "max" -> <<2 * MaxOf(Set(vals))>>
         [] m.kind = "min" -> <<2 * Min(Set(vals))>>
         [] m.kind = "range" -> <<2 * (MaxOf(Set(vals)) - Min(Set(vals)))>>
         [] m.kind = "median" -> <<s[(n + 1) \div 2] + s[(n + 2) \div 2]>>
         [] m.kind = "unique" -> <<2 * Cardinality(Set(vals))>>
         [] m.kind = "bad" -> IF n % 2 = 1 THEN <<>> ELSE <<2 * t>>
         [] m.kind = "map" -> <<2 * (n + MapValue(maps, k))>>
         [] m.kind \in {"pair", "twin"} -> IF t % 3 = 0 THEN <<>> ELSE <<n, t>>
         [] m.kind = "vec" -> <<2 * n, 2 * t>>
MetricCols(m) == IF m.kind \in {"map"} THEN {m.col} ELSE {m.col}

Cols(b) == MetricCols(b.metric) \cup SlicerCols(b.slicer)
Stackers(b) == Resolve(Set(b.stk), Cols(b))
ValuesOf(b, visits) ==
    LET rows == Rows(b.con, visits)
        S == Stackers(b)
    IN [k \in 1 .. NSlices(b.slicer) |->
          LET idx == Members(S, rows, b.slicer, k)
              vals == [j \in DOMAIN idx |-> Col(S, rows, idx[j], b.metric.col)]
          IN IF idx = <<>> THEN <<>> ELSE Metric(b.metric, vals, Set(b.maps), k)]
HasData(b, visits) == Rows(b.con, visits) # <<>>

(* Reduce functions of the "pair" and "twin" metrics, values doubled as for scalars.    *)
ReduceNames(m) == CASE m.kind = "pair" -> {"count", "odd", "total"} [] m.kind = "twin" -> {"total"} [] OTHER -> {}
Reduced(name, v) ==
    IF v = <<>> THEN <<>>
    ELSE CASE name = "count" -> <<2 * v[1]>>
           [] name = "total" -> <<2 * v[2]>>
           [] name = "odd" -> IF v[2] % 2 = 0 THEN <<>> ELSE <<2 * v[2] * v[1]>>
ReducedOf(name, values) == [k \in DOMAIN values |-> Reduced(name, values[k])]

(* Summary metrics over the (doubled) scalar values that are not masked, or *)
(* over all values with the masked ones replaced by a given number.         *)
Scalars(values) == LET u == SelectSeq(values, LAMBDA v : v # <<>>) IN [k \in DOMAIN u |-> u[k][1]]
Filled(values, x) == [k \in DOMAIN values |-> IF values[k] = <<>> THEN x ELSE values[k][1]]
Summary(sm, values) ==
    LET u == IF sm.mask # <<>> THEN Filled(values, 2 * sm.mask[1]) ELSE Scalars(values)
    IN IF u = <<>> THEN <<>>
       ELSE CASE sm.kind = "sum" -> <<SumSeq(u)>>
              [] sm.kind = "max" -> <<MaxOf(Set(u))>>
              [] sm.kind = "min" -> <<Min(Set(u))>>
              [] sm.kind = "count" -> <<2 * Len(u)>>
              [] sm.kind = "unique" -> <<2 * Cardinality(Set(u))>>
              [] sm.kind = "identity" -> IF Len(u) = 1 THEN <<u[1]>> ELSE u
=============================================================================
