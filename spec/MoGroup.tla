------------------------------ MODULE MoGroup -------------------------------
(* Groups of metric bundles of moving objects.  A bundle has a constraint,  *)
(* stackers, a metric and possibly child metrics; its value for an object   *)
(* and an absolute magnitude is defined from the observations alone: those  *)
(* of the object that satisfy the bundle's own constraint, with the columns *)
(* of its own stackers.  Nothing else of the group matters.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Set(s) == {s[k] : k \in DOMAIN s}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Map(s, Op(_)) == [k \in DOMAIN s |-> Op(s[k])]

(* ------------------------------------------------------------ stackers --- *)
(* M: the apparent magnitude and visibility (p chooses the column of        *)
(* losses, or the magnitudes given with the observations); P and Q set the  *)
(* same column in different ways; so do R and U; T reads what these add.    *)
(* Magnitudes are in halves.                                                *)
Adds(cls) == CASE cls = "M" -> {"app", "vis"} [] cls \in {"P", "Q"} -> {"xp"} [] cls \in {"R", "U"} -> {"xr"} [] cls = "T" -> {"xt"}
Reqs(cls) == CASE cls = "T" -> {"xr"} [] OTHER -> {}
(* the stacker of S that sets column c *)
Setter(S, c) == CHOOSE s \in S : c \in Adds(s.cls)
RECURSIVE Col(_, _, _, _, _)
Col(S, o, c, h, ref) ==
    IF ~\E s \in S : c \in Adds(s.cls) THEN o[c]
    ELSE LET s == Setter(S, c)
             app == IF s.p = 2 THEN o.col + 2 ELSE o.m + o.col + (IF s.p = 0 THEN o.det ELSE o.tr) + h - ref
         IN CASE c = "app" -> app
              [] c = "vis" -> IF app < o.m5 THEN 1 ELSE 0
              [] c = "xp" -> IF s.cls = "P" THEN o.m + 10 * s.p + h - ref ELSE 2 * o.m + s.p + h
              [] c = "xr" -> IF s.cls = "R" THEN 3 * o.m - s.p + ref ELSE 5 * o.m + s.p - ref
              [] c = "xt" -> Col(S, o, "xr", h, ref) + 100 * s.p + h

(* ------------------------------------------------------------ values ----- *)
Selected(con, o) == CASE con.kind = "all" -> TRUE
                      [] con.kind = "night" -> o.night < con.n
                      [] con.kind = "band" -> o.band = con.s
                      [] con.kind = "both" -> o.band = con.s /\ o.night >= con.n
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* the value of one metric, or <<>> when there is none to give *)
Metric(m, S, rows, h, ref) ==
    LET v == CASE m.kind = "ids" -> SumSeq(Map(rows, LAMBDA o : Pow2(o.k)))
               [] m.kind = "sum" -> SumSeq(Map(rows, LAMBDA o : Col(S, o, m.col, h, ref)))
               [] m.kind = "seen" -> SumSeq(Map(rows, LAMBDA o : Col(S, o, "vis", h, ref)))
               [] m.kind = "hval" -> h
               [] m.kind = "orbit" -> ref
    IN IF v = m.bad THEN <<>> ELSE <<v>>
Hs(obj, hs) == IF hs = <<>> THEN <<obj.h>> ELSE hs
Value(b, m, obs, obj, h) ==
    LET rows == SelectSeq(obs, LAMBDA o : o.obj = obj.id /\ Selected(b.con, o))
    IN IF rows = <<>> THEN <<>> ELSE Metric(m, Set(b.st), rows, h, obj.h)
(* the table of a metric: for each object and magnitude *)
Table(b, m, obs, objs, hs) == [i \in DOMAIN objs |-> [j \in DOMAIN Hs(objs[i], hs) |-> Value(b, m, obs, objs[i], Hs(objs[i], hs)[j])]]
Flat(t) == FoldLeft(LAMBDA a, b : a \o b, <<>>, t)
Total(t) == SumSeq(Map(Flat(t), LAMBDA v : IF v = <<>> THEN 0 ELSE v[1]))

(* ------------------------------------------------------------ groups ----- *)
(* What may run at once: bundles of one constraint none of which sets a     *)
(* column that another one reads or sets in a different way.                *)
Reads(b) == {b.m[k].col : k \in {j \in DOMAIN b.m : b.m[j].kind = "sum"}} \cup UNION {Reqs(s.cls) \cup Adds(s.cls) : s \in Set(b.st)}
Compatible(a, b) ==
    /\ a.con = b.con
    /\ \A s \in Set(a.st) \ Set(b.st) : Adds(s.cls) \cap Reads(b) = {}
    /\ \A s \in Set(b.st) \ Set(a.st) : Adds(s.cls) \cap Reads(a) = {}
=============================================================================
