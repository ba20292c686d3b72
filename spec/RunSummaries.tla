---------------------------- MODULE RunSummaries ----------------------------
(* Gathering the summary values of many runs into one table, selecting from *)
(* such a table, and normalizing it to a baseline.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* A record: [run, stat, metric, label, slicer, val]; dirs: sequence of     *)
(* sequences of records, <<>> where there are no results.                   *)
Sp(a, b) == IF b = "" THEN a ELSE a \o " " \o b
Column(r) == Sp(Sp(Sp(r.stat, r.metric), r.label), r.slicer)
RECURSIVE Flat(_)
Flat(ds) == IF ds = <<>> THEN <<>> ELSE Head(ds) \o Flat(Tail(ds))
Set(s) == {s[k] : k \in 1 .. Len(s)}
Rows(ds) == {r.run : r \in Set(Flat(ds))}
Cols(ds) == {Column(r) : r \in Set(Flat(ds))}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Cell(ds, run, col) ==
    LET f == Flat(ds)
        at == {k \in 1 .. Len(f) : f[k].run = run /\ Column(f[k]) = col /\ f[k].val # "null"}
    IN IF at = {} THEN "null" ELSE f[Max(at)].val
-----------------------------------------------------------------------------
(* Selecting.  Sequences of names; fams and subs map names to sequences.    *)
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>> \o Dedup(SelectSeq(Tail(s), LAMBDA x : x # s[1]))
RECURSIVE Expand(_, _)
Expand(names, m) == IF names = <<>> THEN <<>> ELSE m[names[1]] \o Expand(Tail(names), m)
(* have: what the table has, in its order; asked: what is asked for.        *)
Selected(have, asked, order) ==
    IF asked = <<>> THEN have
    ELSE IF order = "summary" THEN SelectSeq(have, LAMBDA x : x \in Set(asked))
    ELSE Dedup(SelectSeq(asked, LAMBDA x : x \in Set(have)))
-----------------------------------------------------------------------------
(* Normalizing value v of a metric to the value b of the baseline, as a     *)
(* fraction <<numerator, denominator>>.                                     *)
Norm(v, b, invert, mag) ==
    CASE invert /\ mag -> <<1 + b - v, 1>>
      [] invert -> <<b, v>>
      [] mag -> <<1 + v - b, 1>>
      [] OTHER -> <<v, b>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* r: the result in units of 1/Scale, rounded.                              *)
Scale == 10000
IsNorm(r, f) == Abs(r * f[2] - f[1] * Scale) <= Abs(f[2])
(* Twice the median of a sequence of integers.                              *)
Median2(s) ==
    LET n == Len(s)
        Rank(k) == CHOOSE v \in Set(s) : Cardinality({j \in 1 .. n : s[j] < v}) < k /\ k <= Cardinality({j \in 1 .. n : s[j] <= v})
    IN Rank((n + 1) \div 2) + Rank((n \div 2) + 1)
=============================================================================
