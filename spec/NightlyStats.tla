---------------------------- MODULE NightlyStats ----------------------------
(* Nightly statistics of a table of visits, defined on exact integers:      *)
(* values are integers, times are thousandths of a day, quantiles are       *)
(* reported times 20 (all the quantiles used are multiples of 1/20).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SeqToSet(s) == {s[k] : k \in 1 .. Len(s)}
NA == -99999

(* A visit's night: given, or the UTC-12h civil day of its start.           *)
NightOf(v, given) == IF given THEN v.night ELSE (v.t - 50000) \div 100000

RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE Sort(_)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), Head(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE SumSq(_)
SumSq(s) == IF s = <<>> THEN 0 ELSE Head(s) * Head(s) + SumSq(Tail(s))
Quantile20(s, k) ==       \* s sorted, quantile k/20, times 20
    LET p == (Len(s) - 1) * k
        lo == p \div 20
        r == p % 20
    IN 20 * s[lo + 1] + (IF r = 0 THEN 0 ELSE r * (s[lo + 2] - s[lo + 1]))

Vals(visits, given, night, col) ==
    Sort(SelectSeq([k \in 1 .. Len(visits) |->
                      IF NightOf(visits[k], given) = night THEN visits[k].x[col] ELSE NA],
                   LAMBDA z : z # NA))
StatRow(visits, given, night, col) ==
    LET s == Vals(visits, given, night, col)
        n == Len(s)
    IN IF n = 0 THEN [night |-> night, col |-> col, count |-> 0, sum |-> NA, var |-> NA, min |-> NA, max |-> NA,
                      p05 |-> NA, q1 |-> NA, median |-> NA, q3 |-> NA, p95 |-> NA, acc |-> FALSE]
       ELSE [night |-> night, col |-> col, count |-> n, sum |-> Sum(s),
             var |-> IF n = 1 THEN NA ELSE n * SumSq(s) - Sum(s) * Sum(s),
             min |-> s[1], max |-> s[n],
             p05 |-> Quantile20(s, 1), q1 |-> Quantile20(s, 5), median |-> Quantile20(s, 10),
             q3 |-> Quantile20(s, 15), p95 |-> Quantile20(s, 19), acc |-> FALSE]
Nights(visits, given) == {NightOf(visits[k], given) : k \in 1 .. Len(visits)}
Stats(visits, given, cols) ==
    {StatRow(visits, given, n, c) : n \in Nights(visits, given), c \in SeqToSet(cols)}
=============================================================================
