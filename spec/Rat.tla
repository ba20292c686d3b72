------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers <<n, d>> in lowest terms with d > 0, used by the  *)
(* specifications of the metrics.                                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
RAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == Gcd(RAbs(n), RAbs(d))
              IN <<s * (n \div g), s * (d \div g)>>
Q(n) == <<n, 1>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET x == Norm(a[1], b[2])
                  y == Norm(b[1], a[2])
              IN <<x[1] * y[1], x[2] * y[2]>>
RInv(a) == Norm(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b) == RSgn(RSub(a, b)) < 0
RLe(a, b) == RSgn(RSub(a, b)) <= 0
RSqr(a) == RMul(a, a)
(* a number reported by the code: [k |-> "n", n |-> .., d |-> ..] in lowest terms, or another kind *)
IsNum(g) == g.k = "n"
Val(g) == <<g.n, g.d>>
Is(g, r) == IsNum(g) /\ Val(g) = r

(* statistics of a sequence of integers *)
Ints(s) == {s[k] : k \in DOMAIN s}
SeqToSet(s) == Ints(s)
SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Mean(s) == Norm(SumSeq(s), Len(s))
MaxS(s) == Max(Ints(s))
MinS(s) == Min(Ints(s))
Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
Keep(s, p(_)) == SelectSeq(s, p)
CountIf(s, p(_)) == Len(SelectSeq(s, p))
(* the value at fraction n/100 of the sorted values, interpolated linearly *)
Percentile(s, n) ==
    LET t == Sorted(s)
        pos == (Len(t) - 1) * n
        lo == pos \div 100
        fr == pos % 100
    IN IF fr = 0 THEN Q(t[lo + 1])
       ELSE RAdd(Q(t[lo + 1]), RMul(Norm(fr, 100), Q(t[lo + 2] - t[lo + 1])))
Median(s) == Percentile(s, 50)
(* variance (population) *)
Var(s) == LET n == Len(s) IN Norm(n * SumSeq(Map(s, LAMBDA x : x * x)) - SumSeq(s) * SumSeq(s), n * n)
=============================================================================
