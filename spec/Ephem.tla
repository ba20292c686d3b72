------------------------------- MODULE Ephem -------------------------------
(* Ephemerides kept as Chebyshev series over segments of time (C02).  A      *)
(* segment s belongs to object s.o, covers the times s.a <= t < s.b (whole   *)
(* numbers of 1/8 day) and has one series of coefficients per quantity.      *)
EXTENDS Rat
Of(segs, o) == {k \in DOMAIN segs : segs[k].o = o}
Objects(segs) == {segs[k].o : k \in DOMAIN segs}
At(segs, o, t) == {k \in Of(segs, o) : segs[k].a <= t /\ t < segs[k].b}
FirstOf(segs, o) == CHOOSE k \in Of(segs, o) : \A j \in Of(segs, o) : segs[k].a <= segs[j].a
LastOf(segs, o) == CHOOSE k \in Of(segs, o) : \A j \in Of(segs, o) : segs[k].b >= segs[j].b
(* The segments an ephemeris of o at t may come from; 0: there is no value.  *)
(* The very end of the coverage belongs to it; the end of a segment before a *)
(* gap may be counted either way.                                            *)
Which(segs, o, t, extrapolate) ==
    LET f == FirstOf(segs, o)
        l == LastOf(segs, o)
        ends == {k \in Of(segs, o) : segs[k].b = t}
    IN IF At(segs, o, t) # {} THEN At(segs, o, t)
       ELSE IF t = segs[l].b THEN {l}
       ELSE IF t < segs[f].a THEN {IF extrapolate THEN f ELSE 0}
       ELSE IF t > segs[l].b THEN {IF extrapolate THEN l ELSE 0}
       ELSE {0} \cup ends
(* Chebyshev series: value and rate at x in [-1, 1] *)
RECURSIVE T(_, _)
T(n, x) == IF n = 0 THEN Q(1) ELSE IF n = 1 THEN x ELSE RSub(RMul(RMul(Q(2), x), T(n - 1, x)), T(n - 2, x))
RECURSIVE DT(_, _)
DT(n, x) == IF n = 0 THEN Q(0) ELSE IF n = 1 THEN Q(1)
            ELSE RSub(RAdd(RMul(Q(2), T(n - 1, x)), RMul(RMul(Q(2), x), DT(n - 1, x))), DT(n - 2, x))
Series(p, x) == FoldSeq(LAMBDA k, acc : IF p[k] = 0 THEN acc ELSE RAdd(acc, RMul(Q(p[k]), T(k - 1, x))), Q(0), [k \in DOMAIN p |-> k])
Slope(p, x) == FoldSeq(LAMBDA k, acc : IF p[k] = 0 THEN acc ELSE RAdd(acc, RMul(Q(p[k]), DT(k - 1, x))), Q(0), [k \in DOMAIN p |-> k])
X(s, t) == Norm((2 * t) - s.a - s.b, s.b - s.a)
Value(s, c, t) == Series(s.c[c], X(s, t))
(* per day *)
Rate(s, c, t) == RMul(Slope(s.c[c], X(s, t)), Norm(16, s.b - s.a))
=============================================================================
