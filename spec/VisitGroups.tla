--------------------------- MODULE VisitGroups -----------------------------
(* Pairs of visits, groups of visits in a night, windows and lunations      *)
(* (property T01).  Times are whole numbers; a visit is [t, night].         *)
EXTENDS Rat

(* ---- pairs of single visits ---- *)
Paired(ts, lo, hi) == {k \in DOMAIN ts : \E j \in DOMAIN ts : RAbs(ts[j] - ts[k]) >= lo /\ RAbs(ts[j] - ts[k]) <= hi /\ j # k}
PairFraction(ts, lo, hi) == Norm(Cardinality(Paired(ts, lo, hi)), Len(ts))
(* pairs of time bins (counted from the first visit) that both have visits *)
BinsOf(ts, b) == {(ts[k] - MinS(ts)) \div b : k \in DOMAIN ts}
NPairs(ts, b, nmin, nmax) == Cardinality({p \in BinsOf(ts, b) \X BinsOf(ts, b) : p[2] - p[1] >= nmin /\ p[2] - p[1] <= nmax})

(* ---- visits of one night: t its times in order; gaps are good, close or wide ---- *)
Gap(t, k) == t[k + 1] - t[k]
GoodGap(t, k, p) == k \in 1 .. Len(t) - 1 /\ Gap(t, k) >= p.tmin /\ Gap(t, k) <= p.tmax
CloseGap(t, k, p) == k \in 1 .. Len(t) - 1 /\ Gap(t, k) < p.tmin
Full(t, p) == {k \in DOMAIN t : GoodGap(t, k, p) \/ GoodGap(t, k - 1, p)}
Half(t, p) == {k \in DOMAIN t : CloseGap(t, k, p) \/ CloseGap(t, k - 1, p)} \ Full(t, p)
(* half visits that hang together with full ones *)
RECURSIVE Spread(_, _, _)
Spread(t, S, p) == LET n == S \cup {k \in DOMAIN t : (k + 1 \in S /\ CloseGap(t, k, p)) \/ (k - 1 \in S /\ CloseGap(t, k - 1, p))}
                   IN IF n = S THEN S ELSE Spread(t, n, p)
Attached(t, p) == Spread(t, Full(t, p), p) \cap Half(t, p)
(* twice the number of visits of the night: loose close visits may or may not count *)
Low2(t, p) == 2 * Cardinality(Full(t, p)) + Cardinality(Attached(t, p))
High2(t, p) == IF Full(t, p) = {} THEN 0 ELSE 2 * Cardinality(Full(t, p)) + Cardinality(Half(t, p))
TimesOf(vs, n) == Sorted(Map(SelectSeq(vs, LAMBDA v : v.night = n), LAMBDA v : v.t))
Nights(vs) == {vs[k].night : k \in DOMAIN vs}
GroupNights(vs, p) == {n \in Nights(vs) : Full(TimesOf(vs, n), p) # {}}

(* ---- derived quantities, of a record r of nights (in order) and twice their visits ---- *)
Enough(r, p) == {k \in DOMAIN r.nights : r.two[k] >= 2 * p.minvisits}
Win(r, p, n) == {k \in Enough(r, p) : r.nights[k] >= n /\ r.nights[k] < n + p.window}
SumTwo(r, S) == FoldSet(LAMBDA k, a : r.two[k] + a, 0, S)
MedianVisits(r) == RMul(Median(r.two), Norm(1, 2))
NNights(r, p) == Cardinality(Enough(r, p))
MaxNights(r, p) == MaxS([k \in DOMAIN r.nights |-> Cardinality(Win(r, p, r.nights[k]))])
MaxVisits2(r, p) == MaxS([k \in DOMAIN r.nights |-> SumTwo(r, Win(r, p, r.nights[k]))])
LunLen == 30
LunOf(r, k) == (r.nights[k] - r.nights[1]) \div LunLen
Grouped(r, p) == {l \in 0 .. LunOf(r, Len(r.nights)) :
                    \E k \in DOMAIN r.nights : LunOf(r, k) = l /\ Cardinality({j \in Win(r, p, r.nights[k]) : LunOf(r, j) = l}) >= p.minnights}
NLunations(r, p) == Cardinality(Grouped(r, p))
MaxSeq(r, p) == LET G == Grouped(r, p) IN Max({0} \cup {n \in 1 .. Cardinality(G) : \E l \in G : l .. l + n - 1 \subseteq G})
=============================================================================
