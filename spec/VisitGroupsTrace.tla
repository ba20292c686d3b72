------------------------- MODULE VisitGroupsTrace --------------------------
EXTENDS VisitGroups, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Checks(e) ==
    CASE e.op = "fraction" -> [value |-> Is(e.g, PairFraction(e.ts, e.lo, e.hi))]
      [] e.op = "pairs" -> LET n == NPairs(e.ts, e.bin, e.nmin, e.nmax) IN [value |-> IF n = 0 THEN e.g.k = "bad" ELSE Is(e.g, Q(n))]
      [] e.op = "groups" ->
            LET gn == GroupNights(e.vs, e.p)
                none == gn = {}
                r == [nights |-> e.nights, two |-> e.two]
                Sane == ~none /\ ~e.bad /\ Len(e.nights) = Len(e.two) /\ e.nights # <<>>
            IN [none |-> e.bad = none,
                nights |-> Ints(e.nights) = gn /\ Len(e.nights) = Cardinality(gn) /\ Sorted(e.nights) = e.nights,
                visits |-> Sane => \A k \in DOMAIN e.nights : LET t == TimesOf(e.vs, e.nights[k]) IN Low2(t, e.p) <= e.two[k] /\ e.two[k] <= High2(t, e.p),
                median |-> Sane => Is(e.red.median, MedianVisits(r)),
                n_nights_with_n_visits |-> Sane => Is(e.red.n_nights_with_n_visits, Q(NNights(r, e.p))),
                n_visits_in_window |-> Sane => Is(e.red.n_visits_in_window, Norm(MaxVisits2(r, e.p), 2)),
                n_nights_in_window |-> Sane => Is(e.red.n_nights_in_window, Q(MaxNights(r, e.p))),
                n_lunations |-> Sane => Is(e.red.n_lunations, Q(NLunations(r, e.p))),
                max_seq_lunations |-> Sane => Is(e.red.max_seq_lunations, Q(MaxSeq(r, e.p)))]
Bad(e) == LET c == Checks(e) IN {k \in DOMAIN c : ~c[k]} \cup (IF e.same THEN {} ELSE {"order"}) \cup (IF e.kept THEN {} ELSE {"modified"})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
