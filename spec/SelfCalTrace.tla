---------------------------- MODULE SelfCalTrace ----------------------------
EXTENDS SelfCal, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Solve(e) ==
    LET K == Kept(e.obs)
        at(q, x) == CHOOSE k \in DOMAIN q : q[k] = x
    IN IF K = {} THEN IF e.raised # "" \/ (e.patches = <<>> /\ e.stars = <<>>) THEN {} ELSE {"kept"}
       ELSE IF e.raised # "" THEN {"raised"}
       ELSE IF e.stars # Ascending(Stars(K, e.obs)) \/ e.patches # Ascending(Patches(K, e.obs)) THEN {"kept"}
       ELSE IF \A k \in K : RAbs(e.zp[at(e.patches, e.obs[k].p)] + e.mag[at(e.stars, e.obs[k].s)] - e.obs[k].m) <= 3 THEN {} ELSE {"solution"}
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Make(e) ==
    IF e.raised # "" THEN {"raised"}
    ELSE LET want(turn) == Catalogue(e.stars, e.visits, e.n, e.offset, turn)
         IN IF /\ Len(e.rows) = Cardinality(want(1))
               /\ \/ SeqToSet(e.rows) = want(1) \/ SeqToSet(e.rows) = want(3)
            THEN {} ELSE {"catalogue"}
Errors(e) ==
    IF e.raised # "" THEN {}
    ELSE IF \A k \in DOMAIN e.errors :
              LET x == e.errors[k]
                  vs == {j \in DOMAIN e.visits : e.visits[j].id = x.p \div (e.n * e.n)}
              IN \A j \in vs : Uncertain(x.u, x.m - e.visits[j].deep, e.floor)
         THEN {} ELSE {"uncertainties"}
(* ten times as bright: 2.5 log10(1.02) / 2.5 log10(1.2) of the noise *)
Noise(e) == IF e.raised # "" THEN {"raised"}
            ELSE IF Len(e.ratios) = 12 /\ \A k \in DOMAIN e.ratios : RAbs(e.ratios[k] - 10861) <= 2 THEN {} ELSE {"noise"}
Bad(e) == (IF e.kept THEN {} ELSE {"modifies its arguments"}) \cup (CASE e.q = "solve" -> Solve(e) [] e.q = "make" -> Make(e) \cup Errors(e) [] e.q = "noise" -> Noise(e) [] e.q = "import" -> IF e.raised = "" THEN {} ELSE {"import"})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
