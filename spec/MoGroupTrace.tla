---------------------------- MODULE MoGroupTrace ----------------------------
EXTENDS MoGroup, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
(* e: objects, observations, magnitudes, the bundles and what each ended    *)
(* with: the tables of its metric and children, as run and as read back     *)
(* from its file, its total, and the totals recorded in the database        *)
Bad(e) ==
    LET ok(name, x) == IF x THEN {} ELSE {name}
        hs(x) == IF e.other # <<>> /\ x = 1 THEN e.other ELSE e.hs
        bundle(b, g, x1) ==
            LET t(k) == Table(b, b.m[k], e.obs, e.objs, hs(x1))
                first == IF Len(b.m) > 1 THEN 2 ELSE 1
                given == IF Len(b.m) > 1 /\ b.m[1].kind = "sum" THEN t(1) ELSE <<>>
                (* children have no value where their parent has none *)
                child(k) == [x \in DOMAIN t(k) |-> [y \in DOMAIN t(k)[x] |-> IF t(1)[x][y] = <<>> THEN <<>> ELSE t(k)[x][y]]]
                want(k) == IF k = 1 THEN t(1) ELSE child(k)
                named(k) == CHOOSE n \in DOMAIN g.values : n = ToString(k)
                judged == {k \in DOMAIN b.m : ToString(k) \in DOMAIN g.values}
            IN ok("values", \A k \in judged : g.values[named(k)] = want(k))
               \cup ok("all metrics have values", e.ran => judged = DOMAIN b.m)
               \cup ok("values read back", \A k \in judged \cap {j \in DOMAIN b.m : ToString(j) \in DOMAIN g.files} : g.files[ToString(k)] = want(k))
               \cup ok("written", \A k \in judged : ToString(k) \in DOMAIN g.files)
               \cup ok("summary", \A k \in judged : IF k < first THEN g.sums[ToString(k)] = <<>> ELSE g.sums[ToString(k)] = <<Total(want(k))>>)
               \cup ok("recorded", \A k \in judged : IF k < first THEN g.db[ToString(k)] = <<>> ELSE g.db[ToString(k)] = <<Total(want(k))>>)
               \cup ok("magnitudes", e.ran => g.hs = (IF hs(x1) = <<>> THEN [x \in DOMAIN e.objs |-> e.objs[x].h] ELSE hs(x1)))
    IN (* bundles of different magnitudes may be refused *)
       IF e.raised # "" THEN (IF e.other # <<>> THEN {} ELSE {"raised"})
       ELSE UNION {bundle(e.group[k], e.got[k], k) : k \in DOMAIN e.group}
            \cup ok("observations are modified", e.kept)
            \cup ok("other constraints are run", \A k \in DOMAIN e.group : e.only = "" \/ e.group[k].con.kind = e.only \/ DOMAIN e.got[k].values = {})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
