----------------------------- MODULE EphemTrace -----------------------------
EXTENDS Ephem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Plain == {"ra", "dec", "geo_dist", "vmag", "elongation"}
Missing(v) == v["ra"].k = "nan" /\ \A c \in DOMAIN v : v[c].k = "nan"
(* v: the values of one object at one time *)
FromSegment(s, t, v) ==
    /\ \A c \in Plain : Is(v[c], Value(s, c, t))
    /\ Is(v["dradt"], Rate(s, "ra", t))
    /\ Is(v["ddecdt"], Rate(s, "dec", t))
Right(e, q, row, j) ==
    LET t == q.times[j]
    IN \E k \in Which(e.segs, row.o, t, q.extrapolate) :
        IF k = 0 THEN Missing(row.v[j]) ELSE FromSegment(e.segs[k], t, row.v[j])
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SeqToSet(a) \cup SeqToSet(b) : Count(a, x) = Count(b, x)
Asked(e, q) == IF q.all THEN SetToSeq(Objects(e.segs)) ELSE q.ids
Query(e, q) ==
    IF \E o \in SeqToSet(Asked(e, q)) : o \notin Objects(e.segs)
    THEN IF q.raised = "ValueError" THEN {} ELSE {"unknown object"}
    ELSE IF q.raised # "" THEN {"raised"}
    ELSE (IF SameBag([k \in DOMAIN q.rows |-> q.rows[k].o], Asked(e, q)) THEN {} ELSE {"objects"})
         \cup (IF \A k \in DOMAIN q.rows : q.rows[k].times = q.times THEN {} ELSE {"times"})
         \cup (IF \A k \in DOMAIN q.rows : q.rows[k].o \in Objects(e.segs) /\ Len(q.rows[k].v) = Len(q.times)
                     /\ \A j \in DOMAIN q.times : Right(e, q, q.rows[k], j)
               THEN {} ELSE {"values"})
Bad(e) == UNION {Query(e, e.queries[k]) \cup (IF e.queries[k].kept THEN {} ELSE {"modifies its arguments"}) : k \in DOMAIN e.queries}
          \cup (IF e.kept THEN {} ELSE {"modifies the coefficients given"})
          \cup (IF e.raised = "" THEN {} ELSE {"raised"})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
