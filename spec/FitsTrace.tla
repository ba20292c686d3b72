----------------------------- MODULE FitsTrace ------------------------------
EXTENDS Fits, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
(* x: what was made of one object *)
Object(e, x) ==
    (IF Tiles(x.kept \o x.failed, 0, e.span) THEN {} ELSE {"coverage"})
    \cup (IF Nested(x.kept \o x.failed, 0, e.len, 16) THEN {} ELSE {"longer than the first length"})
    \cup (IF \A k \in DOMAIN x.kept : x.kept[k].close THEN {} ELSE {"tolerance"})
    \cup (IF \A k \in DOMAIN x.kept : x.kept[k].ends THEN {} ELSE {"values at the ends"})
    \cup (IF \A k \in DOMAIN x.kept : x.kept[k].residuals THEN {} ELSE {"residuals"})
    \cup (IF \A k \in DOMAIN x.kept : x.kept[k].terms THEN {} ELSE {"terms of the series"})
    \cup (IF Justified(x.failed, x.hopeless) THEN {} ELSE {"given up without reason"})
    \cup (IF Usable(x.kept, x.never) THEN {} ELSE {"kept without values"})
Bad(e) == IF e.fails THEN IF e.raised # "" THEN {} ELSE {"errors of the integrator"}
          ELSE IF e.raised # "" THEN {"raised"}
          ELSE UNION {Object(e, e.objects[k]) : k \in DOMAIN e.objects}
               \cup (IF e.others = 0 THEN {} ELSE {"other objects"})
               \cup (IF e.len <= e.first THEN {} ELSE {"length grows"})
               \cup (IF Divides(e.len, e.span) THEN {} ELSE {"length does not divide the span"})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
