------------------------------ MODULE OorbTrace -----------------------------
(* a history of operations; each event carries what was seen after it *)
EXTENDS Oorb, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
Cell(g, type, o, t) == /\ DOMAIN g = SeqToSet(Columns(type)) \cup {"velocity"}
                       /\ \A n \in DOMAIN g : g[n] = Value(o, t, type, n)
Table(e, s) ==
    LET no == Len(s.objs)
        nt == Len(e.times)
    IN IF e.byobject
       THEN Len(e.rows) = no /\ \A k \in 1..no : Len(e.rows[k]) = nt /\ \A j \in 1..nt : Cell(e.rows[k][j], e.type, s.objs[k], e.times[j])
       ELSE Len(e.rows) = nt /\ \A j \in 1..nt : Len(e.rows[j]) = no /\ \A k \in 1..no : Cell(e.rows[j][k], e.type, s.objs[k], e.times[j])
(* what reached the integrator: e.sent (empty when it was not called) *)
Sent(e, s) ==
    e.op \notin {"convert", "propagate", "ephemerides"} \/ Len(e.sent) # 1
    \/ LET c == e.sent[1]
       IN /\ c.call = (CASE e.op = "convert" -> "convert" [] e.op = "propagate" -> "propagate" [] e.op = "ephemerides" -> IF e.type \in {"full", "FULL"} THEN "full" ELSE "basic")
          /\ Len(c.objs) = Len(s.objs)
          /\ \A k \in DOMAIN s.objs : /\ c.objs[k].el = s.objs[k].el /\ c.objs[k].epoch = s.objs[k].epoch /\ c.objs[k].h = s.objs[k].h /\ c.objs[k].g = s.objs[k].g
                                      /\ c.objs[k].code = Code(s.fmt) /\ c.objs[k].scale = Scale("TT") /\ c.objs[k].number = k
          /\ (e.op = "convert" => c.to = Code(e.fmt))
          /\ (e.op = "propagate" => c.mode = Mode(e.mode) /\ c.times = <<[t |-> e.epoch, scale |-> Scale("TT")]>>)
          /\ (e.op = "ephemerides" => c.mode = Mode(e.mode) /\ c.obscode = e.obscode /\ c.times = [k \in DOMAIN e.times |-> [t |-> e.times[k], scale |-> Scale(e.scale)]])
Read(e, s) ==
    /\ e.columns = SeqToSet(Names(s.fmt)) \cup {"epoch", "H", "g"}
    /\ Len(e.objs) = Len(s.objs)
    /\ \A k \in DOMAIN s.objs : /\ \A j \in 1..6 : e.objs[k][Names(s.fmt)[j]] = s.objs[k].el[j]
                                /\ e.objs[k]["epoch"] = s.objs[k].epoch /\ e.objs[k]["H"] = s.objs[k].h /\ e.objs[k]["g"] = s.objs[k].g
Found(e) == IF e.oorb THEN "oorb" ELSE IF e.conda /\ e.share THEN "conda" ELSE "none"
Ok(e) == e.raised = ""
Bad(e, s) ==
    (IF Ok(e) = Valid(e) THEN {} ELSE IF Ok(e) THEN {"errors"} ELSE {"raised"})
    \cup (IF Sent(e, s) /\ (Ok(e) /\ e.op \in {"convert", "propagate", "ephemerides"} => Len(e.sent) = 1) THEN {} ELSE {"what the integrator is given"})
    \cup (IF e.op = "ephemerides" /\ Ok(e) /\ ~Table(e, s) THEN {"ephemerides"} ELSE {})
    \cup (IF e.op = "read" /\ Ok(e) /\ ~Read([e EXCEPT !.columns = SeqToSet(e.columns)], s) THEN {"elements"} ELSE {})
    \cup (IF e.op = "data" /\ Ok(e) /\ (e.found # Found(e) \/ e.warned # (Found(e) = "none")) THEN {"data directory"} ELSE {})
    \cup (IF e.kept THEN {} ELSE {"modifies its arguments"})
TInit == i = 0 /\ st = Empty
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET e == Trace[i + 1]
                s == IF e.first THEN Empty ELSE st
                b == Bad(e, s)
            IN /\ st' = Result(s, e)
               /\ IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
