---------------------------- MODULE VsRunTrace ----------------------------
EXTENDS VsRun, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
(* JSON has no sets: files and reward tables come as lists.                 *)
R(j) == [j EXCEPT !.files = Range(@), !.rew = Range(@)]
Final(e) == IF e.run.rnd THEN [R(e.run) EXCEPT !.end = -1, !.visits = e.got.visits] ELSE R(e.run)
StepSt(e) ==
    CASE e.op = "reset" -> Empty
      [] e.op = "save" -> IF e.ok THEN Save(st, e.dir, Final(e)) ELSE st
      [] OTHER -> st
Got(e, c) == [x |-> c, g |-> e.got]
Reading(g) == [visits |-> g.visits, rew |-> Range(g.rew), files |-> Range(g.files), tags |-> g.tags, label |-> g.label,
               meta |-> g.meta, nights |-> g.nights, kw |-> g.kw]
SaveChecks(e) ==
    IF ~e.ok THEN [ok |-> FALSE]
    ELSE LET r == Final(e)
             c == Contents(st, r)
             g == Reading(e.got)
             n == e.got.names
         IN [visits |-> g.visits = c.visits,
             possible |-> e.run.rnd => PossibleVisits(R(e.run), g.visits),
             varied |-> (e.run.rnd /\ e.run.slew > 0) => Varied(R(e.run), g.visits),
             again |-> e.again = <<>> \/ e.again = g.visits,
             returned |-> e.returned = g.visits,
             rewards |-> g.rew = c.rew,
             files |-> g.files = c.files,
             names |-> Cardinality(Range(n)) = Len(n),
             hashes |-> e.got.hashes,
             statistics |-> e.got.stats = (IF c.visits = <<>> THEN <<0, -1, -1>>
                                           ELSE <<Len(c.visits), Min(Range(c.visits)), Max(Range(c.visits))>>),
             tags |-> g.tags = c.tags,
             label |-> g.label = c.label,
             metadata |-> g.meta = c.meta,
             nights |-> g.nights = c.nights,
             kwargs |-> g.kw = c.kw,
             fresh |-> e.fresh => e.dir \notin DOMAIN st.dirs,
             dicts |-> e.dictsok,
             others |-> \A k \in 1 .. Len(e.others) : LET o == e.others[k] IN
                           (o.dir # e.dir /\ o.dir \in DOMAIN st.dirs) => (o.exists /\ Reading(o) = st.dirs[o.dir])]
(* One offset: times in 1/64 second; known: the overhead can be computed.   *)
Wanted(e) == LET o == (e.slew * e.loc) + e.scat
                 m == e.slew + e.visit - e.exp
             IN IF e.known /\ m + o < e.min THEN e.min - m ELSE o
OverChecks(e) ==
    IF ~e.ok THEN [ok |-> FALSE]
    ELSE [offset |-> e.off = Wanted(e), plain |-> e.plain]
(* A sequence of random offsets (times in 1/1000 second, so one may be off  *)
(* by one): twice for the same seed, and with slews twice as long.          *)
RndChecks(e) ==
    IF ~e.ok THEN [ok |-> FALSE]
    ELSE LET m == e.slew + e.visit - e.exp IN
         [same |-> e.a = e.b,
          differ |-> e.varies => e.a # e.c,
          minimum |-> \A k \in 1 .. Len(e.a) : m + e.a[k] >= e.min - 1,
          slew |-> \A k \in 1 .. Len(e.a) : e.a[k] >= (e.scat - e.slew) - 1,
          spread |-> e.varies => Cardinality(Range(e.a)) > 1,
          twice |-> \A k \in 1 .. Len(e.d) : (e.d[k] - (2 * e.raw[k]) \in -3 .. 3)]
Checks(e) == CASE e.op = "save" -> SaveChecks(e)
               [] e.op = "over" -> OverChecks(e)
               [] e.op = "rnd" -> RndChecks(e)
               [] OTHER -> [x |-> TRUE]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == CASE e.op = "save" -> Contents(st, R(e.run)) [] e.op = "over" -> Wanted(e) [] OTHER -> 0
TInit == i = 0 /\ st = Empty
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ st' = StepSt(Trace[i + 1])
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
