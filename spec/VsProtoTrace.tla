---------------------------- MODULE VsProtoTrace ----------------------------
EXTENDS VsProto, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
ToSet(s) == {s[k] : k \in 1 .. Len(s)}
S(j) == [j EXCEPT !.tags = ToSet(@), !.files = ToSet(@), !.kw = ToSet(@)]
Row(r) == [day |-> r.day, n |-> r.n, done |-> TRUE, s |-> S(r.s)]
Q(e) == [e.q EXCEPT !.tags = ToSet(@)]
(* day the reported number belongs to is always the day of adding: today    *)
StepSt(e) ==
    CASE e.op = "reset" -> [Empty EXCEPT !.today = e.today]
      [] e.op = "add" -> IF e.ok THEN Add(st, S(e.s), e.n, TRUE) ELSE st
      [] e.op = "addbad" -> IF e.n > 0 THEN Add(st, S(e.s), e.n, FALSE) ELSE st
      [] e.op = "endday" -> EndDay(st, e.day)
      [] e.op = "compile" -> IF e.append THEN Append_(st) ELSE Compile(st)
      [] e.op = "remove" -> Remove(st, e.day, e.n)
      [] e.op = "damage" -> [st EXCEPT !.damaged = @ \cup {<<e.day, e.n, e.file>>}]
      [] OTHER -> st
Window(e) == IF e.cached THEN Cached(st, e.latest, e.nights) ELSE Fresh(st, e.latest, e.nights)
Checks(e) ==
    CASE e.op = "add" -> [ok |-> e.ok, day |-> e.ok => e.day = st.today, number |-> e.ok => e.n \in Allowed(st),
                          files |-> e.ok => ToSet(e.stored) = ToSet(e.want), others |-> e.others]
      [] e.op = "addbad" -> [refused |-> ~e.ok, number |-> e.n > 0 => e.n \in Allowed(st), others |-> e.others]
      [] e.op = "list" -> [ok |-> e.ok, entries |-> e.ok => {Row(r) : r \in ToSet(e.rows)} = Window(e),
                           once |-> e.ok => Len(e.rows) = Cardinality(ToSet(e.rows))]
      [] e.op = "compile" -> [ok |-> e.ok]
      [] e.op = "verify" -> [ok |-> e.ok, agrees |-> e.ok => (e.differences = 0 <=> st.cache = Done(st))]
      [] e.op = "latest" -> [ok |-> e.ok, best |-> e.ok => (IF Latest(st, Q(e)) = {} THEN e.rows = <<>>
                                   ELSE Len(e.rows) = 1 /\ {Row(r) : r \in ToSet(e.rows)} = Latest(st, Q(e)))]
      [] e.op = "check" -> [ok |-> e.ok, verdicts |-> e.ok =>
                               {v[1] : v \in {z \in ToSet(e.valid) : ~z[2]}} = {d[3] : d \in {z \in st.damaged : z[1] = e.day /\ z[2] = e.n}},
                            all |-> e.ok => {v[1] : v \in ToSet(e.valid)} = ToSet(e.names)]
      [] OTHER -> [x |-> TRUE]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == CASE e.op = "list" -> Window(e) [] e.op = "latest" -> Latest(st, Q(e)) [] e.op = "add" -> Allowed(st) [] OTHER -> {}
TInit == i = 0 /\ st = Empty
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ st' = StepSt(Trace[i + 1])
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
