---------------------------- MODULE VsQueryTrace ----------------------------
(* Judges answers of the real archive.  Each trace starts with a "load"     *)
(* event giving the catalogue the archive was filled with.                  *)
EXTENDS VsQuery, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, cat
SeqToSet(s) == {s[k] : k \in 1 .. Len(s)}
Sim(j) == [j EXCEPT !.tags = SeqToSet(@), !.files = SeqToSet(@), !.stats = SeqToSet(@)]
Cat(e) == {Sim(e.sims[k]) : k \in 1 .. Len(e.sims)}
Q(e) == [e.q EXCEPT !.tags = SeqToSet(@)]
GotRow(r) == [id |-> r.id, simday |-> r.simday, tags |-> SeqToSet(r.tags), comments |-> r.comments,
              files |-> SeqToSet(r.files), first |-> r.first, last |-> r.last, tel |-> r.tel, t |-> r.t]
ById(id) == CHOOSE s \in cat : s.id = id

Lists(e, want) ==      \* a returned list of simulations
    [ok       |-> e.ok,
     selected |-> e.ok => {r.id : r \in SeqToSet(e.rows)} = {s.id : s \in want},
     once     |-> e.ok => Len(e.rows) = Cardinality({r.id : r \in SeqToSet(e.rows)}),
     contents |-> e.ok => \A r \in SeqToSet(e.rows) : \A s \in want : s.id = r.id => GotRow(r) = Row(s),
     numbers  |-> e.ok => /\ \A r \in SeqToSet(e.rows) : \A s \in cat :
                                s.id = r.id => r.daily >= LowNum(cat, s) /\ r.daily <= HighNum(cat, s)
                          /\ \A r, z \in SeqToSet(e.rows) : (r.simday = z.simday /\ r.daily = z.daily) => r.id = z.id]
Stats(e, want) ==
    [stats |-> e.ok => \A r \in SeqToSet(e.rows) : \A s \in want :
                  s.id = r.id => SeqToSet(r.stats) = StatsOn(s, e.q.first)]
Checks(e) ==
    CASE e.op = "load" -> [x |-> TRUE]
      [] e.op = "nights" -> Lists(e, Sims(cat, Q(e)))
      [] e.op = "withstats" -> Lists(e, Sims(cat, Q(e))) @@ Stats(e, Sims(cat, Q(e)))
      [] e.op = "uuid" ->    \* simulation number n of a creation night
            LET c == {s \in cat : Night(s.t) = e.day /\ e.n >= LowNum(cat, s) /\ e.n <= HighNum(cat, s)
                                    /\ (e.within # "" => e.night >= s.first /\ e.night <= s.last /\ s.first # -1 /\ "prenight" \in s.tags)}
            IN [found |-> c # {} => e.ok /\ e.id \in {s.id : s \in c},
                refused |-> c = {} => ~e.ok /\ e.err = "ValueError"]
      [] e.op = "day" -> [ok |-> e.ok, night |-> e.ok => e.got = (IF e.fmt = "instant" THEN Night(e.t) ELSE e.day)]
      [] e.op = "info" ->    \* one simulation looked up by identifier through the list of a night
            LET c == {s \in cat : s.id = e.id /\ (e.night # -1 => Covers(s, e.night) /\ "prenight" \in s.tags)}
            IN [found |-> c # {} => e.ok /\ \A s \in c : GotRow(e.row) = Row(s),
                refused |-> c = {} => ~e.ok]
      [] e.op = "latest" ->  \* best of a list
            LET src == {s \in cat : s.id \in SeqToSet(e.list)}
                c == Latest(Eligible(src, Q(e)))
            IN [ok |-> e.ok, best |-> e.ok => (IF c = {} THEN e.id = "null" ELSE e.id \in {s.id : s \in c})]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == IF "q" \in DOMAIN e /\ e.op # "load" THEN {[row |-> Row(s), low |-> LowNum(cat, s)] : s \in Sims(cat, Q(e))} ELSE {}
TInit == i = 0 /\ cat = {}
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ cat' = IF Trace[i + 1].op = "load" THEN Cat(Trace[i + 1]) ELSE cat
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
