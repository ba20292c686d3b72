---------------------------- MODULE VsStoreTrace ----------------------------
EXTENDS VsStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st
SeqToSet(s) == {s[k] : k \in 1 .. Len(s)}

Seen(e, ids, acc) == [ids |-> ids, reg |-> SeqToSet(e.obs.reg), store |-> SeqToSet(e.obs.store), acc |-> acc]

(* The state the specification continues with, and the failed clauses.      *)
Judge(e) ==
    CASE e.op = "reset" -> [st |-> EmptyStore, bad |-> IF e.obs.reg = <<>> /\ e.obs.store = <<>> THEN {} ELSE {"not-empty"}]
      [] e.op = "new" ->
            LET n == [st EXCEPT !.ids = @ \cup {e.id}]
                o == Seen(e, n.ids, st.acc)
            IN [st |-> o, bad |-> IF e.res.ok /\ o = n THEN {} ELSE {"changed"}]
      [] e.op = "move" ->    \* an unrelated metadata update
            LET o == Seen(e, st.ids, st.acc)
            IN [st |-> o, bad |-> IF e.res.ok /\ o = st THEN {} ELSE {"changed"}]
      [] e.op = "addfile" ->
            IF e.res.ok
            THEN LET n == AddFile(st, e.id, e.type, e.content, e.res.val)
                     o == Seen(e, st.ids, n.acc)
                     b == [accepted |-> ~MustRefuse(st, e.id, e.type, e.update),
                           sharing |-> e.res.val \notin OtherLocs(st, e.id, e.type),
                           registered |-> o.reg = n.reg,
                           consistent |-> Consistent(o),
                           others |-> \A r \in st.reg \ RegOf(st, e.id, e.type) :
                                         ContentAt(o, r.loc) = ContentAt(st, r.loc)]
                 IN [st |-> o, bad |-> {k \in DOMAIN b : ~b[k]}]
            ELSE LET o == Seen(e, st.ids, st.acc)
                     naive == e.naive \in OtherLocs(st, e.id, e.type)
                     b == [refused |-> MustRefuse(st, e.id, e.type, e.update) \/ naive,
                           unchanged |-> o = st,
                           error |-> e.id \notin st.ids \/ e.res.err = "ValueError"]
                 IN [st |-> o, bad |-> {k \in DOMAIN b : ~b[k]}]
      [] e.op = "fetch" ->
            LET o == Seen(e, st.ids, st.acc)
                mine == {a \in st.acc : a.id = e.id /\ a.type = e.type}
                b == [unchanged |-> o = st,
                      ok |-> e.res.ok = (mine # {}),
                      bytes |-> e.res.ok => \E a \in mine : a.content = e.res.val]
            IN [st |-> o, bad |-> {k \in DOMAIN b : ~b[k]}]

TInit == i = 0 /\ st = EmptyStore
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET e == Trace[i + 1]
                j == Judge(e)
            IN /\ st' = j.st
               /\ IF j.bad = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> j.bad]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
