------------------------------ MODULE VsStore ------------------------------
(* Files of the visit sequence archive: what is stored where, what is       *)
(* registered in the database, and what was accepted.  A file addition is   *)
(* one public call; the location of the stored object is the               *)
(* implementation's choice (argument `loc`), constrained by what the        *)
(* property demands of it.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EmptyStore == [ids |-> {}, reg |-> {}, store |-> {}, acc |-> {}]
RegOf(st, id, t) == {r \in st.reg : r.id = id /\ r.type = t}
Registered(st, id, t) == RegOf(st, id, t) # {}
OtherLocs(st, id, t) == {r.loc : r \in {x \in st.reg : ~(x.id = id /\ x.type = t)}}
ContentAt(st, loc) == {s.content : s \in {x \in st.store : x.loc = loc}}

(* Reasons for which an addition must or may be refused.                    *)
MustRefuse(st, id, t, update) ==
    \/ id \notin st.ids
    \/ t # "visits" /\ Registered(st, id, t) /\ ~update

AddFile(st, id, t, content, loc) ==
    [st EXCEPT
        !.reg = (@ \ RegOf(st, id, t)) \cup {[id |-> id, type |-> t, loc |-> loc,
                                             sha |-> IF t = "visits" THEN "-" ELSE content]},
        !.store = {s \in @ : s.loc # loc} \cup {[loc |-> loc, content |-> content]},
        !.acc = {a \in @ : ~(a.id = id /\ a.type = t)} \cup {[id |-> id, type |-> t, content |-> content]}]

(* THE property: what was last accepted for a type is what is registered    *)
(* for it and what is stored at the registered location.                    *)
Consistent(st) ==
    /\ \A r \in st.reg : Cardinality(RegOf(st, r.id, r.type)) = 1
    /\ \A a \in st.acc : \E r \in st.reg :
          /\ r.id = a.id /\ r.type = a.type
          /\ (r.type = "visits" \/ r.sha = a.content)
          /\ ContentAt(st, r.loc) = {a.content}
NoSharing(st) == \A r, q \in st.reg : r.loc = q.loc => r = q
=============================================================================
