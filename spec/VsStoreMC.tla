----------------------------- MODULE VsStoreMC -----------------------------
EXTENDS VsStore, Json
CONSTANTS Ids, Types, Names, Contents, MaxLen, Emit
VARIABLES st, hist
Loc(id, name) == id \o "/" \o name

Init == st = [EmptyStore EXCEPT !.ids = Ids] /\ hist = <<>>
Log(e) == /\ hist' = Append(hist, e)
          /\ (Emit => PrintT("@@" \o ToJson(hist')))
Add == \E id \in Ids, t \in Types, n \in Names, c \in Contents, u \in BOOLEAN :
    LET loc == Loc(id, n) IN
    /\ IF MustRefuse(st, id, t, u) \/ loc \in OtherLocs(st, id, t)
       THEN st' = st
       ELSE st' = AddFile(st, id, t, c, loc)
    /\ Log([op |-> "addfile", id |-> id, type |-> t, name |-> n, content |-> c, update |-> u, via |-> "api"])
Next == Len(hist) < MaxLen /\ Add
View == <<st, Len(hist)>>
Inv == Consistent(st) /\ NoSharing(st)
=============================================================================
