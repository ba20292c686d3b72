----------------------------- MODULE TrackDbMC -----------------------------
EXTENDS TrackDb, Json
CONSTANTS MaxOps
VARIABLES st, hist
D == {"a", "b", "c"}
I == 1 .. 4
Init == st = {} /\ hist = <<>>
H(e) == hist' = Append(hist, e) /\ PrintT("@@" \o ToJson(hist'))
Fresh == CHOOSE k \in 1 .. 9 : k \notin Ids(st) /\ \A j \in 1 .. k - 1 : j \in Ids(st)
Next ==
    /\ Len(hist) < MaxOps
    /\ \/ \E d \in D, ask \in {0, 1, 2, 3} :
            /\ st' = IF Refused(st, d, ask) THEN st
                     ELSE Add(st, d, IF d \in Dirs(st) THEN At(st, d).id ELSE IF ask = 0 THEN Fresh ELSE ask, Len(hist))
            /\ H([op |-> "add", dir |-> d, ask |-> ask])
       \/ \E d \in D : st' = st /\ H([op |-> "addfail", dir |-> d])
       \/ \E i \in 1 .. 3 : st' = Delete(st, i) /\ H([op |-> "del", id |-> i])
Inv == OneEach(st)
(* No operation touches the record of another directory.                    *)
Last == hist'[Len(hist')]
Others == [][\A r \in st :
                \/ r \in st'
                \/ Last.op = "add" /\ Last.dir = r.dir /\ \E s \in st' : s.dir = r.dir /\ s.id = r.id
                \/ Last.op = "del" /\ Last.id = r.id]_<<st, hist>>
Shape == {<<r.id, r.dir>> : r \in st}
View == <<Shape, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>
=============================================================================
