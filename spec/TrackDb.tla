------------------------------ MODULE TrackDb ------------------------------
(* The run-tracking database: one record per analysis directory.            *)
(* st: set of [id, dir, info].                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ids(st) == {r.id : r \in st}
Dirs(st) == {r.dir : r \in st}
At(st, dir) == CHOOSE r \in st : r.dir = dir
(* ask = 0: no identifier requested.  It is ignored for a directory already *)
(* tracked.                                                                 *)
Refused(st, dir, ask) == dir \notin Dirs(st) /\ ask # 0 /\ ask \in Ids(st)
GoodId(st, dir, ask, id) ==
    IF dir \in Dirs(st) THEN id = At(st, dir).id
    ELSE IF ask # 0 THEN id = ask ELSE id \notin Ids(st)
Add(st, dir, id, info) == {r \in st : r.dir # dir} \cup {[id |-> id, dir |-> dir, info |-> info]}
Delete(st, id) == {r \in st : r.id # id}
OneEach(st) == \A r, s \in st : (r.id = s.id \/ r.dir = s.dir) => r = s
=============================================================================
