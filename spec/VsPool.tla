------------------------------- MODULE VsPool -------------------------------
(* Connection discipline of the archive object.  Each public operation is a *)
(* sequence of micro steps on pool connections; a statement may fail at any *)
(* point.  The pandas engine keeps one connection of its own once it has    *)
(* been used.                                                               *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Max, MaxOps
VARIABLES free, used, engine, txn, phase, cur, db, ops
vars == <<free, used, engine, txn, phase, cur, db, ops>>
(* txn[c]: "idle" | "open" | "failed"; db: committed writes                 *)
Conns == 1 .. Max
Init == /\ free = {1} /\ used = {} /\ engine = 0 /\ txn = [c \in Conns |-> "idle"]
        /\ phase = "out" /\ cur = 0 /\ db = 0 /\ ops = 0
Fresh == CHOOSE c \in Conns : c \notin free \cup used
Get(c) == IF free # {} THEN c \in free ELSE Cardinality(free \cup used) < Max /\ c = Fresh

Start == /\ phase = "out" /\ ops < MaxOps
         /\ \E c \in Conns : Get(c) /\ cur' = c /\ used' = used \cup {c} /\ free' = free \ {c}
         /\ phase' = "exec" /\ ops' = ops + 1
         /\ UNCHANGED <<engine, txn, db>>
Exec == phase = "exec" /\ phase' \in {"commit", "rollback"} /\ txn' = [txn EXCEPT ![cur] = "open"]
        /\ UNCHANGED <<free, used, engine, cur, db, ops>>
Fail == phase = "exec" /\ phase' = "rollback" /\ txn' = [txn EXCEPT ![cur] = "failed"]
        /\ UNCHANGED <<free, used, engine, cur, db, ops>>
Commit == phase = "commit" /\ phase' = "put" /\ txn' = [txn EXCEPT ![cur] = "idle"] /\ db' = db + 1
        /\ UNCHANGED <<free, used, engine, cur, ops>>
Rollback == phase = "rollback" /\ phase' = "put" /\ txn' = [txn EXCEPT ![cur] = "idle"]
        /\ UNCHANGED <<free, used, engine, cur, db, ops>>
Put == phase = "put" /\ phase' = "out" /\ free' = free \cup {cur} /\ used' = used \ {cur} /\ cur' = 0
        /\ UNCHANGED <<engine, txn, db, ops>>
(* pandas reads and writes go through the engine, which keeps its connection *)
EngineOp == /\ phase = "out" /\ ops < MaxOps /\ ops' = ops + 1
            /\ IF engine = 0
               THEN \E c \in Conns : Get(c) /\ engine' = c /\ used' = used \cup {c} /\ free' = free \ {c}
               ELSE UNCHANGED <<engine, used, free>>
            /\ db' \in {db, db + 1}
            /\ UNCHANGED <<txn, phase, cur>>
Next == Start \/ Exec \/ Fail \/ Commit \/ Rollback \/ Put \/ EngineOp
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Exec \/ Fail \/ Commit \/ Rollback \/ Put)
NoLeak == phase = "out" => used = (IF engine = 0 THEN {} ELSE {engine})
NothingOpen == phase = "out" => \A c \in free \cup used : txn[c] = "idle"
Bounded == Cardinality(free \cup used) <= 3
Serves == phase = "out" => Cardinality(used) < Max
Returns == [](phase = "exec" => <>(phase = "out"))
=============================================================================
