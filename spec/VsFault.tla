------------------------------ MODULE VsFault ------------------------------
(* One archive operation as a transaction of several statements, with a     *)
(* failure (rejected statement, refused commit, lost connection) possible   *)
(* at every point.  An operation either has all of its effects or none.     *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES writes,          \* the statements of the operation, in order
          committed, pending, pc, outcome
vars == <<writes, committed, pending, pc, outcome>>
Ops == {<<"row">>, <<"row", "specific">>, <<"t1", "t2", "t3">>, <<"file", "url">>}
N == Len(writes)
Init == writes \in Ops /\ committed = {} /\ pending = {} /\ pc = 1 /\ outcome = "running"
Stmt == outcome = "running" /\ pc <= N /\ pending' = pending \cup {writes[pc]} /\ pc' = pc + 1
        /\ UNCHANGED <<committed, outcome, writes>>
Abort == outcome = "running" /\ pending' = {} /\ outcome' = "error" /\ UNCHANGED <<committed, pc, writes>>
CommitAll == outcome = "running" /\ pc = N + 1 /\ committed' = committed \cup pending /\ pending' = {}
        /\ outcome' = "ok" /\ UNCHANGED <<pc, writes>>
Next == Stmt \/ Abort \/ CommitAll
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == {writes[k] : k \in 1 .. N}
Atomic == committed \in {{}, All}
OkMeansDone == outcome = "ok" <=> committed = All
ErrorMeansNothing == outcome = "error" => committed = {}
Ends == <>(outcome \in {"ok", "error"})
=============================================================================
