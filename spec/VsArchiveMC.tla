---------------------------- MODULE VsArchiveMC ----------------------------
(* Design model of the archive: all histories over a small universe.        *)
EXTENDS VsArchive, Json
CONSTANTS MaxSeqs, MaxLen, UseRec, UseAnn, Emit

VARIABLES st, hist, last
vars == <<st, hist, last>>

Given(x) == [c \in Cols |-> CASE c = "label" -> "l1" [] c = "telescope" -> "simonyi" [] c = "sha" -> "v1" [] OTHER -> Null]
Full(x) == [c \in Cols |->
    CASE c = "label" -> "o'br %s {}" [] c = "telescope" -> "auxtel" [] c = "sha" -> "v2"
      [] c = "url" -> "file:///x1" [] c = "first" -> "2025-03-01" [] c = "last" -> "2025-03-04"
      [] c = "ctime" -> "2025-02-28T13:00:00" [] c = "sched" -> "3.1" [] c = "config" -> "cfg"
      [] c = "env" -> "h1" [] c = "parent" -> "u1" [] c = "kwargs" -> "k1" [] c = "plast" -> "2025-02-27"
      [] c = "query" -> "SELECT 1" [] c = "le" -> "2025-03-02" [] c = "fl" -> "2025-03-03"
      [] c = "ep" -> "u1" [] c = "lp" -> "u2" [] OTHER -> Null]
IdPool == {"u" \o ToString(n) : n \in 1 .. MaxSeqs} \cup {"u9"}

RecOps ==
    ({[op |-> "record", kind |-> k, via |-> v, f |-> f, fmt |-> "iso"] :
        k \in Kinds, v \in {"specific", "generic"}, f \in {Given(1), Full(1)}}
      \ {[op |-> "record", kind |-> "mixedvisitseq", via |-> "specific", f |-> Given(1), fmt |-> "iso"]})  \* parents are required
    \cup {[op |-> "update", id |-> i, field |-> x[1], value |-> x[2]] : i \in IdPool,
            x \in {<<"label", "l2">>, <<"label", Null>>, <<"sched", "4">>, <<"query", "Q">>, <<"le", "2025-03-09">>,
                   <<"url", "file:///x2">>}}
    \cup {[op |-> "seturl", id |-> i, value |-> "file:///x3"] : i \in IdPool}
    \cup {[op |-> "geturl", id |-> i] : i \in IdPool}
    \cup {[op |-> "meta", id |-> i, table |-> t] : i \in IdPool, t \in Kinds \cup {"nonsense"}}
    \cup {[op |-> "recenv", hash |-> h, pkgs |-> p] : h \in {"h1"}, p \in {<<<<"a", "1">>, <<"b", "2">>>>, <<<<"c", "3">>>>}}
    \cup {[op |-> "saved", hash |-> "h1"]}
    \cup {[op |-> "software", id |-> i, only |-> o] : i \in IdPool, o \in {<<>>, <<"a", "zz">>}}
AnnOps ==
    {[op |-> "record", kind |-> k, via |-> "specific", f |-> Given(1), fmt |-> "iso"] : k \in {"simulations", "visitseq"}}
    \cup {[op |-> "tag", id |-> i, tags |-> t] : i \in IdPool \ {"u9"}, t \in {<<"t1">>, <<"t1", "t2">>}}
    \cup {[op |-> "untag", id |-> i, tag |-> "t1"] : i \in IdPool}
    \cup {[op |-> "istagged", id |-> i, tag |-> "t2"] : i \in IdPool}
    \cup {[op |-> "comment", id |-> i, author |-> a, text |-> "c1"] : i \in IdPool \ {"u9"}, a \in {Null}}
    \cup {[op |-> "comments", id |-> i] : i \in IdPool}
    \cup {[op |-> "register", id |-> i, type |-> t, sha |-> x[1], url |-> x[2], update |-> x[3]] : i \in IdPool \ {"u9"},
            t \in {"rewards", "visits"}, x \in {<<"s1", "file:///a", FALSE>>, <<"s2", "file:///b", TRUE>>}}
    \cup {[op |-> "fileurl", id |-> i, type |-> t] : i \in IdPool, t \in {"rewards", "visits"}}
    \cup {[op |-> "filesha", id |-> i, type |-> "rewards"] : i \in IdPool}
    \cup {[op |-> "extra", id |-> i] : i \in IdPool}
    \cup {[op |-> "addstats", id |-> i, rows |-> r] : i \in IdPool \ {"u9"},
             r \in {<<<<"2025-03-01", "alt", "2">>>>, <<<<"2025-03-02", "alt", "3">>, <<"2025-03-01", "alt", "1">>>>}}
    \cup {[op |-> "stats", id |-> i] : i \in IdPool}
Ops == (IF UseRec THEN RecOps ELSE {}) \cup (IF UseAnn THEN AnnOps ELSE {})

Init == st = EmptyState /\ hist = <<>> /\ last = [ok |-> TRUE, err |-> "", val |-> Null]
Do(e) == LET r == Step(st, e) IN
    /\ Assert(StepOK(st, e, r), <<"StepOK", st, e>>)
    /\ st' = r.st
    /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
    /\ last' = [ok |-> r.ok, err |-> r.err, val |-> Null]
    /\ (Emit => PrintT("@@" \o ToJson(hist')))
Next == Len(hist) < MaxLen /\ \E e \in Ops :
            /\ (e.op = "record" => Cardinality(st.seqs) < MaxSeqs)
            /\ ("id" \in DOMAIN e => (e.id \in Ids(st) \/ e.id = "u9"))
            /\ (e.op = "comment" => Len(st.comments) < 2)
            /\ Do(e)
Spec == Init /\ [][Next]_vars
View == st
Inv == StateOK(st)
=============================================================================
