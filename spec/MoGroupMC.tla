----------------------------- MODULE MoGroupMC ------------------------------
(* Runs of a group: lists of compatible bundles, in any order, each with    *)
(* the stackers of the whole list in any order (the last one to set a       *)
(* column wins).  Whatever the lists and the order, every bundle ends with  *)
(* its own values, and once.                                                *)
EXTENDS MoGroup, Json
CONSTANTS N, Full
VARIABLES group, todo, got
M0 == [cls |-> "M", p |-> 0]
M1 == [cls |-> "M", p |-> 1]
St(c, p) == [cls |-> c, p |-> p]
Lists == {<<M0>>, <<M1>>, <<St("P", 0), M0>>, <<St("P", 1), M0>>, <<St("Q", 0), M0>>, <<St("Q", 1), M1>>, <<St("R", 0), M0>>,
          <<St("R", 1), M1>>, <<St("R", 0), St("T", 1), M0>>, <<St("R", 1), St("T", 1), M0>>, <<St("R", 0), St("P", 1), M1>>,
          <<St("U", 1), M0>>, <<St("U", 0), St("T", 1), M0>>}
Constraints == {[kind |-> "all", n |-> 0, s |-> ""], [kind |-> "night", n |-> 2, s |-> ""], [kind |-> "band", n |-> 0, s |-> "r"]}
Cols(st) == ({"app", "m"} \cup UNION {Adds(s.cls) : s \in Set(st)}) \ {"vis"}
Sum(c, bad) == [kind |-> "sum", col |-> c, bad |-> bad]
Other(k, bad) == [kind |-> k, col |-> "", bad |-> bad]
Metrics(st) == {<<Sum(c, 0)>> : c \in Cols(st)} \cup {<<Other("ids", 0)>>, <<Other("seen", 0)>>}
               \cup {<<Sum(c, 0), Sum("app", 3), Other("seen", 0)>> : c \in Cols(st)}
Universe == UNION {UNION {{[con |-> c, st |-> st, m |-> m] : c \in Constraints} : m \in Metrics(st)} : st \in Lists}
Obs == <<[obj |-> 1, k |-> 0, night |-> 1, band |-> "r", m |-> 2, col |-> 1, det |-> 0, tr |-> 40, m5 |-> 20],
         [obj |-> 1, k |-> 1, night |-> 2, band |-> "g", m |-> 5, col |-> 0, det |-> 1, tr |-> 0, m5 |-> 20],
         [obj |-> 2, k |-> 2, night |-> 3, band |-> "g", m |-> 3, col |-> 0, det |-> 40, tr |-> 0, m5 |-> 20]>>
Objs == <<[id |-> 1, h |-> 8], [id |-> 2, h |-> 9], [id |-> 3, h |-> 10]>>
HR == <<7, 9>>
Small == {b \in Universe : Full \/ (b.con.kind # "night" /\ Len(b.m) = 1 /\ b.m[1].kind = "sum" /\ b.m[1].col # "m")}
Init == /\ group \in [1 .. N -> Small] /\ todo = 1 .. N /\ got = [b \in 1 .. N |-> <<>>]
        /\ PrintT("@@" \o ToJson([group |-> group]))
(* the columns as the list's stackers leave them, last one first *)
Left(S) == {f \in [UNION {Adds(s.cls) : s \in S} -> S] : \A c \in DOMAIN f : c \in Adds(f[c].cls)}
RunList(L) ==
    /\ L # {} /\ \A a, b \in L : Compatible(group[a], group[b])
    /\ \E f \in Left(UNION {Set(group[b].st) : b \in L}) :
        LET S == {f[c] : c \in DOMAIN f}
            with(b) == Table([group[b] EXCEPT !.st = SetToSeq(S)], group[b].m[1], Obs, Objs, HR)
        IN /\ got' = [b \in 1 .. N |-> IF b \in L THEN Append(got[b], with(b)) ELSE got[b]]
           /\ todo' = todo \ L /\ group' = group
Next == \E L \in SUBSET todo : RunList(L)
Spec == Init /\ [][Next]_<<group, todo, got>>
Own == \A b \in 1 .. N : got[b] = <<>> \/ got[b] = <<Table(group[b], group[b].m[1], Obs, Objs, HR)>>
Once == \A b \in 1 .. N : (b \in todo) = (got[b] = <<>>)
=============================================================================
