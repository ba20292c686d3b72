------------------------------ MODULE MafCache ------------------------------
(* Sharing of computed values between slice points that see the same        *)
(* visits: a bounded, least recently used memory of "these visits were seen *)
(* at that slice point".                                                    *)
EXTENDS MafGroup

(* One step of the memory: mem is a sequence of [key, at], oldest first.    *)
Find(mem, key) == {k \in DOMAIN mem : mem[k].key = key}
Touch(mem, k) == Append(RemoveAt(mem, k), mem[k])
Trim(mem, size) == IF Len(mem) > size THEN Tail(mem) ELSE mem
Step(mem, key, i, size) ==
    IF Find(mem, key) # {} THEN Touch(mem, CHOOSE k \in Find(mem, key) : TRUE)
    ELSE Trim(Append(mem, [key |-> key, at |-> i]), size)
(* Whether slice point i reuses a value, and of which slice point.          *)
Reused(mem, key) == IF Find(mem, key) = {} THEN 0 ELSE mem[CHOOSE k \in Find(mem, key) : TRUE].at

(* The values of a metric over slices given as sequences of visit numbers,  *)
(* whatever is remembered.                                                  *)
Direct(metric, vals, slices) ==
    [i \in DOMAIN slices |->
       IF slices[i] = <<>> THEN <<>>
       ELSE Metric(metric, [j \in DOMAIN slices[i] |-> vals[slices[i][j]]], {}, i)]
=============================================================================
