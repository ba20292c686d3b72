----------------------------- MODULE MafCacheMC -----------------------------
(* Every pattern of visits per slice point, in every order, for a memory of *)
(* each size: the machine that reuses remembered values computes the values *)
(* that are computed without it.                                            *)
EXTENDS MafCache, Json
CONSTANTS NVisits, NSlices_, Sizes, Key
Vals == [v \in 1 .. NVisits |-> v * v]
Subsets == {SetToSortSeq(s, <) : s \in SUBSET (1 .. NVisits)}
VARIABLES size, seen, mem, out, hits
(* What is used as the key: the visits ("visits"), or only how many there   *)
(* are ("count"), which must be found wrong.                                *)
KeyOf(s) == IF Key = "visits" THEN Set(s) ELSE {Len(s)}
Init == size \in Sizes /\ seen = <<>> /\ mem = <<>> /\ out = <<>> /\ hits = <<>>
M == [kind |-> "sum", col |-> "x"]
ValueOf(s) == Metric(M, [j \in DOMAIN s |-> Vals[s[j]]], {}, 1)
Next == /\ Len(seen) < NSlices_
        /\ \E s \in Subsets :
             LET i == Len(seen) + 1
                 from == Reused(mem, KeyOf(s))
             IN /\ seen' = Append(seen, s)
                /\ IF s = <<>> THEN /\ UNCHANGED mem
                                    /\ out' = Append(out, <<>>)
                                    /\ hits' = Append(hits, 0)
                   ELSE /\ mem' = Step(mem, KeyOf(s), i, size)
                        /\ out' = Append(out, IF from = 0 THEN ValueOf(s) ELSE out[from])
                        /\ hits' = Append(hits, from)
                /\ UNCHANGED size
                /\ IF i = NSlices_ THEN PrintT("@@" \o ToJson([size |-> size, slices |-> seen'])) ELSE TRUE
Same == out = Direct(M, Vals, seen)
Bounded == Len(mem) <= size /\ \A k, l \in DOMAIN mem : k # l => mem[k].key # mem[l].key
Recent == \A k \in DOMAIN mem : KeyOf(seen[mem[k].at]) = mem[k].key
=============================================================================
