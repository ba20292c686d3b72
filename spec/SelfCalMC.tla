------------------------------ MODULE SelfCalMC -----------------------------
(* Design: all sets of observations of NStars stars in NPatches patches.      *)
EXTENDS SelfCal, Json
CONSTANTS NStars, NPatches
VARIABLES seen, done
Pairs == (1 .. NStars) \X (1 .. NPatches)
Init == seen \in SUBSET Pairs /\ done = FALSE
Obs == LET q == SetToSeq(seen) IN [k \in DOMAIN q |-> [s |-> q[k][1], p |-> q[k][2]]]
Next == ~done /\ done' = TRUE /\ UNCHANGED seen
        /\ PrintT("@@" \o ToJson([obs |-> Obs]))
(* what is kept is useful, and it is all that can be: the largest set in which everything is useful *)
Right == Stable(Kept(Obs), Obs)
Largest == \A O \in SUBSET (DOMAIN Obs) : Stable(O, Obs) => O \subseteq Kept(Obs)
(* stars first or patches first makes no difference *)
StarsFirst(O, obs) == {k \in O : Cardinality(OfStar(O, obs, obs[k].s)) > 1}
PatchesFirst(O, obs) == {k \in O : Cardinality(OfPatch(O, obs, obs[k].p)) > 1}
RECURSIVE Alt(_, _)
Alt(O, obs) == LET u == PatchesFirst(StarsFirst(O, obs), obs) IN IF u = O THEN O ELSE Alt(u, obs)
Order == Alt(DOMAIN Obs, Obs) = Kept(Obs)
=============================================================================
