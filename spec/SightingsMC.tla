---------------------------- MODULE SightingsMC -----------------------------
(* Looking first at positions on a coarse grid of times, and then exactly at  *)
(* the visits that come near, misses nothing, provided the first tolerance    *)
(* allows for the motion between the points of the grid and their error.      *)
EXTENDS Sightings, Json
CONSTANTS NVisits, Step
VARIABLES o, r, tol, visits, near, found, pc
Times == {0, 3, 7}
Places == {-8, 0, 4, 16}
Visit == [t : Times, ra : {Wrap(p) : p \in Places}, dec : {0}]
NextPoint(t) == ((t + Step - 1) \div Step) * Step
Rough(x, t) == Wrap(Position(x, NextPoint(t)).ra + x.err)
Init == /\ o \in [kind : {"ra"}, ra : {0, Ring - 4}, dec : {0}, v : {-4, 0, 4}, err : {0, 2}]
        /\ r \in {3, 9}
        /\ tol \in {r + (Step * RAbs(o.v)) + o.err, 2000}
        /\ visits \in UNION {[1..n -> Visit] : n \in 1..NVisits}
        /\ near = {} /\ found = {} /\ pc = "rough"
Next == \/ /\ pc = "rough"
           /\ near' = {k \in DOMAIN visits : Apart(Rough(o, visits[k].t), visits[k].ra) <= tol}
           /\ pc' = "exact" /\ UNCHANGED <<o, r, tol, visits, found>>
        \/ /\ pc = "exact"
           /\ found' = {k \in near : Circle(Position(o, visits[k].t), visits[k], r) = "in"}
           /\ pc' = "done" /\ UNCHANGED <<o, r, tol, visits, near>>
           /\ PrintT("@@" \o ToJson([o |-> o, r |-> r, visits |-> visits]))
Complete == pc = "done" => found = {k \in DOMAIN visits : Circle(Position(o, visits[k].t), visits[k], r) = "in"}
Short == \A k \in DOMAIN visits : Apart(Position(o, visits[k].t).ra, visits[k].ra) <= Ring \div 2
=============================================================================
