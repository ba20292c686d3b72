------------------------------- MODULE VsRun -------------------------------
(* Running a simulation and keeping it: a directory holds exactly the run   *)
(* last saved in it, and saving a run changes nothing else (neither another *)
(* directory nor anything the caller owns).  Times are in 1/10000 day.      *)
(* run: [visits, rnd, rew, files, tags, label, meta, start, dur, end, slew, *)
(*       visit, exp, loc, scat, min]; what does not apply is -1 or empty.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Day == 10000
Night(t) == (t - 5000) \div Day
Empty == [dirs |-> <<>>, dicts |-> <<>>]
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(s) == {s[k] : k \in 1 .. Len(s)}
(* Overhead between visits: what the model says plus an offset, never below *)
(* the minimum.  scat is the scatter drawn, loc the mean relative error of  *)
(* the time of a slew.                                                      *)
ModelOverhead(r) == r.slew + r.visit - r.exp
Offset(r) == LET o == r.slew * r.loc + r.scat
             IN IF ModelOverhead(r) + o < r.min THEN r.min - ModelOverhead(r) ELSE o
Step(r) == r.slew + r.visit + Offset(r)
RECURSIVE TimesFrom(_, _)
TimesFrom(r, t) == IF t >= r.end THEN <<>> ELSE <<t + r.slew>> \o TimesFrom(r, t + Step(r))
Visits(r) == IF r.end < 0 THEN r.visits ELSE TimesFrom(r, r.start)
(* Random overheads: only the bounds are known.                             *)
PossibleVisits(r, v) ==
    /\ v # <<>> /\ v[1] = r.start + r.slew
    /\ \A k \in 1 .. Len(v) - 1 : v[k + 1] - v[k] >= r.exp + r.min
    /\ \A k \in 1 .. Len(v) : v[k] - r.slew < r.end
    /\ \A k \in 1 .. Len(v) : v[k] - v[1] >= (k - 1) * (r.exp + r.min)
(* The errors are random: unless all of them were cut off at the minimum,   *)
(* the time from one visit to the next is not always the same.              *)
Varied(r, v) ==
    LET free == {k \in 1 .. Len(v) - 1 : v[k + 1] - v[k] > r.exp + r.min + 1}
    IN Cardinality(free) >= 5 => Cardinality({v[k + 1] - v[k] : k \in free}) > 1
CeilDays(d) == (d + Day - 1) \div Day
NightsOf(r) ==
    IF r.start >= 0 /\ r.kw
    THEN <<Night(r.start), IF r.dur < 0 THEN -1
                           ELSE Night(r.start) + (IF r.dur = 0 THEN 0 ELSE CeilDays(r.dur) - 1)>>
    ELSE LET v == Range(Visits(r)) IN <<Night(Min(v)), Night(Max(v))>>
Contents(st, r) ==
    [visits |-> Visits(r), rew |-> r.rew, files |-> r.files, tags |-> r.tags, label |-> r.label,
     meta |-> r.metaval, nights |-> NightsOf(r), kw |-> IF r.kw THEN <<r.start, r.dur>> ELSE <<-1, -1>>]
Save(st, d, r) ==
    [st EXCEPT !.dirs = [x \in DOMAIN @ \cup {d} |-> IF x = d THEN Contents(st, r) ELSE @[x]]]
-----------------------------------------------------------------------------
NightOrder(st) == \A d \in DOMAIN st.dirs : LET n == st.dirs[d].nights IN n[2] = -1 \/ n[1] <= n[2]
SpacedVisits(st) == \A d \in DOMAIN st.dirs : \A k \in 1 .. Len(st.dirs[d].visits) - 1 :
                        st.dirs[d].visits[k] < st.dirs[d].visits[k + 1]
=============================================================================
