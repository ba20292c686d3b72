------------------------------ MODULE VsVisits ------------------------------
(* Tables of visits: their two storage formats, what a request for visits   *)
(* returns, and the visits of a night in the latest suitable simulation.    *)
(* A visit is [id, t, night, band, cells]: t is its start in thousandths of *)
(* a day counted from noon UTC of a reference day, so t \div 1000 is its    *)
(* observing day; cells holds every stored value as an opaque token.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Day(r) == r.t \div 1000
Holds(r, c) ==
    CASE c.col = "none" -> TRUE
      [] c.col = "night" /\ c.op = "<" -> r.night < c.val
      [] c.col = "night" /\ c.op = ">=" -> r.night >= c.val
      [] c.col = "night" /\ c.op = "==" -> r.night = c.val
      [] c.col = "band" /\ c.op = "==" -> r.band = c.txt
      [] c.col = "band" /\ c.op = "!=" -> r.band # c.txt
      [] c.col = "both" -> r.night >= c.val /\ r.band = c.txt
Select(tab, c) == SelectSeq(tab, LAMBDA r : Holds(r, c))
InNights(tab, a, b) == SelectSeq(tab, LAMBDA r : a <= Day(r) /\ Day(r) <= b)
(* Derived columns; "chain" is computed from the column "twice" adds.       *)
Value(r, k) == CASE k = "day_obs_iso8601" -> Day(r)
                 [] k = "twice" -> 2 * r.night
                 [] k = "chain" -> 2 * r.night + 1
(* and "place" is the place of a visit among those the stacker is given     *)
(* (a condition applies before the derived columns are computed).           *)
Derived(tab, ks) == [j \in 1 .. Len(tab) |-> [n \in 1 .. Len(ks) |-> IF ks[n] = "place" THEN j ELSE Value(tab[j], ks[n])]]
Cells(tab) == [j \in 1 .. Len(tab) |-> tab[j].cells]
-----------------------------------------------------------------------------
(* Simulations [name, tel, tags, made, first, last, tab]; the one used for  *)
(* a night range is the last made that covers it and carries the tags.      *)
Suits(s, q) == s.tel = q.tel /\ q.tags \subseteq s.tags /\ s.first <= q.first /\ q.last <= s.last
Usable(sims, q) == {s \in sims : Suits(s, q)}
Latest(sims, q) == CHOOSE s \in Usable(sims, q) : \A x \in Usable(sims, q) : x.made <= s.made
CountOn(tab, d) == Len(InNights(tab, d, d))
=============================================================================
