------------------------------ MODULE VsQuery ------------------------------
(* Questions about an archive's simulations: which of them cover a night,   *)
(* their daily numbers, nightly statistics, and the pre-night lists.        *)
(* Instants are minutes, nights are day numbers; an instant t belongs to    *)
(* the night (t - 720) \div 1440 (UTC-12h).                                 *)
(* A catalogue is the set of simulations in the archive:                    *)
(*   [id, tel, first, last, t, tags, comments, files, stats]                *)
(* stats: set of <<night, value name, count>>; null nights are -1.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Night(t) == (t - 720) \div 1440
Covers(s, d) == s.first # -1 /\ s.last # -1 /\ s.first <= d /\ d <= s.last
Young(s, now, age) == s.t >= now - 1440 * age

Sims(cat, q) == {s \in cat : /\ Covers(s, q.first) /\ Covers(s, q.last)
                             /\ s.tel = q.tel
                             /\ q.tags \subseteq s.tags
                             /\ Young(s, q.now, q.age)}

SameDay(cat, s) == {u \in cat : Night(u.t) = Night(s.t)}
LowNum(cat, s) == 1 + Cardinality({u \in SameDay(cat, s) : u.t < s.t})
HighNum(cat, s) == Cardinality({u \in SameDay(cat, s) : u.t <= s.t})

(* One row as it must be reported.                                          *)
Row(s) == [id |-> s.id, simday |-> Night(s.t), tags |-> s.tags, comments |-> s.comments, files |-> s.files,
           first |-> s.first, last |-> s.last, tel |-> s.tel, t |-> s.t]
StatsOn(s, d) == {<<x[2], x[3]>> : x \in {y \in s.stats : y[1] = d}}

(* Latest pre-night simulation with the required tags.                      *)
Eligible(cat, q) == {s \in cat : q.tags \subseteq s.tags /\ Young(s, q.now, q.age)}
Latest(S) == {s \in S : \A u \in S : u.t <= s.t}

-----------------------------------------------------------------------------
NumbersExact(cat) ==
    \A d \in {Night(s.t) : s \in cat} :
        LET D == {s \in cat : Night(s.t) = d}
        IN (\A s, u \in D : s.t = u.t => s = u)
              => {LowNum(cat, s) : s \in D} = 1 .. Cardinality(D) /\ \A s \in D : LowNum(cat, s) = HighNum(cat, s)
MoreTagsFewer(cat, q, q2) == (q.tags \subseteq q2.tags /\ [q EXCEPT !.tags = {}] = [q2 EXCEPT !.tags = {}])
                               => Sims(cat, q2) \subseteq Sims(cat, q)
OlderMore(cat, q, q2) == (q.age <= q2.age /\ [q EXCEPT !.age = 0] = [q2 EXCEPT !.age = 0])
                               => Sims(cat, q) \subseteq Sims(cat, q2)
=============================================================================
