------------------------------ MODULE VsProto ------------------------------
(* The file based (prototype) archive: entries numbered per day of adding,  *)
(* a compiled listing that serves as a cache, and the search for the latest *)
(* pre-night simulation.  Entry: [day, n, done, s] with s the simulation    *)
(* [label, tags, files, tel, first, last, kw]; done is FALSE for what a     *)
(* failed addition left behind.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [ents |-> {}, cache |-> {}, havecache |-> FALSE, today |-> 0, damaged |-> {}]
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Numbers(st, d) == {x.n : x \in {y \in st.ents : y.day = d}}
DoneNumbers(st, d) == {x.n : x \in {y \in st.ents : y.day = d /\ y.done}}
Allowed(st) == LET d == st.today IN (Max0(DoneNumbers(st, d)) + 1) .. (Max0(Numbers(st, d)) + 1)
Add(st, s, n, done) == [st EXCEPT !.ents = @ \cup {[day |-> st.today, n |-> n, done |-> done, s |-> s]}]
(* A day passes: what was added today belongs to day d (d < today).         *)
EndDay(st, d) == [st EXCEPT !.ents = {IF x.day = st.today THEN [x EXCEPT !.day = d] ELSE x : x \in @},
                            !.damaged = {IF x[1] = st.today THEN <<d, x[2], x[3]>> ELSE x : x \in @}]
(* An entry is taken out of the archive (the compilation is not told).      *)
Remove(st, d, n) == [st EXCEPT !.ents = {x \in @ : ~(x.day = d /\ x.n = n)},
                               !.damaged = {x \in @ : ~(x[1] = d /\ x[2] = n)}]
Done(st) == {x \in st.ents : x.done}
InWindow(x, latest, nights) == x.day <= latest /\ x.day > latest - nights
Fresh(st, latest, nights) == {x \in Done(st) : InWindow(x, latest, nights)}
(* Through the cache: days before the last compiled one come from the cache.*)
MaxDay(S) == CHOOSE d \in {x.day : x \in S} : \A x \in S : x.day <= d
Cached(st, latest, nights) ==
    IF ~st.havecache \/ st.cache = {} THEN Fresh(st, latest, nights)
    ELSE {x \in st.cache : x.day < MaxDay(st.cache) /\ InWindow(x, latest, nights)}
         \cup {x \in Fresh(st, latest, nights) : x.day >= MaxDay(st.cache)}
Compile(st) == [st EXCEPT !.cache = Done(st), !.havecache = TRUE]
Append_(st) == [st EXCEPT !.cache = Cached(st, st.today, 10000), !.havecache = TRUE]
Matches(x, q) == /\ x.s.first <= q.first /\ q.last <= x.s.last
                 /\ (x.s.tel = "" \/ x.s.tel = q.tel)
                 /\ q.tags \subseteq x.s.tags
Later(x, y) == x.day > y.day \/ (x.day = y.day /\ x.n > y.n)
Best(S) == {x \in S : ~\E y \in S : Later(y, x)}
Latest(st, q) == Best({x \in Cached(st, st.today, q.age) : Matches(x, q)})
-----------------------------------------------------------------------------
UniqueNumbers(st) == \A x, y \in Done(st) : (x.day = y.day /\ x.n = y.n) => x = y
CacheFaithful(st) == st.cache \subseteq Done(st)
CacheAgrees(st, nights) == Cached(st, st.today, nights) = Fresh(st, st.today, nights)
=============================================================================
