----------------------------- MODULE StackersMC ----------------------------
EXTENDS Stackers
CONSTANTS First, LastDay, Rows
VARIABLES day, tab
(* 1. the calendar *)
CInit == day = First /\ tab = <<>>
CNext == day < LastDay /\ day' = day + 1 /\ UNCHANGED tab
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Long(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
After(c) == IF c.d < Long(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
            ELSE IF c.m < 12 THEN [c EXCEPT !.d = 1, !.m = @ + 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
Calendar == /\ Civil(day + 1) = After(Civil(day))
            /\ Civil(40587) = [y |-> 1970, m |-> 1, d |-> 1]
            /\ DayObs([day |-> day, s |-> 43200]) = DayObs([day |-> day + 1, s |-> 43199])
(* 2. two stackers on a table: order of visits and of stackers, running again *)
Perms == {p \in [1 .. Rows -> 1 .. Rows] : \A a, b \in 1 .. Rows : a # b => p[a] # p[b]}
Shuffle(t, p) == [c \in DOMAIN t |-> [k \in 1 .. Rows |-> t[c][p[k]]]]
Stackers == {"p", "q"}
Adds(s) == IF s = "p" THEN {"a", "b"} ELSE {"c"}
\* what a stacker gives: a function of the row (its "x")
Own(t, s) == [c \in Adds(s) |-> [k \in 1 .. Rows |-> <<s, c, t["x"][k]>>]]
Ran(t, s, o) == Stacked(t, Adds(s), o, Own(t, s))
TInit == day = 0 /\ \E x \in [1 .. Rows -> 1 .. 2], z \in [1 .. Rows -> 0 .. 1], pre \in SUBSET {"a", "b", "c"} :
             tab = [c \in {"x", "z"} \cup pre |-> IF c = "x" THEN x ELSE IF c = "z" THEN z ELSE [k \in 1 .. Rows |-> <<"old", c, k>>]]
TNext == UNCHANGED day /\ \E s \in Stackers, o \in BOOLEAN : tab' = Ran(tab, s, o)
Tables == /\ \A s \in Stackers, o \in BOOLEAN, p \in Perms : Ran(Shuffle(tab, p), s, o) = Shuffle(Ran(tab, s, o), p)
          /\ \A s \in Stackers, o \in BOOLEAN : LET r == Ran(tab, s, o)
                IN Ran(r, s, FALSE) = r /\ Ran(Ran(tab, s, TRUE), s, TRUE) = Ran(tab, s, TRUE) /\ \A c \in DOMAIN tab \ Adds(s) : r[c] = tab[c]
          /\ \A o, u \in BOOLEAN : Ran(Ran(tab, "p", o), "q", u) = Ran(Ran(tab, "q", u), "p", o)
=============================================================================
