------------------------------ MODULE Stackers -----------------------------
(* Columns derived from the others of a visit (property T09).               *)
EXTENDS Rat
(* A table is a function from column names to sequences of values, one for  *)
(* each visit.  A stacker adds columns; own(c) are the values it would give  *)
(* to the visits on their own.                                              *)
Runs(tab, adds, override) == override \/ ~(adds \subseteq DOMAIN tab)
Stacked(tab, adds, override, own) ==
    [c \in DOMAIN tab \cup adds |-> IF c \in adds /\ Runs(tab, adds, override) THEN own[c] ELSE tab[c]]

(* ------------------------------------------------------------ dates *)
(* the calendar date of a modified Julian day (a whole number) *)
Civil(mjd) ==
    LET z == mjd - 40587 + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp == (5 * doy + 2) \div 153
        d == doy - ((153 * mp + 2) \div 5) + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> yoe + 400 * era + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
(* the night which a visit at second s of a day belongs to begins at noon *)
DayObs(o) == IF o.s >= 43200 THEN o.day ELSE o.day - 1
DayInt(n) == LET c == Civil(n) IN 10000 * c.y + 100 * c.m + c.d

(* ------------------------------------------------------------ time between visits *)
Earlier(a, b) == a.day < b.day \/ (a.day = b.day /\ a.s < b.s)
Closes(o, from) == (o.day - from.day) * 86400 + o.s + o.vt
(* w in time order; max2: twice the longest gap in seconds, 0 for none *)
Overhead(w, k, max2) ==
    IF k = 1 THEN <<>>
    ELSE IF DayObs(w[k]) # DayObs(w[k - 1]) THEN <<>>
    ELSE LET x == Closes(w[k], w[1]) - Closes(w[k - 1], w[1]) - w[k].exp
         IN IF max2 > 0 /\ 2 * x > max2 THEN <<>> ELSE <<x>>

(* ------------------------------------------------------------ single visits *)
(* hour angle in half hours (positions are given in half hours as well) *)
HourAngles(o) == LET h == o.lst - o.ra IN IF h > 24 THEN {h - 48} ELSE IF h < -24 THEN {h + 48} ELSE IF h \in {24, -24} THEN {24, -24} ELSE {h}
Tan2(z) == (<<<<0, 1>>, <<1, 3>>, <<1, 1>>, <<3, 1>>>>)[z]        \* zenith distances 0, 30, 45, 60
Angle(z) == (<<0, 30, 45, 60>>)[z]
(* (north: seen from a telescope below the other field)                     *)
NormAirmass(o, north) == Norm(o.air, 4 * (IF o.far # north THEN 2 ELSE 1))
Teff(o, base, normed) == IF normed THEN Norm(base * o.k, o.exp) ELSE Q(base * o.k)
(* electrons per second over 2 pi at which the peak of a point source saturates; <<>> if the sky does *)
Saturates(o, full) == LET rest == full - RDiv(Q(o.sky * o.exp), Q(o.nexp))[1]   \* exposure times divide evenly
                      IN IF rest < 0 THEN <<>> ELSE IF rest = 0 THEN <<0, 1>> ELSE RDiv(Q(rest * o.q * o.q), Norm(o.exp, o.nexp))
=============================================================================
