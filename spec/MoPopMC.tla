------------------------------ MODULE MoPopMC -------------------------------
(* All small populations: fractions are fractions, what more objects are    *)
(* found never lowers them, the cumulative fraction stays between those it  *)
(* is made of, every object is in one bin, and discoveries accumulate.      *)
EXTENDS MoPop, Json
CONSTANTS Objects, Mags, Values
VARIABLES t, print
Cells == {<<>>} \cup {<<v>> : v \in 0 .. Values}
Init == t \in [1 .. Objects -> [1 .. Mags -> Cells]] /\ print = PrintT("@@" \o ToJson([t |-> t]))
Next == UNCHANGED <<t, print>>
C(thr) == Differential(t, thr)
Fractions == \A thr \in 1 .. Values : \A j \in 1 .. Mags : RLe(Q(0), C(thr)[j]) /\ RLe(C(thr)[j], Q(1))
Falling == \A thr \in 1 .. Values - 1 : \A j \in 1 .. Mags : RLe(C(thr + 1)[j], C(thr)[j])
Between == \A thr \in 1 .. Values, b \in {1, 2, 10} :
              LET u == Completeness(t, thr, TRUE, b)
              IN /\ u[1] = C(thr)[1]
                 /\ \A j \in 1 .. Mags : (\E k \in 1 .. j : RLe(C(thr)[k], u[j])) /\ (\E k \in 1 .. j : RLe(u[j], C(thr)[k]))
Own == [k \in 1 .. Objects |-> (IF t[k][1] = <<>> THEN 3 ELSE 4 * t[k][1][1]) + k]
OneBin == \A n \in {1, 4}, least \in {1, 8, 16} : \A k \in 1 .. Objects : Cardinality({j \in 1 .. n : InBin(Own[k], Own, n, least, j)}) = 1
Accumulate == \A j \in 1 .. Mags : LET b == By(t, <<0, 1, 2>>, j) IN b[1] = Q(0) /\ RLe(b[1], b[2]) /\ RLe(b[2], b[3])
=============================================================================
