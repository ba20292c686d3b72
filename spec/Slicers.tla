------------------------------ MODULE Slicers ------------------------------
(* Which visits belong to which slice.  Visits are numbered from 1; vals    *)
(* gives the value each has on the column sliced on; edges ascends.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(s) == {s[k] : k \in 1 .. Len(s)}
In(v, lo, hi) == lo <= v /\ v < hi
(* Half-open bins.                                                          *)
Bin(vals, edges, k) == {j \in 1 .. Len(vals) : In(vals[j], edges[k], edges[k + 1])}
(* Bins of which the last also takes what lies beyond it.                   *)
OpenBin(vals, edges, k) ==
    {j \in 1 .. Len(vals) : edges[k] <= vals[j] /\ (k = Len(edges) - 1 \/ vals[j] < edges[k + 1])}
(* Frames of a cumulative movie: everything up to the end of the frame.     *)
UpTo(vals, edges, k) == {j \in 1 .. Len(vals) : k = Len(edges) - 1 \/ vals[j] < edges[k + 1]}
(* Several dimensions: the slice of the combination idx of bins.            *)
Cross(cols, edges, idx) == {j \in 1 .. Len(cols[1]) : \A d \in 1 .. Len(cols) : j \in OpenBin(cols[d], edges[d], idx[d])}
(* Fixed intervals of length step from the start of the day of the first.   *)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Start(vals, day) == (Min(Set(vals)) \div day) * day
End(vals, day) == (Max(Set(vals)) \div day + 1) * day
NInterval(vals, day, step) == (End(vals, day) - Start(vals, day) + step - 1) \div step
Interval(vals, day, step, k) == {j \in 1 .. Len(vals) : (vals[j] - Start(vals, day)) \div step = k - 1}
(* Blocks: successive visits with one note and at most gap between.         *)
RECURSIVE InOrder(_, _)
InOrder(vals, S) == IF S = {} THEN <<>> ELSE LET j == CHOOSE x \in S : \A y \in S : vals[x] <= vals[y] IN <<j>> \o InOrder(vals, S \ {j})
RECURSIVE Blocks(_, _, _, _, _)
Blocks(order, vals, durs, notes, gap) ==
    IF order = <<>> THEN <<>>
    ELSE LET rest == Blocks(Tail(order), vals, durs, notes, gap)
             a == Head(order)
         IN IF rest = <<>> THEN <<<<a>>>>
            ELSE LET b == Head(Head(rest))
                 IN IF notes[a] = notes[b] /\ vals[b] - (vals[a] + durs[a]) <= gap
                    THEN <<<<a>> \o Head(rest)>> \o Tail(rest) ELSE <<<<a>>>> \o rest
(* Spatial: everything within the radius.                                   *)
Within(dists, radius) == {j \in 1 .. Len(dists) : dists[j] <= radius}
(* With the camera: and on a chip, which reach up to 3825 and 5625 arcsec   *)
(* along the two directions of the camera, not beyond its radius.           *)
OnChip(at, crad) == {j \in 1 .. Len(at) : at[j][1] <= 3825 /\ at[j][2] <= 5625 /\ at[j][1] * at[j][1] + at[j][2] * at[j][2] <= crad * crad}
=============================================================================
