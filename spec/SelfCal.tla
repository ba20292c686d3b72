------------------------------- MODULE SelfCal ------------------------------
(* Self-calibration (S01).  An observation is [s |-> star, p |-> patch].      *)
(* A star that is seen once, or a patch that holds one observation, says      *)
(* nothing about the calibration.                                             *)
EXTENDS Rat
Stars(O, obs) == {obs[k].s : k \in O}
Patches(O, obs) == {obs[k].p : k \in O}
OfStar(O, obs, s) == {k \in O : obs[k].s = s}
OfPatch(O, obs, p) == {k \in O : obs[k].p = p}
Useful(O, obs) == {k \in O : Cardinality(OfStar(O, obs, obs[k].s)) > 1 /\ Cardinality(OfPatch(O, obs, obs[k].p)) > 1}
RECURSIVE Clean(_, _)
Clean(O, obs) == LET u == Useful(O, obs) IN IF u = O THEN O ELSE Clean(u, obs)
Kept(obs) == Clean(DOMAIN obs, obs)
Stable(O, obs) == Useful(O, obs) = O
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* --- making the observations: a visit sees the stars within a radius of 80 units, *)
(* in n x n patches; positions are never on an edge                                 *)
Rotate(x, y, quarter) == CASE quarter = 0 -> <<x, y>> [] quarter = 1 -> <<y, -x>> [] quarter = 2 -> <<-x, -y>> [] quarter = 3 -> <<-y, x>>
Sees(v, s) == ((s.x - v.x) * (s.x - v.x)) + (s.y * s.y) < 6400
Patch(v, s, n, q) == LET r == Rotate(s.x - v.x, s.y, q)
                         w == 160 \div n
                     IN (v.id * n * n) + ((r[1] + 80) \div w) + (n * ((r[2] + 80) \div w))
(* the magnitude is that of the star and all the offsets *)
Catalogue(stars, visits, n, offset, turn) ==
    LET one(v) == {[s |-> stars[k].id, p |-> Patch(v, stars[k], n, (turn * v.quarter) % 4), m |-> stars[k].m + offset, true |-> stars[k].m] : k \in {j \in DOMAIN stars : Sees(v, stars[j])}}
    IN UNION {one(visits[k]) : k \in DOMAIN visits}
(* the uncertainty of a star d eighths of a magnitude fainter than the limit, in 1/100000: *)
(* 2.5 log10(1 + 1/(5 * 10^(-0.4 d/8))) for some d, -1 where it is not tabulated            *)
Spread(d) == CASE d = 0 -> 19795 [] d = -20 -> 2150 [] d = -40 -> 217 [] d = -60 -> 22
               [] d = -8 -> 8318 [] d = -16 -> 3388 [] d = -4 -> 12903 [] d = -12 -> 5322 [] OTHER -> -1
(* the squares of that and of the smallest uncertainty add up *)
Uncertain(u, d, floor) == Spread(d) = -1
    \/ LET w == (Spread(d) * Spread(d)) + (floor * floor) IN RAbs((u * u) - w) <= (4 * u) + (4 * Spread(d)) + 8
=============================================================================
