----------------------------- MODULE Sightings ------------------------------
(* Which visits see a moving object (C05).  Angles in 1/32 degree, times in   *)
(* 1/8 day.  An object moves along the equator (kind "ra"), along a meridian  *)
(* ("dec") or stands still anywhere, o.v being its motion per unit of time.   *)
EXTENDS Rat
Ring == 360 * 32
Wrap(x) == x % Ring
(* the difference of two right ascensions, the short way round *)
Apart(a, b) == LET d == (a - b) % Ring IN IF d > Ring \div 2 THEN Ring - d ELSE d
Position(o, t) == [ra |-> IF o.kind = "ra" THEN Wrap(o.ra + (o.v * t)) ELSE o.ra, dec |-> IF o.kind = "dec" THEN o.dec + (o.v * t) ELSE o.dec]
(* "in", "out", or "open" where the geometry of the sphere would have to be evaluated *)
Circle(p, v, r) ==
    LET da == Apart(p.ra, v.ra)
        dd == RAbs(p.dec - v.dec)
        exact == (p.dec = 0 /\ v.dec = 0) \/ da = 0 \/ da = Ring \div 2
        sep == IF da = 0 THEN dd ELSE IF da = Ring \div 2 THEN (180 * 32) - RAbs(p.dec + v.dec) ELSE da
        tilted == RAbs(p.dec) <= 60 * 32 /\ RAbs(v.dec) <= 60 * 32
    IN IF exact THEN IF sep <= r THEN "in" ELSE "out"
       ELSE IF dd > r \/ (tilted /\ da > 4 * r) THEN "out"
       ELSE IF dd + da <= r THEN "in" ELSE "open"
(* on the equator and at 60 degrees the scale of right ascension is 1 and 1/2 *)
Rectangle(p, v, x, y) ==
    LET da == Apart(p.ra, v.ra)
        w == CASE v.dec = 0 -> 2 [] RAbs(v.dec) = 60 * 32 -> 1
    IN IF RAbs(p.dec - v.dec) <= y /\ w * da <= 2 * x THEN "in" ELSE "out"
(* a camera with chips up to x and y from its centre, turned by quarters *)
Camera(p, v, x, y) ==
    LET da == Apart(p.ra, v.ra)
        dd == RAbs(p.dec - v.dec)
        a == IF v.quarter % 2 = 0 THEN x ELSE y
        b == IF v.quarter % 2 = 0 THEN y ELSE x
        m == IF x < y THEN x ELSE y
    IN IF da = 0 THEN IF dd <= b THEN "in" ELSE "out"
       ELSE IF p.dec = 0 /\ v.dec = 0 THEN IF da <= a THEN "in" ELSE "out"
       ELSE IF dd > (2 * (x + y)) \/ (RAbs(p.dec) <= 60 * 32 /\ RAbs(v.dec) <= 60 * 32 /\ da > 8 * (x + y)) THEN "out"
       ELSE IF dd + da <= m \div 2 THEN "in" ELSE "open"
Sees(f, o, v) == LET p == Position(o, v.t)
                 IN CASE f.shape = "circle" -> Circle(p, v, f.r) [] f.shape = "rectangle" -> Rectangle(p, v, f.x, f.y) [] f.shape = "camera" -> Camera(p, v, f.x, f.y)
(* losses from trailing, for a trail of x seeing widths: 10^(dmag/1.25) - 1 *)
(* speed in degrees per day, exposure in seconds, seeing in 1/100 arcsecond *)
Widths(speed, texp, seeing) == Norm(speed * texp * 100, 24 * seeing)
Loss(x, a, b) == IF x[1] = 0 THEN <<0, 1>> ELSE Norm(a * x[1] * x[1], x[2] * ((1000 * x[2]) + (b * x[1])))
=============================================================================
