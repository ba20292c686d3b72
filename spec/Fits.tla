-------------------------------- MODULE Fits --------------------------------
(* Cutting a span of time into segments that are fitted one by one (C01).    *)
(* Times are whole numbers; a piece is [a |-> .., b |-> ..].                 *)
EXTENDS Rat
ByStart(ps) == SortSeq(ps, LAMBDA p, q : p.a < q.a \/ (p.a = q.a /\ p.b < q.b))
(* the pieces lie one after the other from lo to hi *)
Tiles(ps, lo, hi) ==
    LET s == ByStart(ps)
    IN /\ Len(s) > 0
       /\ s[1].a = lo
       /\ s[Len(s)].b = hi
       /\ \A k \in DOMAIN s : s[k].a < s[k].b /\ (k > 1 => s[k].a = s[k - 1].b)
(* every piece is part of one of the segments of the length first tried (times are known to within slack) *)
Nested(ps, lo, len, slack) == \A k \in DOMAIN ps : (ps[k].a + slack - lo) \div len = (ps[k].b - 1 - slack - lo) \div len
(* a whole number of lengths makes up the span *)
Divides(len, span) == LET n == (span + (len \div 2)) \div len IN n > 0 /\ RAbs((n * len) - span) <= n
Overlap(p, c) == p.a < c.b /\ c.a < p.b
(* given up only where there is something that cannot be fitted *)
Justified(failed, hopeless) == \A k \in DOMAIN failed : \E h \in DOMAIN hopeless : Overlap(failed[k], hopeless[h])
(* nothing that cannot be fitted is kept *)
Usable(kept, never) == \A k \in DOMAIN kept : \A h \in DOMAIN never : ~Overlap(kept[k], never[h])
=============================================================================
