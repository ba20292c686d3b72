------------------------------ MODULE EphemMC ------------------------------
(* Design: every way in which Cells cells of time can be covered by adjoining *)
(* segments or not, for NObj objects.                                         *)
EXTENDS Ephem, Json
CONSTANTS NObj, Cells
VARIABLES cover, done
(* 0: not covered, 1: a segment starts, 2: the segment goes on *)
OneCover == {f \in [1 .. Cells -> 0 .. 2] : \A k \in 1 .. Cells : f[k] = 2 => (k > 1 /\ f[k - 1] # 0)}
Segs(c) ==
    LET of(o) == SelectSeq([k \in 1 .. Cells |->
                    IF c[o][k] = 1
                    THEN [o |-> o, a |-> 8 * (k - 1),
                          b |-> 8 * Max({j \in k .. Cells : \A m \in (k + 1) .. j : c[o][m] = 2})]
                    ELSE [o |-> 0, a |-> 0, b |-> 0]], LAMBDA s : s.o > 0)
    IN FoldSeq(LAMBDA o, acc : acc \o of(o), <<>>, [o \in 1 .. NObj |-> o])
Init == cover \in [1 .. NObj -> OneCover] /\ Segs(cover) # <<>> /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED cover
        /\ PrintT("@@" \o ToJson([segs |-> Segs(cover)]))
Times == -4 .. ((Cells * 8) + 4)
Covered(o, t) == \E k \in 1 .. Cells : cover[o][k] # 0 /\ 8 * (k - 1) <= t /\ t < 8 * k
(* one segment for every covered time, none where nothing is known *)
Single == \A o \in Objects(Segs(cover)), t \in Times :
    /\ Covered(o, t) => \E k \in DOMAIN Segs(cover) : Which(Segs(cover), o, t, FALSE) = {k}
    /\ (~Covered(o, t) /\ t % 8 # 0) => Which(Segs(cover), o, t, FALSE) = {0}
    /\ Which(Segs(cover), o, t, FALSE) # {0} => Which(Segs(cover), o, t, TRUE) = Which(Segs(cover), o, t, FALSE)
(* other objects do not matter *)
Own == \A o \in Objects(Segs(cover)), t \in Times :
    LET s == Segs(cover)
        mine == SelectSeq(s, LAMBDA q : q.o = o)
        pick(l, K) == {IF k = 0 THEN <<>> ELSE <<l[k].a, l[k].b>> : k \in K}
    IN pick(s, Which(s, o, t, FALSE)) = pick(mine, Which(mine, o, t, FALSE))
(* the series: T(n) at the ends is 1 or +-1, so values there are sums of coefficients *)
Ends == \A n \in 0 .. 5 : T(n, Q(1)) = Q(1) /\ T(n, Q(-1)) = Q(IF n % 2 = 0 THEN 1 ELSE -1)
                          /\ DT(n, Q(1)) = Q(n * n)
=============================================================================
