-------------------------- MODULE SimpleStatsMC ----------------------------
EXTENDS SimpleStats, Json
CONSTANTS Neg, High, Size
Low == -Neg
VARIABLE s
Init == s = <<>>
Next == Len(s) < Size /\ \E v \in Low .. High : (s # <<>> => s[Len(s)] <= v) /\ s' = Append(s, v)
Rev(t) == [k \in DOMAIN t |-> t[Len(t) + 1 - k]]
Ang(t) == Map(t, LAMBDA x : ((x - Low) * 72 + 17 * x + 360) % 360)
Inv == s # <<>> =>
    /\ PrintT("@@" \o ToJson(s))
    /\ Percentile(s, 0) = Q(MinS(s)) /\ Percentile(s, 100) = Q(MaxS(s))
    /\ \A p \in {0, 10, 25, 50, 75, 90} : RLe(Percentile(s, p), Percentile(s, p + 10))
    /\ RLe(Q(MinS(s)), Mean(s)) /\ RLe(Mean(s), Q(MaxS(s)))
    /\ \A p \in {25, 33, 50, 90} : Percentile(Rev(s), p) = Percentile(s, p)
    (* moments: shifting changes no spread, and mean square deviation is the variance *)
    /\ Var(Map(s, LAMBDA x : x + 3)) = Var(s) /\ RSgn(Var(s)) >= 0
    /\ RMul(Q(Len(s)), Var(s)) = FoldSeq(LAMBDA x, a : RAdd(a, RSqr(RSub(Q(x), Mean(s)))), Q(0), s)
    /\ RSgn(Var(s)) = 0 <=> Cardinality(Ints(s)) = 1
    (* nobody is beyond k sigma but at most n/k^2 (Chebyshev), taking either boundary *)
    /\ \A w \in {2, 4, 6} : LET k == CountIf(s, LAMBDA x : Beyond(x, s, w, FALSE)) + CountIf(s, LAMBDA x : Beyond(x, s, -w, FALSE))
                            IN w * w * k <= 4 * Len(s)
    (* turning all angles together changes neither their range nor their spread *)
    /\ LET a == Ang(s) b == Map(a, LAMBDA x : (x + 100) % 360)
       IN /\ MaxS(Gaps(Sorted(a))) = MaxS(Gaps(Sorted(b)))
          /\ {Var(t) : t \in Rotations(a)} = {Var(t) : t \in Rotations(b)}
          /\ {(c + 100) % 360 : c \in Centres(a)} = Centres(b)
    (* the best pixels of any number are a subset no worse than the others *)
    /\ \A k \in 1 .. Len(s) : RLe(Mean(s), Mean(Best(s, k, TRUE))) /\ RLe(Mean(Best(s, k, FALSE)), Mean(s))
=============================================================================
