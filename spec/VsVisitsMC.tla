----------------------------- MODULE VsVisitsMC -----------------------------
EXTENDS VsVisits, Json
CONSTANTS MaxVisits
VARIABLES tab
Times == {0, 499, 999, 1000, 2999}
Conds == {[col |-> "none", op |-> "", val |-> 0, txt |-> ""], [col |-> "night", op |-> "<", val |-> 1, txt |-> ""],
          [col |-> "night", op |-> ">=", val |-> 1, txt |-> ""], [col |-> "band", op |-> "==", val |-> 0, txt |-> "r"],
          [col |-> "band", op |-> "!=", val |-> 0, txt |-> "r"], [col |-> "both", op |-> "", val |-> 1, txt |-> "g"]}
Init == tab = <<>>
Next == /\ Len(tab) < MaxVisits
        /\ \E t \in Times, n \in {0, 1}, b \in {"r", "g"} :
               tab' = Append(tab, [id |-> Len(tab) + 1, t |-> t, night |-> n, band |-> b, cells |-> <<>>])
        /\ PrintT("@@" \o ToJson(tab'))
IsSub(s, t) == \E f \in [1 .. Len(s) -> 1 .. Len(t)] :
                  (\A i, j \in 1 .. Len(s) : i < j => f[i] < f[j]) /\ (\A i \in 1 .. Len(s) : s[i] = t[f[i]])
Inv == /\ \A c \in Conds : IsSub(Select(tab, c), tab)
       /\ InNights(tab, 0, 2) = tab
       /\ CountOn(tab, 0) + CountOn(tab, 1) + CountOn(tab, 2) = Len(tab)
       /\ \A d \in {0, 1} : Len(InNights(tab, d, d + 1)) = CountOn(tab, d) + CountOn(tab, d + 1)
=============================================================================
