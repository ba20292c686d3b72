----------------------------- MODULE VsQueryMC -----------------------------
(* All catalogues of up to MaxSims simulations of a small universe; each is *)
(* printed so that the real archive can be filled with it.                  *)
EXTENDS VsQuery, Json
CONSTANTS MaxSims
VARIABLES cat
Now == 3000000
T == {Now - 200, Now - 1640, Now - 1700, Now - 5000}
Ranges == {<<2082, 2083>>, <<2083, 2083>>, <<-1, 2084>>}
TagSets == {{"prenight", "ideal"}, {"nominal"}, {"prenight", "ideal", "nominal"}}
Mk(n, t, r, g, tel) == [id |-> "u" \o ToString(n), tel |-> tel, first |-> r[1], last |-> r[2], t |-> t, tags |-> g,
                   comments |-> <<>>, files |-> {}, stats |-> {<<2083, "alt", n>>}]
Init == cat = {}
Next == /\ Cardinality(cat) < MaxSims
        /\ \E t \in T, r \in Ranges, g \in TagSets, tel \in {"simonyi", "auxtel"} :
              /\ \A s \in cat : s.t # t
              /\ (tel = "auxtel" => g = {"prenight", "ideal"})
              /\ cat' = cat \cup {Mk(Cardinality(cat) + 1, t, r, g, tel)}
        /\ PrintT("@@" \o ToJson(cat'))
Queries == [first : {2082, 2083}, last : {2083, 2084}, tel : {"simonyi", "auxtel"},
            tags : {{}, {"prenight"}, {"ideal", "nominal"}}, now : {Now}, age : {1, 2, 10}]
Inv == /\ NumbersExact(cat)
       /\ \A q, q2 \in Queries : MoreTagsFewer(cat, q, q2) /\ OlderMore(cat, q, q2)
       /\ \A q \in Queries : \A s \in Sims(cat, q) : s.first <= q.first /\ q.last <= s.last
=============================================================================
