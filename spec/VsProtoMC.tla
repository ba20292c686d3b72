----------------------------- MODULE VsProtoMC -----------------------------
EXTENDS VsProto, Json
CONSTANTS MaxOps
VARIABLES st, hist, phase
Sims == {[label |-> "a", tags |-> {"ideal", "nominal"}, files |-> {}, tel |-> "simonyi", first |-> 1, last |-> 3, kw |-> {}],
         [label |-> "b", tags |-> {}, files |-> {}, tel |-> "auxtel", first |-> 2, last |-> 2, kw |-> {}]}
Init == st = [Empty EXCEPT !.today = 10] /\ hist = <<>> /\ phase = 10 - 4
H(e) == hist' = Append(hist, e) /\ PrintT("@@" \o ToJson(hist'))
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Sims : \E n \in Allowed(st) :
                 st' = Add(st, s, n, TRUE) /\ UNCHANGED phase /\ H([op |-> "add", s |-> s])
           \/ \E n \in {Max0(Numbers(st, st.today)) + 1} :
                 st' = Add(st, [label |-> "x", tags |-> {}, files |-> {}, tel |-> "", first |-> 0, last |-> 0, kw |-> {}], n, FALSE)
                 /\ UNCHANGED phase /\ H([op |-> "addbad", s |-> [label |-> "x", tags |-> {}, files |-> {}, tel |-> "", first |-> 0, last |-> 0, kw |-> {}]])
           \/ phase < 9 /\ (\E x \in st.ents : x.day = st.today) /\ ~(\E x \in st.cache : x.day = st.today)
                 /\ st' = EndDay(st, phase) /\ phase' = phase + 2 /\ H([op |-> "endday", day |-> phase])
           \/ Done(st) # {} /\ st' = Compile(st) /\ UNCHANGED phase /\ H([op |-> "compile", append |-> FALSE])
           \/ st.havecache /\ Done(st) # {} /\ st' = Append_(st) /\ UNCHANGED phase /\ H([op |-> "compile", append |-> TRUE])
Inv == UniqueNumbers(st) /\ CacheFaithful(st) /\ CacheAgrees(st, 3) /\ CacheAgrees(st, 100)
       /\ (\A q \in [first : {1, 2}, last : {2, 3}, tel : {"simonyi"}, tags : {{}, {"ideal"}}, age : {2, 8}] :
              Cardinality(Latest(st, q)) <= 1)
View == <<st, phase, Len(hist)>>
=============================================================================
