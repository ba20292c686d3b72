--------------------------- MODULE OrbitSetsTrace ---------------------------
EXTENDS OrbitSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Given(e) == IF e.file THEN [k \in DOMAIN e.rows |-> Named(e.rows[k])] ELSE e.rows
Cols(e) == IF e.file THEN {Alias(c) : c \in SeqToSet(e.cols)} ELSE SeqToSet(e.cols)
MustRefuse(e) == \/ Refused(Given(e), Cols(e), SeqToSet(e.stated))
                 \/ (e.file /\ Ambiguous(SeqToSet(e.cols)))
                 \/ (e.file /\ "inc" \in Cols(e) /\ \E k \in DOMAIN e.rows : Given(e)[k]["inc"] < 0)
(* what was found out about an accepted table *)
Found(e, f, x) ==
    CASE x.q = "item" -> x.format = f /\ x.out = <<e.out[x.k]>>
      [] x.q = "slice" -> x.format = f /\ x.out = [j \in DOMAIN x.ks |-> e.out[x.ks[j]]]
      [] x.q = "walk" -> x.out = e.out /\ \A k \in DOMAIN x.formats : x.formats[k] = f
      [] x.q = "equal" -> x.eq = (x.format = f /\ SameSet(e.out, x.out, f)) /\ x.ne = ~x.eq
      [] x.q = "other" -> ~x.eq
      [] x.q = "update" -> /\ x.format = x.to /\ Len(x.out) = Len(e.out)
                           /\ \A k \in DOMAIN x.out :
                                /\ x.out[k]["obj_id"] = e.out[k]["obj_id"]
                                /\ x.out[k]["sed_filename"] = e.out[k]["sed_filename"]
                                /\ \A c \in DOMAIN x.new[k] : x.out[k][c] = x.new[k][c]
Bad(e) ==
    (IF e.kept THEN {} ELSE {"modifies the table given"})
    \cup (IF MustRefuse(e) THEN IF e.raised # "" THEN {} ELSE {"accepted"}
          ELSE IF e.raised # "" THEN IF Odd(Given(e)) THEN {} ELSE {"refused"}
          ELSE LET f == Format(Cols(e), SeqToSet(e.stated))
               IN (IF e.format = f /\ e.len = Len(e.rows) THEN {} ELSE {"format"})
                  \cup (IF Completed(e.out, Given(e), Cols(e)) THEN {} ELSE {"contents"})
                  \cup UNION {IF e.found[k].raised # "" THEN {e.found[k].q \o " raised"}
                              ELSE IF Found(e, f, e.found[k]) THEN {} ELSE {e.found[k].q} : k \in DOMAIN e.found})
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
