---------------------------- MODULE OrbitSetsMC -----------------------------
(* Design: all ways in which a table of one format, or with the elements of   *)
(* two, can lack a column and name its format.                                *)
EXTENDS OrbitSets, Json
CONSTANTS NRows
VARIABLES cols, stated, done
All == Elements("COM") \cup Elements("KEP") \cup Elements("CAR")
Init == /\ cols \in {(Elements(f) \ {m}) \cup o : f \in Formats, m \in All \cup {"-"}, o \in SUBSET Optional}
                 \cup {Elements(f) \cup Elements(g) \cup o : f \in Formats, g \in Formats, o \in SUBSET Optional}
        /\ stated \in {{""}, {"COM"}, {"KEP"}, {"CAR"}, {"CART"}, {"COM", "KEP"}, {"DEL"}}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<cols, stated>>
        /\ PrintT("@@" \o ToJson([cols |-> cols, stated |-> stated]))
Row(k) == [c \in cols |-> IF c = "epoch" THEN 2192000 ELSE IF c = "sed_filename" THEN "S.dat" ELSE 7 + k]
Rows == [k \in 1 .. NRows |-> Row(k)]
Fill(k, r) == [c \in cols \cup Optional |->
                IF c \in cols THEN r[c] ELSE CASE c = "obj_id" -> k - 1 [] c = "H" -> 800 [] c = "g" -> 6
                                               [] c = "sed_filename" -> CHOOSE s \in Colours(r) : TRUE]
Out == [k \in 1 .. NRows |-> Fill(k, Rows[k])]
(* what is accepted, once completed, is accepted again, as it is *)
Again == ~Refused(Rows, cols, stated) =>
            /\ Completed(Out, Rows, cols)
            /\ LET f == Format(cols, stated)
               IN ~Refused(Out, cols \cup Optional, {f}) /\ Completed(Out, Out, cols \cup Optional)
(* every element decides over equality *)
Telling == ~Refused(Rows, cols, stated) =>
            LET f == Format(cols, stated)
            IN /\ SameSet(Out, Out, f)
               /\ \A c \in Elements(f) : ~SameSet(Out, [Out EXCEPT ![NRows][c] = @ + 1], f)
               /\ ~SameSet(Out, SubSeq(Out, 1, NRows - 1), f)
(* nothing is both refused and complete *)
Sharp == (stated = {""} /\ \E f \in Formats : cols \cap (All \ Elements(f)) = {} /\ Elements(f) \subseteq cols)
            => ~Refused(Rows, cols, stated)
=============================================================================
