--------------------------- MODULE RunSummariesMC ---------------------------
EXTENDS RunSummaries, Json
CONSTANTS MaxDirs, MaxRecs
VARIABLES ds, open
Recs == [run : {"r1", "r2"}, stat : {"Mean"}, metric : {"m"}, label : {"", "x"}, slicer : {"S"}, val : {"null", "n1", "n2"}]
Init == ds = <<>> /\ open = TRUE
Next ==
    \/ /\ Len(ds) < MaxDirs
       /\ ds' = Append(ds, <<>>) /\ open' = TRUE
    \/ /\ ds # <<>> /\ Len(ds[Len(ds)]) < MaxRecs
       /\ \E r \in Recs : ds' = [ds EXCEPT ![Len(ds)] = Append(@, r)]
       /\ UNCHANGED open
Emit == PrintT("@@" \o ToJson(ds))
Inv ==
    /\ Emit
    /\ \A run \in Rows(ds), c \in Cols(ds) : Cell(ds, run, c) # "null" =>
          \E k \in 1 .. Len(ds), j \in 1 .. MaxRecs : j <= Len(ds[k]) /\ ds[k][j].run = run /\ Column(ds[k][j]) = c /\ ds[k][j].val = Cell(ds, run, c)
    /\ \A k \in 1 .. Len(ds) : ds[k] = <<>> =>
          LET rest == SubSeq(ds, 1, k - 1) \o SubSeq(ds, k + 1, Len(ds))
          IN Rows(rest) = Rows(ds) /\ \A run \in Rows(ds), c \in Cols(ds) : Cell(rest, run, c) = Cell(ds, run, c)
=============================================================================
