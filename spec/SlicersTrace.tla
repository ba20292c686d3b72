---------------------------- MODULE SlicersTrace ----------------------------
EXTENDS Slicers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Once(s, S) == Set(s) = S /\ Len(s) = Cardinality(S)
N(e) == Len(e.vals)
Same(e, f(_)) == \A k \in 1 .. Len(e.slices) : Once(e.slices[k], f(k))
Common(e) == [ok |-> e.ok, edges |-> e.ok => e.asked = e.reported, forms |-> e.ok => e.consistent]
Seen(e, k) == Within(e.dists[k], e.radius) \cap (IF e.camera THEN OnChip(e.at[k], e.cradius) ELSE 1 .. N(e))
Checks(e) ==
    Common(e) @@
    (IF ~e.ok THEN [x |-> TRUE] ELSE
    CASE e.op = "oned" ->
           LET last == Len(e.edges) - 1
               atend == {j \in 1 .. N(e) : e.vals[j] = e.edges[last + 1]}
           IN [count |-> Len(e.slices) = last,
               slices |-> \A k \in 1 .. Len(e.slices) :
                             \/ Once(e.slices[k], Bin(e.vals, e.edges, k))
                             \/ k = last /\ Once(e.slices[k], Bin(e.vals, e.edges, k) \cup atend)]
      [] e.op = "movie" -> [count |-> Len(e.slices) = Len(e.edges) - 1, slices |-> Same(e, LAMBDA k : OpenBin(e.vals, e.edges, k))]
      [] e.op = "cumulative" -> [count |-> Len(e.slices) = Len(e.edges) - 1, slices |-> Same(e, LAMBDA k : UpTo(e.vals, e.edges, k))]
      [] e.op = "nd" ->
           [count |-> Len(e.slices) = Len(e.idxs) /\
                      Set(e.idxs) = {f \in [1 .. Len(e.cols) -> 1 .. 12] : \A d \in 1 .. Len(e.cols) : f[d] < Len(e.edges[d])}
                      /\ Len(e.idxs) = Cardinality(Set(e.idxs)),
            slices |-> \A k \in 1 .. Len(e.slices) : Once(e.slices[k], Cross(e.cols, e.edges, e.idxs[k]))]
      [] e.op = "interval" ->
           [count |-> Len(e.slices) = NInterval(e.vals, e.day, e.step),
            slices |-> Same(e, LAMBDA k : Interval(e.vals, e.day, e.step, k)),
            points |-> \A k \in 1 .. Len(e.points) : e.points[k] = <<Start(e.vals, e.day) + (k - 1) * e.step, e.step>>]
      [] e.op = "block" ->
           LET b == Blocks(InOrder(e.vals, 1 .. N(e)), e.vals, e.durs, e.notes, e.gap)
               last(s) == Max({e.vals[j] + e.durs[j] : j \in Set(s)})
           IN [count |-> Len(e.slices) = Len(b),
               slices |-> \A k \in 1 .. Len(e.slices) : k <= Len(b) => Once(e.slices[k], Set(b[k])),
               points |-> \A k \in 1 .. Len(e.points) : k <= Len(b) => e.points[k] = <<e.vals[b[k][1]], last(b[k]) - e.vals[b[k][1]]>>]
      [] e.op = "visit" ->
           LET o == InOrder(e.vals, 1 .. N(e))
           IN [count |-> Len(e.slices) = N(e),
               slices |-> \A k \in 1 .. Len(e.slices) : e.slices[k] = <<o[k]>>,
               points |-> \A k \in 1 .. Len(e.points) : e.points[k] = <<e.vals[o[k]], e.durs[o[k]], e.extra[o[k]]>>]
      [] e.op = "uni" -> [count |-> Len(e.slices) = 1, slices |-> Once(e.slices[1], 1 .. N(e))]
      [] e.op = "sky" -> [count |-> Len(e.slices) = Len(e.dists), slices |-> Same(e, LAMBDA k : Seen(e, k))]
      [] e.op = "subset" ->
           [count |-> Len(e.slices) = Len(e.ids),
            slices |-> Same(e, LAMBDA k : IF e.ids[k] \in Set(e.given) THEN Seen(e, k) ELSE {}),
            iterated |-> e.iterated = e.given]
      [] OTHER -> [known |-> FALSE])
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
