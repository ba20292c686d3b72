--------------------------- MODULE MafStoreTrace ----------------------------
(* Judges what real bundles and slicers saved and read.                     *)
EXTENDS MafStore, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, files
Checks(e) ==
    CASE e.op = "reset" -> [ok |-> TRUE]
      [] e.op = "name" -> [root |-> e.got = FileRoot(e.run, e.name, e.label, e.kind)]
      [] e.op = "label" -> [label |-> e.got = (IF e.given THEN e.label ELSE LabelOf(e.con))]
      [] e.op = "make" -> [made |-> e.got = e.given]
      [] e.op = "write" -> [listing |-> Set(e.listing) = DOMAIN files \cup {PathOf(e.dir, e.root, e.suffix)},
                            unchanged |-> e.after = e.rec]
      [] e.op = "read" -> [known |-> e.path \in DOMAIN files,
                           same |-> e.path \in DOMAIN files => e.rec = ReadBack(files[e.path], e.bundled),
                           root |-> e.bundled => PathOf(e.dir, e.root, "") = e.path,
                           listing |-> Set(e.listing) = DOMAIN files]
      [] e.op = "eq" -> LET s == Same(e.a, e.b)
                        IN [equal |-> s = "yes" => e.eq, different |-> s = "no" => ~e.eq, opposite |-> e.ne = ~e.eq]
      [] e.op = "again" -> [slices |-> e.first = e.second]
      [] e.op = "group" -> [refused |-> e.refused = Refused(e.roots), keys |-> ~e.refused => e.keys = e.roots]
      [] e.op = "json" -> [data |-> e.got = Export(e.kind, e.edges, e.lons, e.lats, e.vals, e.mask), header |-> e.header = Header(e), unchanged |-> e.unchanged]
      [] e.op = "nojson" -> [none |-> e.none]
Files(e) == IF e.op = "reset" THEN <<>>
            ELSE IF e.op = "write" THEN (PathOf(e.dir, e.root, e.suffix) :> e.rec) @@ files ELSE files
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == IF e.op = "name" THEN FileRoot(e.run, e.name, e.label, e.kind)
           ELSE IF e.op = "label" THEN LabelOf(e.con)
           ELSE IF e.op = "read" THEN (IF e.path \in DOMAIN files THEN ToString(ReadBack(files[e.path], e.bundled)) ELSE "")
           ELSE IF e.op = "eq" THEN Same(e.a, e.b)
           ELSE IF e.op = "json" THEN ToString(Export(e.kind, e.edges, e.lons, e.lats, e.vals, e.mask)) ELSE ""
TInit == i = 0 /\ files = <<>>
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ files' = Files(Trace[i + 1])
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
