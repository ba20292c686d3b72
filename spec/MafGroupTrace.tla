---------------------------- MODULE MafGroupTrace ---------------------------
(* Judges what bundles gave in the real code.  Each event is on its own:    *)
(* it holds the bundle, the visits, and what was observed.                  *)
EXTENDS MafGroup, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Pairs(s) == {<<s[k].name, s[k].val>> : k \in DOMAIN s}
(* The summaries which a set of values must have. *)
SumsOf(b, values) == {<<b.sums[k].name, Summary(b.sums[k], values)>> : k \in DOMAIN b.sums}
Run(e) == HasData(e.b, e.visits)
Checks(e) ==
    CASE e.op = "values" ->
           [raised |-> e.error = "",
            ran |-> e.error = "" => (e.ran = Run(e) /\ e.present = Run(e)),
            values |-> (e.error = "" /\ Run(e) /\ e.present) => e.obs = ValuesOf(e.b, e.visits),
            fill |-> (e.error = "" /\ e.present) => e.fill]
      [] e.op = "visits" -> [unchanged |-> e.same]
      [] e.op = "results" ->
           LET v == ValuesOf(e.b, e.visits)
               reds == ReduceNames(e.b.metric)
               own == IF reds = {} THEN SumsOf(e.b, v) ELSE {}
           IN [raised |-> e.error = "",
               reduced |-> e.error = "" => (Run(e) => /\ {e.red[k].name : k \in DOMAIN e.red} = reds
                                                      /\ Len(e.red) = Cardinality(reds)
                                                      /\ \A k \in DOMAIN e.red : e.red[k].obs = ReducedOf(e.red[k].name, v)),
               summary |-> e.error = "" => (Run(e) => Pairs(e.sums) = own),
               redsums |-> e.error = "" => (Run(e) => \A k \in DOMAIN e.red :
                                               Pairs(e.red[k].sums) = SumsOf(e.b, ReducedOf(e.red[k].name, v))),
               recorded |-> (e.error = "" /\ e.recorded) =>
                               /\ Len(e.rows) = (IF Run(e) THEN 1 + Cardinality(reds) ELSE 0)
                               /\ Run(e) => /\ {e.rows[k].name : k \in DOMAIN e.rows} = {""} \cup reds
                                            /\ \A k \in DOMAIN e.rows : LET r == e.rows[k]
                                                  IN /\ r.identity
                                                     /\ Pairs(r.sums) = (IF r.name = "" THEN own
                                                                         ELSE SumsOf(e.b, ReducedOf(r.name, v))),
               files |-> (e.error = "" /\ e.written) => Set(e.files) = (IF Run(e) THEN {""} \cup reds ELSE {})]
      [] e.op = "resolve" ->
           LET S == Stackers(e.b)
           IN [raised |-> e.error = "",
               columns |-> e.error = "" => Set(e.cols) = DbCols(S, Cols(e.b)),
               stackers |-> e.error = "" => Set(e.list) = S /\ Len(e.list) = Cardinality(S),
               order |-> e.error = "" => InOrder(e.list, S, Cols(e.b))]
      (* the real registry: needed columns, the stackers given, and for     *)
      (* each column which classes add it.                                  *)
      [] e.op = "registry" ->
           LET cls(c) == Set(e.classes[c].adds)
               req(c) == Set(e.classes[c].reqs)
               have == UNION {cls(c) : c \in Set(e.list)}
               needed == Set(e.cols) \cup UNION {req(c) : c \in Set(e.list)}
               derived == {c \in needed : \E k \in DOMAIN e.classes : c \in cls(k)}
               extra == Set(e.list) \ Set(e.given)
               bare(l) == UNION {cls(c) \ req(c) : c \in l}
           IN [raised |-> e.error = "",
               supplied |-> e.error = "" => derived \subseteq have,
               once |-> e.error = "" => Len(e.list) = Cardinality(Set(e.list)) /\ Set(e.given) \subseteq Set(e.list),
               needed |-> e.error = "" => \A x \in extra :
                            \E c \in cls(x) : /\ c \in needed
                                              /\ ~\E g \in Set(e.given) : c \in cls(g),
               columns |-> e.error = "" => Set(e.dbcols) = needed \ bare(Set(e.list)),
               order |-> e.error = "" => \A k \in DOMAIN e.list : \A c \in req(e.list[k]) :
                            c \in Set(e.dbcols) \/ \E j \in 1 .. k - 1 : c \in cls(e.list[j])]
      (* Running one stacker: columns are given as name -> content.  For the *)
      (* stackers that say so, columns are recomputed although present, or    *)
      (* visits are merged; "also" are columns of stackers they run.          *)
      [] e.op = "stack" ->
           LET b == DOMAIN e.before  f == DOMAIN e.first  own == Set(e.adds)  more == own \cup Set(e.also)
               Agree(x, y, cols) == \A c \in cols : x[c] = y[c]
           IN
           [raised |-> e.error = "",
            added |-> e.error = "" => /\ b \subseteq f /\ f \subseteq b \cup more
                                      /\ e.n > 0 => own \subseteq f,
            kept |-> (e.error = "" /\ ~e.merges) => \A c \in b \cap f : c \in own \/ e.first[c] = e.before[c],
            rows |-> (e.error = "" /\ ~e.merges) => e.nout = e.n,
            input |-> e.error = "" => e.after = e.before,
            repeated |-> e.error = "" => e.again = e.first,
            present |-> (e.error = "" /\ e.n > 0) => IF e.redo THEN Agree(e.keeping, e.first, f) ELSE e.keeping = e.marked,
            override |-> (e.error = "" /\ e.n > 0 /\ ~e.merges /\ ~(own \subseteq b)) => Agree(e.forced, e.first, f),
            (* each visit's values are those it has in any other table *)
            local |-> (e.error = "" /\ e.local) => \A k \in DOMAIN e.shuffled : e.shuffled[k] = e.rows[e.perm[k]],
            names |-> (e.error = "" /\ e.renamed) => e.plain = e.renamedgave]
      [] OTHER -> [known |-> FALSE]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == CASE e.op \in {"values", "results"} /\ Run(e) -> ToString(ValuesOf(e.b, e.visits))
             [] e.op = "resolve" -> ToString(<<Stackers(e.b), DbCols(Stackers(e.b), Cols(e.b))>>)
             [] OTHER -> ""
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
