-------------------------- MODULE RunSummariesTrace --------------------------
EXTENDS RunSummaries, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
Once(s, S) == Set(s) = S /\ Len(s) = Cardinality(S)
Table(e, r, c) == e.cells[r][c]
RowsWanted(e) == Selected(e.hrows, e.runs \o Expand(e.fams, e.famdef), e.rorder)
ColsWanted(e) == Selected(e.hcols, e.metrics \o Expand(e.subs, e.subdef), e.morder)
Flag(e, c) == e.flags[c]
(* Twice the baseline value of column c.                                    *)
Base2(e, c) == Median2([k \in 1 .. Len(e.base) |-> e.cells[e.base[k]][c]])
ColsNormed(e) == IF e.plain THEN e.hcols ELSE SelectSeq(e.hcols, LAMBDA c : c \in DOMAIN e.flags)
Norm2(v, b2, f) == Norm(2 * v, b2, f.invert, f.mag)
NormCell(e, r, c) ==
    LET f == IF e.plain THEN [invert |-> FALSE, mag |-> FALSE] ELSE Flag(e, c)
        v == e.cells[r][c]  b2 == Base2(e, c)
    IN CASE f.invert /\ f.mag -> <<2 + b2 - 2 * v, 2>>
         [] f.mag -> <<2 + 2 * v - b2, 2>>
         [] OTHER -> Norm(2 * v, b2, f.invert, FALSE)
(* The radar plot's variant: reversed columns change sign first.            *)
RadarCell(e, r, c) ==
    LET f == e.flags[c]  v == e.cells[r][c]  b == e.cells[e.base[1]][c]  s == IF f.reverse THEN -1 ELSE 1
    IN CASE f.mag /\ f.invert -> <<v * b + s * (b - v), v * b>>
         [] f.mag -> <<1 + s * (v - b), 1>>
         [] f.invert -> <<b, v>>
         [] OTHER -> <<v, b>>
Shown(e, r, c, f) == IF <<r, c>> \in Set(e.void) THEN e.got[r][c] = 1073741824 ELSE IsNorm(e.got[r][c], f)
Checks(e) ==
    CASE e.op = "gather" ->
           [ok |-> e.ok,
            rows |-> e.ok => Once(e.rows, Rows(e.dirs)),
            columns |-> e.ok => Once(e.cols, Cols(e.dirs)),
            cells |-> e.ok => \A r \in Rows(e.dirs), c \in Cols(e.dirs) :
                         r \in Set(e.rows) /\ c \in Set(e.cols) => e.got[r][c] = Cell(e.dirs, r, c),
            untouched |-> e.before = e.after]
      [] e.op = "select" ->
           [ok |-> e.ok,
            rows |-> e.ok => (IF e.rorder = "summary" THEN e.rows ELSE Dedup(e.rows)) = RowsWanted(e),
            columns |-> e.ok => (IF e.morder = "summary" THEN e.cols ELSE Dedup(e.cols)) = ColsWanted(e),
            cells |-> e.ok => \A r \in Set(e.rows), c \in Set(e.cols) : e.got[r][c] = e.cells[r][c],
            labels |-> e.ok => e.names = <<"run", "metric">>,
            untouched |-> e.before = e.after]
      [] e.op \in {"norm", "radar"} /\ e.lost -> [baseline |-> ~e.ok, untouched |-> e.before = e.after]
      [] e.op = "norm" ->
           [ok |-> e.ok,
            rows |-> e.ok => e.rows = e.hrows,
            columns |-> e.ok => e.cols = ColsNormed(e),
            cells |-> e.ok => \A r \in Set(e.hrows), c \in Set(ColsNormed(e)) :
                         r \in DOMAIN e.got /\ c \in DOMAIN e.got[r] /\ Shown(e, r, c, NormCell(e, r, c)),
            untouched |-> e.before = e.after]
      [] e.op = "radar" ->
           [ok |-> e.ok,
            rows |-> e.ok => e.rows = e.hrows,
            columns |-> e.ok => e.cols = e.hcols,
            cells |-> e.ok => \A r \in Set(e.hrows), c \in Set(e.hcols) :
                         r \in DOMAIN e.got /\ c \in DOMAIN e.got[r] /\ Shown(e, r, c, RadarCell(e, r, c)),
            untouched |-> e.before = e.after]
      [] OTHER -> [x |-> TRUE]
Bad(e) == LET b == Checks(e) IN {k \in DOMAIN b : ~b[k]}
Want(e) == CASE e.op = "select" -> [rows |-> RowsWanted(e), cols |-> ColsWanted(e)]
             [] e.op \in {"norm", "radar"} /\ e.lost -> [base |-> e.base]
             [] e.op = "radar" -> [cells |-> [c \in Set(e.hcols) |-> [r \in Set(e.hrows) |-> RadarCell(e, r, c)]]]
             [] e.op = "norm" -> [cells |-> [c \in Set(ColsNormed(e)) |-> [r \in Set(e.hrows) |-> NormCell(e, r, c)]]]
             [] OTHER -> [rows |-> Rows(e.dirs)]
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b, want |-> Want(Trace[i + 1])]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
