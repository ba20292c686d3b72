----------------------------- MODULE MafGroupMC -----------------------------
(* Sharing one pass over the visits between bundles.  Bundles are put one   *)
(* by one into the first group in which each member is compatible with      *)
(* them; a group adds the columns of all of its stackers once and slices    *)
(* once.  Values are terms that tell how each column was made, so that two  *)
(* results are equal only if they were made in the same way.                *)
EXTENDS MafGroup, Json
CONSTANTS NBundles, Policy
Uni == [kind |-> "uni", cols |-> <<>>, edges |-> <<>>, pts |-> <<>>, radius |-> 0]
OneD(c) == [Uni EXCEPT !.kind = "oned", !.cols = <<c>>, !.edges = <<<<0, 3, 6, 30>>>>]
ND == [Uni EXCEPT !.kind = "nd", !.cols = <<"x", "night">>, !.edges = <<<<0, 2, 5>>, <<0, 2, 4, 6>>>>]
Pts == [Uni EXCEPT !.kind = "points", !.pts = <<0, 1, 3>>, !.radius = 175]
All == [kind |-> "all", n |-> 0, s |-> ""]
Early == [kind |-> "night", n |-> 3, s |-> ""]
St(cls, p) == [cls |-> cls, p |-> p]
Bun(kind, col, sl, con, stk, maps) ==
    [metric |-> [kind |-> kind, col |-> col], slicer |-> sl, con |-> con, stk |-> stk, maps |-> maps]
Catalogue == <<
    Bun("sum", "x", OneD("x"), All, <<>>, <<>>),
    Bun("sum", "y", OneD("x"), All, <<>>, <<>>),
    Bun("pair", "y", OneD("x"), All, <<St("O", 1)>>, <<>>),
    Bun("max", "x", OneD("x"), All, <<St("O", 1)>>, <<>>),
    Bun("sum", "xc", OneD("x"), All, <<St("C", 2)>>, <<>>),
    Bun("sum", "xc", OneD("x"), All, <<St("O", 1), St("C", 2)>>, <<>>),
    Bun("sum", "xa", OneD("x"), All, <<>>, <<>>),
    Bun("sum", "xa", OneD("x"), All, <<St("A", 1)>>, <<>>),
    Bun("median", "xa", OneD("x"), All, <<St("M", 1)>>, <<>>),
    Bun("sum", "xb", OneD("x"), All, <<>>, <<>>),
    Bun("pair", "xb", OneD("x"), All, <<St("B", 1)>>, <<>>),
    Bun("sum", "xb", OneD("x"), All, <<St("B", 1), St("A", 1)>>, <<>>),
    Bun("sum", "xe", OneD("x"), All, <<>>, <<>>),
    Bun("sum", "xe", OneD("x"), Early, <<St("E", 2)>>, <<>>),
    Bun("sum", "xn", OneD("x"), All, <<St("N", 1)>>, <<>>),
    Bun("vec", "xd", OneD("x"), All, <<St("D", 1)>>, <<>>),
    Bun("count", "x", OneD("xa"), All, <<>>, <<>>),
    Bun("sum", "y", OneD("xa"), All, <<St("M", 0)>>, <<>>),
    Bun("sum", "x", ND, All, <<>>, <<>>),
    Bun("pair", "xa", ND, All, <<St("A", 1)>>, <<>>),
    Bun("map", "x", Pts, All, <<>>, <<>>),
    Bun("map", "x", Pts, All, <<>>, <<"P">>),
    Bun("map", "x", Pts, All, <<>>, <<"P", "Q">>),
    Bun("map", "y", Pts, All, <<>>, <<"Q", "P">>),
    Bun("bad", "y", Pts, Early, <<St("O", 2)>>, <<"Q">>),
    Bun("sum", "x", Uni, Early, <<>>, <<>>),
    Bun("sum", "xd", Uni, Early, <<>>, <<>>) >>

(* A bundle's stackers in an order in which each finds its inputs.  *)
DefaultList(b) ==
    b.stk \o SetToSeq(Stackers(b) \ Set(b.stk))
RECURSIVE Arrange(_, _, _)
Arrange(list, have, done) ==
    IF list = <<>> THEN done
    ELSE LET Ready(k) == \A c \in Reqs(list[k].cls) \ have :
                            \A j \in DOMAIN list : j = k \/ c \notin Adds(list[j].cls)
             k == IF \E j \in DOMAIN list : Ready(j) THEN Min({j \in DOMAIN list : Ready(j)}) ELSE 1
         IN Arrange(RemoveAt(list, k), have \cup Adds(list[k].cls), Append(done, list[k]))
List(b) == Arrange(DefaultList(b), DbCols(Stackers(b), Cols(b)), <<>>)
Lists == [k \in DOMAIN Catalogue |-> List(Catalogue[k])]

Columns == {"x", "y", "night", "fieldRA", "fieldDec", "rotSkyPos", "xa", "xb", "xc", "xd", "xe", "xn"}
Term(s, env) == s.cls \o ToString(s.p) \o "(" \o FoldLeft(LAMBDA a, c : a \o env[c] \o ",", "", SetToSeq(Reqs(s.cls))) \o ")"
Run(list) == FoldLeft(LAMBDA env, s : [c \in Columns |-> IF c \in Adds(s.cls) THEN Term(s, env) ELSE env[c]],
                      [c \in Columns |-> c], list)
Result(b, env, maps) == [cols |-> [c \in Cols(b) |-> env[c]], maps |-> Set(maps), slicer |-> b.slicer, con |-> b.con]
AloneResults == [k \in DOMAIN Catalogue |-> Result(Catalogue[k], Run(Lists[k]), Catalogue[k].maps)]

Used(b) == Cols(b) \cup ReqsAll(Stackers(b)) \cup AddsAll(Stackers(b))
Compatible(a, b) ==
    /\ a.con = b.con
    /\ a.slicer = b.slicer
    /\ Policy # "nomaps" => Set(a.maps) = Set(b.maps)
    /\ \A s \in Stackers(a), t \in Stackers(b) : s.cls = t.cls => s = t
    /\ Policy # "noread" => /\ \A s \in Stackers(a) \ Stackers(b) : Adds(s.cls) \cap Used(b) = {}
                            /\ \A s \in Stackers(b) \ Stackers(a) : Adds(s.cls) \cap Used(a) = {}
Matrix == [k \in DOMAIN Catalogue |-> [j \in DOMAIN Catalogue |-> Compatible(Catalogue[k], Catalogue[j])]]

VARIABLES bundles, todo, groups
vars == <<bundles, todo, groups>>
Init == /\ bundles \in [1 .. NBundles -> DOMAIN Catalogue]
        /\ todo = [k \in 1 .. NBundles |-> k]
        /\ groups = <<>>
Fits(g, k) == \A j \in DOMAIN g : Matrix[bundles[g[j]]][bundles[k]]
Place == /\ todo # <<>>
         /\ LET k == Head(todo)
                ok == {g \in DOMAIN groups : Fits(groups[g], k)}
            IN groups' = IF ok = {} THEN Append(groups, <<k>>)
                         ELSE [groups EXCEPT ![Min(ok)] = Append(@, k)]
         /\ todo' = Tail(todo)
         /\ UNCHANGED bundles
Show == /\ todo = <<>> /\ groups # <<>>
        /\ NBundles = 2 => PrintT("@@" \o ToJson([k \in 1 .. NBundles |-> Catalogue[bundles[k]]]))
        /\ UNCHANGED vars
Next == Place \/ Show
Merged(g) == FoldLeft(LAMBDA acc, s : IF s \in Set(acc) THEN acc ELSE Append(acc, s), <<>>,
                      FlattenSeq([j \in DOMAIN g |-> Lists[bundles[g[j]]]]))
MergedMaps(g) == FlattenSeq([j \in DOMAIN g |-> Catalogue[bundles[g[j]]].maps])
Independent == \A g \in DOMAIN groups :
                 LET env == Run(Merged(groups[g]))
                     maps == MergedMaps(groups[g])
                 IN \A j \in DOMAIN groups[g] :
                      Result(Catalogue[bundles[groups[g][j]]], env, maps) = AloneResults[bundles[groups[g][j]]]
Partition == \A k \in 1 .. NBundles :
               Len(SelectSeq(FlattenSeq(groups), LAMBDA j : j = k)) = (IF k \in Set(todo) THEN 0 ELSE 1)
ASSUME \A k \in DOMAIN Catalogue : InOrder(Lists[k], Stackers(Catalogue[k]), Cols(Catalogue[k]))
=============================================================================
