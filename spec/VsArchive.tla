----------------------------- MODULE VsArchive -----------------------------
(* The visit sequence archive: metadata database plus file store.           *)
(*                                                                          *)
(* State: the rows of the archive seen as abstract sets.  One call of the   *)
(* public interface is one step; Step(st, e) gives the state after call e,  *)
(* whether the call must succeed, and what it must return.  The design      *)
(* model (VsArchiveMC) drives Step with every operation of a small          *)
(* universe; VsArchiveTrace drives it with recorded executions.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Null == "null"
CommonCols == {"label", "telescope", "url", "first", "last", "ctime", "sha"}
SpecificCols(kind) ==
    CASE kind = "simulations"   -> {"sched", "config", "env", "parent", "kwargs", "plast"}
      [] kind = "completed"     -> {"query"}
      [] kind = "mixedvisitseq" -> {"le", "fl", "ep", "lp"}
      [] OTHER                  -> {}
Cols == CommonCols \cup SpecificCols("simulations") \cup SpecificCols("completed")
        \cup SpecificCols("mixedvisitseq")
Kinds == {"visitseq", "simulations", "completed", "mixedvisitseq"}
NotNull == {"label", "telescope", "sha"}

EmptyState == [seqs |-> {}, tags |-> {}, comments |-> <<>>, files |-> {}, envs |-> {},
               stats |-> {}]

Ids(st) == {s.id : s \in st.seqs}
SeqOf(st, id) == CHOOSE s \in st.seqs : s.id = id
HasFile(st, id, t) == \E f \in st.files : f.id = id /\ f.type = t
FileOf(st, id, t) == CHOOSE f \in st.files : f.id = id /\ f.type = t
NewId(st) == "u" \o ToString(Cardinality(st.seqs) + 1)

(* What a row holds after recording: the given values in the columns the    *)
(* kind has (the kind-specific ones only when recorded by that kind's own   *)
(* operation), the database's time where no creation time was given.        *)
NewRow(e, id) ==
    [id |-> id, kind |-> e.kind] @@
    [c \in Cols |->
        IF c \in CommonCols \/ (e.via = "specific" /\ c \in SpecificCols(e.kind))
        THEN IF c = "ctime" /\ e.f[c] = Null THEN "NOW" ELSE e.f[c]
        ELSE Null]

(* The columns visible through a table: its own and the common ones.        *)
Visible(row, table) ==
    [c \in CommonCols \cup SpecificCols(table) |-> row[c]]

Res(st, ok, err, val) == [st |-> st, ok |-> ok, err |-> err, val |-> val]
Fine(st, val) == Res(st, TRUE, "", val)
Refuse(st, err) == Res(st, FALSE, err, Null)

SeqToSet(s) == {s[i] : i \in 1 .. Len(s)}
NoDup(s) == Cardinality(SeqToSet(s)) = Len(s)

DoRecord(st, e) ==
    IF \E c \in NotNull : e.f[c] = Null
    THEN Refuse(st, "any")
    ELSE LET id == NewId(st)
         IN Fine([st EXCEPT !.seqs = @ \cup {NewRow(e, id)}], id)

DoUpdate(st, e) ==
    IF e.id \notin Ids(st) THEN Refuse(st, "ValueError")
    ELSE LET s == SeqOf(st, e.id)
         IN IF e.field \notin (CommonCols \cup SpecificCols(s.kind))
                \/ (e.field \in NotNull /\ e.value = Null)
            THEN Refuse(st, "any")
            ELSE Fine([st EXCEPT !.seqs = (@ \ {s}) \cup {[s EXCEPT ![e.field] = e.value]}], Null)

DoSetUrl(st, e) == DoUpdate(st, [id |-> e.id, field |-> "url", value |-> e.value])

DoGetUrl(st, e) ==
    IF e.id \notin Ids(st) THEN Refuse(st, "ValueError") ELSE Fine(st, SeqOf(st, e.id).url)

DoMeta(st, e) ==
    IF e.table \notin Kinds THEN Refuse(st, "ValueError")
    ELSE IF e.id \in Ids(st) /\ (e.table = "visitseq" \/ SeqOf(st, e.id).kind = e.table)
         THEN Fine(st, Visible(SeqOf(st, e.id), e.table))
         ELSE Refuse(st, "any")

DoRecEnv(st, e) ==
    Fine(IF \E v \in st.envs : v.hash = e.hash THEN st
         ELSE [st EXCEPT !.envs = @ \cup {[hash |-> e.hash, pkgs |-> SeqToSet(e.pkgs)]}], e.hash)

DoEnvSaved(st, e) == Fine(st, \E v \in st.envs : v.hash = e.hash)

DoSoftware(st, e) ==
    LET known == e.id \in Ids(st) /\ SeqOf(st, e.id).kind = "simulations"
        h == IF known THEN SeqOf(st, e.id).env ELSE Null
        env == {v \in st.envs : v.hash = h}
        all == UNION {v.pkgs : v \in env}
    IN Fine(st, IF e.only = <<>> THEN all ELSE {p \in all : \E i \in 1 .. Len(e.only) : e.only[i] = p[1]})

DoTag(st, e) == Fine([st EXCEPT !.tags = @ \cup {<<e.id, e.tags[i]>> : i \in 1 .. Len(e.tags)}], Null)
DoUntag(st, e) ==
    IF <<e.id, e.tag>> \in st.tags
    THEN Fine([st EXCEPT !.tags = @ \ {<<e.id, e.tag>>}], Null)
    ELSE Refuse(st, "ValueError")
DoIsTagged(st, e) == Fine(st, <<e.id, e.tag>> \in st.tags)

DoComment(st, e) ==
    Fine([st EXCEPT !.comments = Append(@, [id |-> e.id, author |-> e.author, text |-> e.text])], Null)
DoComments(st, e) ==
    LET mine == SelectSeq(st.comments, LAMBDA c : c.id = e.id)
    IN Fine(st, [i \in 1 .. Len(mine) |-> <<mine[i].author, mine[i].text>>])

DoRegister(st, e) ==
    IF e.type = "visits" THEN Refuse(st, "ValueError")
    ELSE IF HasFile(st, e.id, e.type)
         THEN IF ~e.update THEN Refuse(st, "ValueError")
              ELSE Fine([st EXCEPT !.files = (@ \ {FileOf(st, e.id, e.type)}) \cup
                            {[id |-> e.id, type |-> e.type, sha |-> e.sha, url |-> e.url]}], Null)
         ELSE Fine([st EXCEPT !.files = @ \cup {[id |-> e.id, type |-> e.type, sha |-> e.sha, url |-> e.url]}], Null)
DoFileUrl(st, e) ==
    IF e.type = "visits" THEN DoGetUrl(st, e)
    ELSE IF HasFile(st, e.id, e.type) THEN Fine(st, FileOf(st, e.id, e.type).url) ELSE Refuse(st, "ValueError")
DoFileSha(st, e) ==
    IF HasFile(st, e.id, e.type) THEN Fine(st, FileOf(st, e.id, e.type).sha) ELSE Refuse(st, "ValueError")

(* The combined view of one simulation.                                     *)
DoExtra(st, e) ==
    IF e.id \in Ids(st) /\ SeqOf(st, e.id).kind = "simulations"
    THEN Fine(st, [row |-> [c \in (CommonCols \cup SpecificCols("simulations")) \ {"sha"} |-> SeqOf(st, e.id)[c]],
                   tags |-> {t[2] : t \in {x \in st.tags : x[1] = e.id}},
                   comments |-> LET m == SelectSeq(st.comments, LAMBDA c : c.id = e.id)
                                IN [i \in 1 .. Len(m) |-> m[i].text],
                   files |-> {<<f.type, f.url>> : f \in {x \in st.files : x.id = e.id}}])
    ELSE Refuse(st, "any")

(* Nightly statistics: rows are tuples <<id, night, value, count>>; the key *)
(* is everything but the count.                                             *)
StatKey(r) == <<r[1], r[2], r[3]>>
DoAddStats(st, e) ==
    LET rows == {<<e.id, e.rows[i][1], e.rows[i][2], e.rows[i][3]>> : i \in 1 .. Len(e.rows)}
    IN IF Cardinality({StatKey(r) : r \in rows}) # Len(e.rows)
          \/ \E r \in rows, q \in st.stats : StatKey(r) = StatKey(q)
       THEN Refuse(st, "any")
       ELSE Fine([st EXCEPT !.stats = @ \cup rows], Null)
DoStats(st, e) == Fine(st, {r \in st.stats : r[1] = e.id})

(* A statement the database rejects, or a read-only use of the query call.  *)
DoBadQuery(st, e) == Refuse(st, "any")
DoROQuery(st, e) == Fine(st, Null)

Step(st, e) ==
    CASE e.op = "record"   -> DoRecord(st, e)
      [] e.op = "update"   -> DoUpdate(st, e)
      [] e.op = "seturl"   -> DoSetUrl(st, e)
      [] e.op = "geturl"   -> DoGetUrl(st, e)
      [] e.op = "meta"     -> DoMeta(st, e)
      [] e.op = "recenv"   -> DoRecEnv(st, e)
      [] e.op = "saved"    -> DoEnvSaved(st, e)
      [] e.op = "software" -> DoSoftware(st, e)
      [] e.op = "tag"      -> DoTag(st, e)
      [] e.op = "untag"    -> DoUntag(st, e)
      [] e.op = "istagged" -> DoIsTagged(st, e)
      [] e.op = "comment"  -> DoComment(st, e)
      [] e.op = "comments" -> DoComments(st, e)
      [] e.op = "register" -> DoRegister(st, e)
      [] e.op = "fileurl"  -> DoFileUrl(st, e)
      [] e.op = "filesha"  -> DoFileSha(st, e)
      [] e.op = "extra"    -> DoExtra(st, e)
      [] e.op = "addstats" -> DoAddStats(st, e)
      [] e.op = "stats"    -> DoStats(st, e)
      [] e.op = "badquery" -> DoBadQuery(st, e)
      [] e.op = "roquery"  -> DoROQuery(st, e)

-----------------------------------------------------------------------------
(* The properties, over archive states.                                     *)
UniqueIds(st) == \A s, t \in st.seqs : s.id = t.id => s = t
FilesAreAMap(st) == \A f, g \in st.files : (f.id = g.id /\ f.type = g.type) => f = g
NoVisitsFile(st) == \A f \in st.files : f.type # "visits"
EnvsAreAMap(st) == \A f, g \in st.envs : f.hash = g.hash => f = g
StatsAreAMap(st) == \A f, g \in st.stats : StatKey(f) = StatKey(g) => f = g
KindSpecific(st) == \A s \in st.seqs : \A c \in Cols \ (CommonCols \cup SpecificCols(s.kind)) : s[c] = Null
StateOK(st) == /\ UniqueIds(st) /\ FilesAreAMap(st) /\ NoVisitsFile(st)
               /\ EnvsAreAMap(st) /\ StatsAreAMap(st) /\ KindSpecific(st)

(* What one operation may change at all.                                    *)
Target(st, e, ok) ==
    IF ~ok THEN {} ELSE IF e.op = "record" THEN {NewId(st)}
    ELSE IF e.op \in {"recenv", "saved", "roquery", "badquery"} THEN {} ELSE {e.id}
OthersUntouched(st, st2, t) ==
    /\ {s \in st.seqs : s.id \notin t} = {s \in st2.seqs : s.id \notin t}
    /\ {x \in st.tags : x[1] \notin t} = {x \in st2.tags : x[1] \notin t}
    /\ SelectSeq(st.comments, LAMBDA c : c.id \notin t) = SelectSeq(st2.comments, LAMBDA c : c.id \notin t)
    /\ {x \in st.files : x.id \notin t} = {x \in st2.files : x.id \notin t}
    /\ {x \in st.stats : x[1] \notin t} = {x \in st2.stats : x[1] \notin t}
KindsKept(st, st2) == \A s \in st.seqs : \E z \in st2.seqs : z.id = s.id /\ z.kind = s.kind
LogGrows(st, st2) == Len(st.comments) <= Len(st2.comments)
                     /\ SubSeq(st2.comments, 1, Len(st.comments)) = st.comments
StepOK(st, e, r) ==
    /\ OthersUntouched(st, r.st, Target(st, e, r.ok))
    /\ KindsKept(st, r.st)
    /\ LogGrows(st, r.st)
    /\ st.envs \subseteq r.st.envs
    /\ (~r.ok => r.st = st)
    /\ (e.op \notin {"record", "update", "seturl", "tag", "untag", "comment", "register", "addstats", "recenv"}
            => r.st = st)
=============================================================================
