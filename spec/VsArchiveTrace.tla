--------------------------- MODULE VsArchiveTrace ---------------------------
(* Judges recorded executions of the archive: every event carries the call, *)
(* its arguments, its outcome (res) and the archive content read back       *)
(* through an independent connection (obs).                                 *)
EXTENDS VsArchive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st

Obs(o) == [seqs |-> SeqToSet(o.seqs), tags |-> SeqToSet(o.tags), comments |-> o.comments,
           files |-> SeqToSet(o.files),
           envs |-> {[hash |-> x.hash, pkgs |-> SeqToSet(x.pkgs)] : x \in SeqToSet(o.envs)},
           stats |-> SeqToSet(o.stats)]

SetValued == {"software", "stats"}
ValueOK(e, r) ==
    IF ~(e.res.ok /\ r.ok) THEN TRUE
    ELSE IF e.op \in SetValued THEN SeqToSet(e.res.val) = r.val /\ NoDup(e.res.val)
    ELSE IF e.op = "extra" THEN /\ e.res.val.row = r.val.row
                                /\ SeqToSet(e.res.val.tags) = r.val.tags /\ NoDup(e.res.val.tags)
                                /\ e.res.val.comments = r.val.comments
                                /\ SeqToSet(e.res.val.files) = r.val.files
    ELSE e.res.val = r.val

Bad(e) ==
    IF e.op = "reset" THEN IF Obs(e.obs) = EmptyState THEN {} ELSE {"not-empty"}
    ELSE LET r == Step(st, e)
             o == Obs(e.obs)
             f == "fault" \in DOMAIN e /\ e.fault # "none"
             (* a call hit by an injected fault must fail and leave no trace *)
             want == IF f THEN st ELSE r.st
             wok == IF f THEN FALSE ELSE r.ok
             b == [ok |-> e.res.ok = wok,
                   error |-> f \/ r.ok \/ e.res.ok \/ r.err = "any" \/ e.res.err = r.err,
                   value |-> f \/ ValueOK(e, r),
                   seqs |-> o.seqs = want.seqs /\ NoDup(e.obs.seqs),
                   tags |-> o.tags = want.tags /\ NoDup(e.obs.tags),
                   comments |-> o.comments = want.comments,
                   files |-> o.files = want.files /\ NoDup(e.obs.files),
                   envs |-> o.envs = want.envs /\ Len(e.obs.envs) = Cardinality(o.envs),
                   stats |-> o.stats = want.stats /\ NoDup(e.obs.stats),
                   state |-> StateOK(o),
                   sessions |-> e.sess.count <= 5 /\ e.sess.intrans = 0]
         IN {k \in DOMAIN b : ~b[k]}

TInit == i = 0 /\ st = EmptyState
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET e == Trace[i + 1]
                b == Bad(e)
            IN /\ st' = Obs(e.obs)          \* continue from what the code really did
               /\ IF b = {} THEN TRUE
                  ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b,
                          want |-> IF e.op = "reset" THEN "" ELSE
                                   LET r == Step(st, e) IN [ok |-> r.ok, err |-> r.err, val |-> ToString(r.val)]]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
