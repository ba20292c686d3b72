---------------------------- MODULE StackersTrace --------------------------
EXTENDS Stackers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
NoNumber(g) == g.k = "nan"
(* g: what the code gave the visit o (a record of the added columns, encoded) *)
Exact(st, p, o, g) ==
    CASE st = "HA" -> \E h \in HourAngles(o) : Is(g.HA, Norm(h, 2))
      [] st = "ZenithDist" -> Is(g.zenithDistance, Q(Angle(o.z)))
      [] st = "NormAirmass" -> Is(g.normairmass, NormAirmass(o, p.north))
      [] st = "DayObs" -> g.dayObs = DayInt(DayObs(o))
      [] st = "DayObsMJD" -> g.day_obs_mjd = DayObs(o)
      [] st = "DayObsISO" -> LET c == Civil(DayObs(o)) IN g.day_obs_iso8601 = <<c.y, c.m, c.d>>
      [] st = "Datetime64" -> g.observationStartDatetime64 = <<o.day, o.s>>
      [] st = "Timestamp" -> g.start_timestamp = <<o.day, o.s>>
      [] st = "Teff" -> Is(g.t_eff, Teff(o, p.base, p.normed))
      [] st = "NoteRoot" -> g.scheduler_note_root = o.root
      [] st = "WFD" -> g.area_id = (IF o.dd # "" /\ p.nodd THEN o.dd ELSE IF 4 * o.area >= p.need16 THEN p.name ELSE "NULL")
      [] st = "Healpix" -> g.ring_healpix = o.ring /\ g.nest_healpix = o.nest
      [] st = "Dcr" -> Is(g.amp2, RMul(Q(p.mags[o.band + 1] * p.mags[o.band + 1]), Tan2(o.z)))
      [] st = "Dcr2" -> Is(g.var, RMul(Q(p.mags[o.band + 1]), Tan2(o.z))) /\ g.sum /\ g.det
      [] st = "Saturation" -> LET x == Saturates(o, p.full) IN IF x = <<>> THEN NoNumber(g.rate) ELSE IF x = <<0, 1>> THEN TRUE ELSE Is(g.rate, x)
      [] OTHER -> TRUE
Pos(w, o) == CHOOSE k \in DOMAIN w : w[k].id = o.id
OverheadOk(p, os, g) ==
    LET w == SortSeq(os, Earlier)
    IN \A j \in DOMAIN os : LET x == Overhead(w, Pos(w, os[j]), p.max2)
                            IN IF x = <<>> THEN NoNumber(g[j].overhead) ELSE Is(g[j].overhead, Q(x[1]))
(* the visits of a field, band and night as one *)
Coadd(e) ==
    LET key(o) == <<o.ra, o.far, o.band, o.day>>
        groups == {key(e.os[k]) : k \in DOMAIN e.os}
        of(u) == SelectSeq(e.os, LAMBDA o : key(o) = u)
        ok(name, x) == IF x THEN {} ELSE {"Coadd " \o name}
        good(r) == LET v == of(<<r.ra, r.far, r.band, r.day>>)
                   IN /\ v # <<>>
                      /\ Is(r.k, Q(SumSeq(Map(v, LAMBDA o : o.k))))
                      /\ r.nexp = SumSeq(Map(v, LAMBDA o : o.nexp)) /\ r.vt = SumSeq(Map(v, LAMBDA o : o.vt)) /\ r.exp = SumSeq(Map(v, LAMBDA o : o.exp))
                      /\ r.coadd = 1
                      /\ Is(r.q, Median(Map(v, LAMBDA o : o.q)))
    IN ok("one for each field, band and night", Len(e.rows) = Cardinality(groups) /\ {<<e.rows[k].ra, e.rows[k].far, e.rows[k].band, e.rows[k].day>> : k \in DOMAIN e.rows} = groups)
       \cup ok("values", \A k \in DOMAIN e.rows : good(e.rows[k]))
       \cup ok("visits given are modified", e.kept)
All(s) == \A k \in DOMAIN s : s[k]
(* e: rows, stacker, columns before and after, and for each column whether  *)
(* each value is the old one, and the one the visit gets on its own         *)
Bad(e) ==
    IF e.op = "coadd" THEN Coadd(e) ELSE
    LET adds == SeqToSet(e.adds) before == SeqToSet(e.before) after == SeqToSet(e.after)
        ran == e.override \/ ~(adds \subseteq before) \/ e.always
        ok(name, x) == IF x THEN {} ELSE {e.st \o " " \o name}
    IN IF e.raised # "" THEN {e.st \o " raised"}
       ELSE ok("columns", before \cup adds \subseteq after /\ after \subseteq before \cup adds \cup SeqToSet(e.helpers))
         \cup ok("other columns", \A c \in before \ adds : All(e.old[c]))
         \cup ok("visits given are modified", e.kept)
         \cup ok("units", e.units)
         \cup (IF ~ran THEN ok("recalculated", \A c \in adds : All(e.old[c]))
               ELSE ok("depends on other visits", e.local => \A c \in adds : All(e.own[c]))
                 \cup ok("value", IF e.st = "Overhead" THEN OverheadOk(e.p, e.os, e.got) ELSE \A j \in DOMAIN e.os : Exact(e.st, e.p, e.os[j], e.got[j])))
TInit == i = 0
TNext == /\ i < Len(Trace)
         /\ i' = i + 1
         /\ LET b == Bad(Trace[i + 1])
            IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> i + 1, bad |-> b]))
TDone == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
