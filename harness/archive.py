"""Visit sequence archive: properties A01-A05, A07 (state machine VsArchive)."""
import datetime
import hashlib
import json
import random
import warnings
from uuid import UUID, uuid4

import numpy as np
import pandas as pd
import psycopg2
import psycopg2.extras
from astropy.time import Time

from .core import MachineryError
from .pg import Postgres

from rubin_sim.sim_archive import vseqmetadata
from rubin_sim.sim_archive.vseqmetadata import VisitSequenceArchiveMetadata

COLS = dict(label="visitseq_label", telescope="telescope", url="visitseq_url", first="first_day_obs",
            last="last_day_obs", ctime="creation_time", sha="visitseq_sha256", sched="scheduler_version",
            config="config_url", env="conda_env_sha256", parent="parent_visitseq_uuid",
            kwargs="sim_runner_kwargs", plast="parent_last_day_obs", query="query", le="last_early_day_obs",
            fl="first_late_day_obs", ep="early_parent_uuid", lp="late_parent_uuid")
INV = {v: k for k, v in COLS.items()}
COMMON = ["label", "telescope", "url", "first", "last", "ctime", "sha"]
SPECIFIC = dict(visitseq=[], simulations=["sched", "config", "env", "parent", "kwargs", "plast"],
                completed=["query"], mixedvisitseq=["le", "fl", "ep", "lp"])
TABLES = ["simulations", "completed", "mixedvisitseq", "visitseq", "tags", "comments", "files", "conda_env",
          "nightly_stats"]


class Unprintable:
    def __repr__(self):
        return "<an object>"


KWARGS = {
    "k1": ({"a": 1, "b": [1, 2]}, {"a": 1, "b": [1, 2]}),
    "k2": ({"f": Unprintable(), "c": "x"}, {"f": ["Not json serializable", "<an object>"], "c": "x"}),
    "k3": ({"x": "y" * 5000, "z": None}, {"x": ["Not json serializable", ("'" + "y" * 5000)[:4096]], "z": None}),
    "k4": ({}, {}),
}
HASHES = {f"h{i}": hashlib.sha256(f"env{i}".encode()).digest() for i in range(1, 5)}
SHAS = {f"s{i}": hashlib.sha256(f"file{i}".encode()).digest() for i in range(1, 8)}
UNHASH = {v.hex(): k for k, v in {**HASHES, **SHAS}.items()}


def visit_tables():
    base = pd.DataFrame({"observationId": [1, 2, 3], "fieldRA": [10.0, 20.0, 30.0], "band": ["g", "r", "g"]})
    base["band"] = base["band"].astype("S1") if False else [1.0, 2.0, 1.0]
    v = {"v1": base, "v2": base.assign(fieldRA=[10.0, 20.0, 30.000001]), "v3": base.iloc[::-1]}
    v["v4"] = base.rename(columns={"fieldRA": "fieldRa"})
    v["v5"] = base.iloc[:2]
    return v


VISITS = visit_tables()


def isnull(x):
    if x is None:
        return True
    try:
        return bool(pd.isna(x))
    except (TypeError, ValueError):
        return False


class Archive:
    """Executes operations of the VsArchive specification on the real archive."""

    def __init__(self, ctx, pg, dbname="test", schema="vstest"):
        self.ctx, self.pg, self.schema = ctx, pg, schema
        self.kw = dict(host=pg.kw["host"], port=pg.kw["port"], user="root", database=dbname)
        self.dbname = dbname
        self.vs = self.open()
        self.vs.create_schema_in_database()
        self.admin = psycopg2.connect(application_name="admin", **self.kw)
        self.admin.autocommit = True
        self.admin.cursor().execute("SET lock_timeout='4s'; SET statement_timeout='20s'")
        self.ids, self.names = {}, {}
        self.vsha = {}
        for k, df in VISITS.items():
            h = vseqmetadata.compute_visits_sha256(df)
            if not isinstance(h, bytes) or h in self.vsha or vseqmetadata.compute_visits_sha256(df.copy()) != h:
                ctx.violation("visits-hash", f"hash of visits {k} is not a fingerprint: equals that of {self.vsha.get(h)}")
            self.vsha[h] = k
        self.unsha = {h.hex(): k for h, k in self.vsha.items()}
        self.store = None

    def open(self):
        import contextlib
        import io

        vs = VisitSequenceArchiveMetadata(dict(self.kw), self.schema)
        create = vs.create_schema_in_database

        def quiet():
            with contextlib.redirect_stdout(io.StringIO()):
                create()

        vs.create_schema_in_database = quiet
        return vs

    def reopen(self):
        """Fresh archive object (and fresh connections)."""
        self.kill_others()
        self.vs = self.open()

    def kill_others(self):
        self.adm("SELECT pg_terminate_backend(pid) FROM pg_stat_activity WHERE datname=%s AND pid<>pg_backend_pid()",
                 (self.dbname,))

    def adm(self, q, a=None, fetch=True):
        with self.admin.cursor() as c:
            c.execute(q, a)
            return c.fetchall() if fetch and c.description else []

    # ------------------------------------------------------------ canonical values
    def name(self, u):
        """Model identifier of a UUID, in order of first appearance as a recorded sequence."""
        if isnull(u):
            return "null"
        u = u if isinstance(u, UUID) else UUID(str(u))
        return self.names.get(u, "?" + str(u))

    def uid(self, n):
        if n not in self.ids:
            u = UUID(hashlib.md5(n.encode()).hexdigest())
            self.ids[n] = u
            self.names[u] = n
        return self.ids[n]

    def canon(self, col, v):
        if isnull(v):
            return "null"
        if isinstance(v, memoryview):
            v = v.tobytes()
        if isinstance(v, bytes):
            h = v.hex()
            return self.unsha.get(h) or UNHASH.get(h) or h
        if col in ("parent", "ep", "lp"):
            return self.name(v)
        if col == "ctime":
            t = pd.Timestamp(v)
            if t.tzinfo is None:
                return "naive:" + t.isoformat()
            t = t.tz_convert("UTC").tz_localize(None)
            now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
            if abs((now - t.to_pydatetime()).total_seconds()) < 3600:
                return "NOW"
            return t.isoformat()
        if col in ("first", "last", "plast", "le", "fl"):
            return v.isoformat() if hasattr(v, "isoformat") else str(v)
        if col == "kwargs":
            for k, (_, j) in KWARGS.items():
                if v == j:
                    return k
            return json.dumps(v)[:200]
        return str(v)

    def row(self, cols, rec, visible=None):
        d = {}
        for c, v in zip(cols, rec):
            if c in INV:
                d[INV[c]] = self.canon(INV[c], v)
        return d

    # ------------------------------------------------------------ observation
    def observe(self):
        sch = self.schema
        seqs = []
        with self.admin.cursor() as c:
            for kind in SPECIFIC:
                c.execute(f"SELECT * FROM ONLY {sch}.{kind}")
                cols = [d.name for d in c.description]
                for rec in c.fetchall():
                    d = {k: "null" for k in COLS}
                    d.update(self.row(cols, rec))
                    d["id"] = self.name(rec[cols.index("visitseq_uuid")])
                    d["kind"] = kind
                    seqs.append(d)
            c.execute(f"SELECT visitseq_uuid, tag FROM {sch}.tags")
            tags = [[self.name(a), b] for a, b in c.fetchall()]
            c.execute(f"SELECT visitseq_uuid, author, comment FROM {sch}.comments ORDER BY comment_time, ctid")
            comments = [dict(id=self.name(a), author="null" if b is None else b, text=t) for a, b, t in c.fetchall()]
            c.execute(f"SELECT visitseq_uuid, file_type, file_sha256, file_url FROM {sch}.files")
            files = [dict(id=self.name(a), type=b, sha=self.canon("", s), url=self.curl(u)) for a, b, s, u in c.fetchall()]
            c.execute(f"SELECT conda_env_hash, conda_env FROM {sch}.conda_env")
            envs = [dict(hash=self.canon("", h), pkgs=[[p.get("name"), p.get("version")] for p in j]) for h, j in c.fetchall()]
            c.execute(f"SELECT * FROM {sch}.nightly_stats")
            cols = [d.name for d in c.description]
            stats = [self.statrow(dict(zip(cols, r))) for r in c.fetchall()]
        seqs.sort(key=lambda d: d["id"])
        for d in seqs:
            d["url"] = self.curl(d["url"])
        return dict(seqs=seqs, tags=sorted(tags), comments=comments, files=sorted(files, key=str), envs=envs,
                    stats=sorted(stats))

    def curl(self, u):
        return "null" if u is None else u

    STATF = ["mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max"]

    def statvals(self, count):
        """The statistic values that go with a count token, so that mixed-up columns are seen."""
        n = int(count)
        return {f: (n + (i + 1) / 64.0) for i, f in enumerate(self.STATF)}

    def statrow(self, d):
        n = d["count"]
        tok = "null" if isnull(n) else str(int(n))
        if tok != "null":
            want = self.statvals(tok)
            if any(isnull(d[f]) or abs(d[f] - want[f]) > 1e-9 for f in self.STATF):
                tok += "?" + ",".join(str(d[f]) for f in self.STATF)
        if d["accumulated"] is not False and not (isinstance(d["accumulated"], np.bool_) and not d["accumulated"]):
            tok += "?acc"
        day = d["day_obs"]
        return [self.name(d["visitseq_uuid"]), day.isoformat() if hasattr(day, "isoformat") else str(day),
                d["value_name"], tok]

    def sessions(self):
        r = self.adm("SELECT state, application_name FROM pg_stat_activity WHERE datname=%s AND pid<>pg_backend_pid()",
                     (self.dbname,))
        return dict(count=len(r), intrans=sum(1 for s, _ in r if s and s.startswith("idle in")))

    # ------------------------------------------------------------ operations
    def reset(self):
        s = self.sessions()
        try:
            self.adm("TRUNCATE " + ", ".join(f"{self.schema}.{t}" for t in TABLES), fetch=False)
        except psycopg2.Error:
            self.reopen()
            self.adm("TRUNCATE " + ", ".join(f"{self.schema}.{t}" for t in TABLES), fetch=False)
        self.ids, self.names, self.nrec = {}, {}, 0
        return dict(op="reset", obs=self.observe(), sess=s)

    def date(self, s, fmt):
        if s == "null":
            return None
        if fmt == "int":
            return int(s.replace("-", ""))
        if fmt == "date":
            return datetime.date.fromisoformat(s)
        return s

    def common_kwargs(self, f, fmt):
        kw = dict(telescope=None if f["telescope"] == "null" else f["telescope"])
        if f["url"] != "null":
            kw["url"] = f["url"]
        if f["first"] != "null":
            kw["first_day_obs"] = self.date(f["first"], fmt)
        if f["last"] != "null":
            kw["last_day_obs"] = self.date(f["last"], fmt)
        if f["ctime"] != "null":
            kw["creation_time"] = Time(f["ctime"], scale="utc")
        return kw

    def call(self, e):
        vs, op = self.vs, e["op"]
        if op == "record":
            f, fmt = e["f"], e.get("fmt", "iso")
            visits = VISITS["v1"] if f["sha"] == "null" else VISITS[f["sha"]]
            label = None if f["label"] == "null" else f["label"]
            kw = self.common_kwargs(f, fmt)
            opt = lambda k: None if f[k] == "null" else f[k]
            if e["via"] == "generic":
                u = vs.record_visitseq_metadata(visits, label, table=e["kind"], **kw)
            elif e["kind"] == "visitseq":
                u = vs.record_visitseq_metadata(visits, label, **kw)
            elif e["kind"] == "simulations":
                if f["sched"] != "null":
                    kw["scheduler_version"] = f["sched"]
                if f["config"] != "null":
                    kw["config_url"] = f["config"]
                if f["env"] != "null":
                    kw["conda_env_sha256"] = HASHES[f["env"]]
                if f["parent"] != "null":
                    kw["parent_visitseq_uuid"] = self.uid(f["parent"])
                if f["kwargs"] != "null":
                    kw["sim_runner_kwargs"] = KWARGS[f["kwargs"]][0]
                if f["plast"] != "null":
                    kw["parent_last_day_obs"] = self.date(f["plast"], fmt)
                u = vs.record_simulation_metadata(visits, label, **kw)
            elif e["kind"] == "completed":
                if f["query"] != "null":
                    kw["query"] = f["query"]
                u = vs.record_completed_metadata(visits, label, **kw)
            else:
                u = vs.record_mixed_metadata(
                    visits, label, self.date(f["le"], fmt), self.date(f["fl"], fmt),
                    None if f["ep"] == "null" else self.uid(f["ep"]),
                    None if f["lp"] == "null" else self.uid(f["lp"]), **kw)
            u = u if isinstance(u, UUID) else UUID(str(u))
            if u not in self.names:
                self.nrec += 1
                n = f"u{self.nrec}"
                # parents may name sequences recorded later: those keep their placeholder UUID
                if n in self.ids:
                    self.names[self.ids[n]] = n
                self.ids[n] = u
                self.names[u] = n
            return self.names[u]
        if op == "update":
            c, v = e["field"], e["value"]
            if v == "null":
                v = None
            elif c in ("parent", "ep", "lp"):
                v = self.uid(v)
            elif c == "env":
                v = HASHES[v]
            elif c == "sha":
                v = [h for h, k in self.vsha.items() if k == v][0]
            vs.update_visitseq_metadata(self.uid(e["id"]), COLS.get(c, c), v)
            return "null"
        if op == "seturl":
            vs.set_visitseq_url(self.uid(e["id"]), e["value"])
            return "null"
        if op == "geturl":
            r = vs.get_visitseq_url(self.uid(e["id"]))
            return "null" if r is None else r
        if op == "meta":
            s = vs.get_visitseq_metadata(self.uid(e["id"]), e["table"])
            d = self.row(list(s.index), list(s.values))
            if self.name(s["visitseq_uuid"]) != e["id"]:
                d["id"] = str(s["visitseq_uuid"])
            return d
        if op == "recenv":
            j = json.dumps([dict(name=n, version=v, channel="c", platform="p") for n, v in e["pkgs"]])
            return self.canon("", vs.record_conda_env(HASHES[e["hash"]], j))
        if op == "saved":
            return bool(vs.conda_env_is_saved(HASHES[e["hash"]]))
        if op == "software":
            df = vs.get_software_versions_for_sim(self.uid(e["id"]), e["only"] if e["only"] else None)
            return [[n, r["package_version"]] for n, r in df.iterrows()]
        if op == "tag":
            vs.tag(self.uid(e["id"]), *e["tags"])
            return "null"
        if op == "untag":
            vs.untag(self.uid(e["id"]), e["tag"])
            return "null"
        if op == "istagged":
            return bool(vs.is_tagged(self.uid(e["id"]), e["tag"]))
        if op == "comment":
            if e["author"] == "null":
                vs.comment(self.uid(e["id"]), e["text"])
            else:
                vs.comment(self.uid(e["id"]), e["text"], author=e["author"])
            return "null"
        if op == "comments":
            df = vs.get_comments(self.uid(e["id"]))
            df = df.sort_values("comment_time", kind="stable")
            return [["null" if isnull(a) else a, t] for a, t in zip(df["author"], df["comment"])]
        if op == "register":
            vs.register_file(self.uid(e["id"]), e["type"], SHAS[e["sha"]], e["url"], update=e["update"])
            return "null"
        if op == "fileurl":
            r = vs.get_file_url(self.uid(e["id"]), e["type"])
            return "null" if r is None else r
        if op == "filesha":
            return self.canon("", vs.get_file_sha256(self.uid(e["id"]), e["type"]))
        if op == "extra":
            s = vs.get_visitseq_metadata(self.uid(e["id"]), "simulations_extra")
            com = sorted(s["comments"].items(), key=lambda kv: pd.Timestamp(kv[0]))
            return dict(row=self.row(list(s.index), list(s.values)), tags=list(s["tags"]), comments=[t for _, t in com],
                        files=[[k, v] for k, v in s["files"].items()])
        if op == "addstats":
            df = pd.DataFrame([dict(day_obs=d, value_name=v, accumulated=False, count=int(n), **self.statvals(n))
                               for d, v, n in e["rows"]])
            before = df.copy()
            vs.insert_nightly_stats(self.uid(e["id"]), df)
            if not df.equals(before) or list(df.columns) != list(before.columns):
                return "caller's table modified"
            return "null"
        if op == "stats":
            df = vs.query_nightly_stats(self.uid(e["id"]))
            return [self.statrow(r) for r in df.to_dict("records")]
        if op == "badquery":
            vs.query(e["sql"])
            return "null"
        if op == "roquery":
            vs.query(e["sql"].replace("SCHEMA", self.schema), return_result=e.get("ret", True))
            return "null"
        raise MachineryError("unknown op " + op)

    def do(self, e):
        ev = dict(e)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ev["res"] = dict(ok=True, err="", val=self.call(e))
        except MachineryError:
            raise
        except Exception as x:
            err = "ValueError" if isinstance(x, ValueError) else type(x).__name__
            ev["res"] = dict(ok=False, err=err, val="null", msg=str(x)[:200])
        ev["sess"] = self.sessions()
        ev["obs"] = self.observe()
        self.ctx.count(e["op"] + ("" if ev["res"]["ok"] else ":refused"))
        return ev

    def run(self, ops):
        return [self.reset()] + [self.do(e) for e in ops]


# ---------------------------------------------------------------- random histories
F0 = {c: "null" for c in COLS}
LABELS = ["l1", "l2", "o'br %s {}", 'q"uote', "100%"]
TAGS = ["ideal", "Ideal", "nom%inal", "t'4", "nom_inal", "nominal"]
TYPES = ["rewards", "scheduler", "visits", "obs'y"]
DAYS = ["2025-03-01", "2025-03-02", "2025-12-31", "2024-02-29"]
TABLE_POOL = ["visitseq", "simulations", "completed", "mixedvisitseq"]


def maybe(rng, vals, p=0.6):
    return rng.choice(vals) if rng.random() < p else "null"


def rand_ids(rng, n):
    return [f"u{i + 1}" for i in range(n)]


def rec_op(rng, kind=None):
    kind = kind or rng.choice(TABLE_POOL)
    f = dict(F0)
    f.update(label=rng.choice(LABELS), telescope=rng.choice(["simonyi", "auxtel"]), sha=rng.choice(sorted(VISITS)),
             url=maybe(rng, ["file:///x1", "s3://b/k ey%20"]), first=maybe(rng, DAYS), last=maybe(rng, DAYS),
             ctime=maybe(rng, ["2025-02-28T13:00:00", "2025-02-28T23:59:59.250000", "2025-06-01T00:00:00"]))
    if rng.random() < 0.05:
        f[rng.choice(["label", "telescope"])] = "null"
    f.update(sched=maybe(rng, ["3.1", "4.0.dev1"]), config=maybe(rng, ["http://c/1"]), env=maybe(rng, sorted(HASHES)),
             parent=maybe(rng, ["u1", "u2"]), kwargs=maybe(rng, sorted(KWARGS)), plast=maybe(rng, DAYS))
    f.update(query=maybe(rng, ["SELECT * FROM x WHERE a='%s'"]))
    if kind == "mixedvisitseq":
        f.update(le=rng.choice(DAYS), fl=rng.choice(DAYS), ep=rng.choice(["u1", "u2"]), lp=rng.choice(["u1", "u2"]))
    return dict(op="record", kind=kind, via="generic" if rng.random() < 0.2 else "specific", f=f,
                fmt=rng.choice(["iso", "int", "date"]))


UPD = dict(label=LABELS + ["null"], telescope=["simonyi", "auxtel", "null"], url=["file:///x2", "null"], first=DAYS + ["null"],
           last=DAYS, sched=["5", "null"], config=["cc"], env=["h1", "h2", "null"], parent=["u1", "null"],
           plast=DAYS, query=["Q2", "null"], le=DAYS, fl=DAYS, ep=["u1"], lp=["u2", "null"], sha=["v1", "v5"],
           nonsense=["1"])


def rand_op(rng, n, weights):
    """One random operation; n = sequences recorded so far."""
    ids = rand_ids(rng, n)
    anyid = lambda: rng.choice(ids + ["u77"]) if ids and rng.random() < 0.93 else "u77"
    known = lambda: rng.choice(ids)
    op = rng.choices(list(weights), list(weights.values()))[0]
    if not ids and op not in ("recenv", "saved", "badquery", "roquery"):
        op = "record"
    if op == "record":
        return rec_op(rng)
    if op == "update":
        f = rng.choice(list(UPD))
        return dict(op=op, id=anyid(), field=f, value=rng.choice(UPD[f]))
    if op == "seturl":
        return dict(op=op, id=anyid(), value=rng.choice(["file:///y1", "s3://b/y 2"]))
    if op in ("geturl", "comments", "extra", "stats"):
        return dict(op=op, id=anyid())
    if op == "meta":
        return dict(op=op, id=anyid(), table=rng.choice(TABLE_POOL + ["visitseq", "nonsense"]))
    if op == "recenv":
        return dict(op=op, hash=rng.choice(sorted(HASHES)[:3]),
                    pkgs=rng.choice([[["a", "1"], ["b", "2"], ["aa", "2"]], [["c", "3"]], [["ab", "9"], ["a", "9"], ["d", "0.1"], ["e", "x"], ["a-b", "1"]]]))
    if op == "saved":
        return dict(op=op, hash=rng.choice(sorted(HASHES)))
    if op == "software":
        return dict(op=op, id=anyid(), only=rng.choice([[], ["a"], ["zz", "d", "a"], ["e", "a"], ["b", "aa"]]))
    if op == "tag":
        k = rng.choice([1, 1, 2, 3])
        return dict(op=op, id=known(), tags=[rng.choice(TAGS) for _ in range(k)])
    if op in ("untag", "istagged"):
        return dict(op=op, id=anyid(), tag=rng.choice(TAGS))
    if op == "comment":
        return dict(op=op, id=known(), author=maybe(rng, ["me", "o'me"]), text=rng.choice(["c1", "it's %s", "c3"]))
    if op == "register":
        return dict(op=op, id=known(), type=rng.choice(TYPES), sha=rng.choice(sorted(SHAS)[:3]),
                    url=rng.choice(["file:///a", "file:///b%20c"]), update=rng.random() < 0.5)
    if op == "fileurl":
        return dict(op=op, id=anyid(), type=rng.choice(TYPES))
    if op == "filesha":
        return dict(op=op, id=anyid(), type=rng.choice([t for t in TYPES if t != "visits"]))
    if op == "addstats":
        rows = []
        for _ in range(rng.choice([1, 2, 3])):
            rows.append([rng.choice(DAYS[:3]), rng.choice(["alt", "az"]), str(rng.choice([0, 1, 5]))])
        return dict(op=op, id=known(), rows=rows)
    if op == "badquery":
        return dict(op=op, sql=rng.choice(["SELECT nonsense FROM nowhere", "SELECT 1/0", "SELEC 1"]))
    if op == "roquery":
        return rng.choice([dict(op=op, sql="SELECT COUNT(*) FROM SCHEMA.tags"),
                           dict(op=op, sql="DELETE FROM SCHEMA.tags", ret=False),
                           dict(op=op, sql="UPDATE SCHEMA.visitseq SET visitseq_label='zap'", ret=False),
                           dict(op=op, sql="INSERT INTO SCHEMA.tags VALUES (gen_random_uuid(), 'x')", ret=False)])
    raise MachineryError(op)


W_REC = dict(record=5, update=4, seturl=1, geturl=1, meta=5, recenv=2, saved=1, software=2, extra=1, tag=1, comment=1)
W_ANN = dict(record=1, tag=4, untag=4, istagged=3, comment=3, comments=3, register=5, fileurl=3, filesha=2, extra=4,
             seturl=1, update=1)
W_ALL = {**{k: 1 for k in list(W_REC) + list(W_ANN)}, "addstats": 1.5, "stats": 1.5, "badquery": 1, "roquery": 1,
         "record": 2}


def rand_history(rng, length, weights):
    ops, n = [], 0
    for _ in range(length):
        e = rand_op(rng, n, weights)
        if e["op"] == "record":
            if n >= 4:
                e = rand_op(rng, n, {k: w for k, w in weights.items() if k != "record"})
            elif e["f"]["label"] != "null" and e["f"]["telescope"] != "null":
                n += 1
        ops.append(e)
    return ops


def maximal(histories):
    """Drop histories that are prefixes of other ones."""
    keys = sorted(json.dumps(h, sort_keys=True)[:-1] for h in histories)
    keep = [keys[i] for i in range(len(keys)) if not (i + 1 < len(keys) and keys[i + 1].startswith(keys[i]))]
    return [json.loads(k + "]") for k in keep]


def mc(ctx, rec, ann, emit, n, ml):
    return ctx.design("VsArchiveMC", constants=f" MaxSeqs={n}\n MaxLen={ml}\n UseRec={rec}\n UseAnn={ann}\n Emit={emit}",
                      invariants=["Inv"], view="View", workers=1 if emit == "TRUE" else 6)


def spec_histories(ctx, rec, ann, n, ml, limit):
    r = mc(ctx, rec, ann, "TRUE", n, ml)
    hs = maximal(r.printed)
    total = len(hs)
    ctx.rng.shuffle(hs)
    ctx.extra["spec_generated_behaviours"] = ctx.extra.get("spec_generated_behaviours", 0) + min(limit, total)
    ctx.extra["spec_behaviours_available"] = ctx.extra.get("spec_behaviours_available", 0) + total
    return hs[:limit]


def env_history(rng):
    """Environments with similar package names, simulations recorded with them, their software asked for."""
    names = ["a", "aa", "a-b", "b", "A", "a.b", "axb"]
    ops = []
    for h in sorted(HASHES)[:2]:
        ops.append(dict(op="recenv", hash=h, pkgs=[[n, rng.choice(["1", "2.0"])] for n in rng.sample(names, rng.randrange(1, 6))]))
    for _ in range(2):
        r = rec_op(rng, "simulations")
        r["via"] = "specific"
        r["f"]["env"] = rng.choice(sorted(HASHES)[:2])
        r["f"].update(parent="null")
        ops.append(r)
    for _ in range(5):
        ops.append(dict(op="software", id=rng.choice(["u1", "u2"]), only=rng.sample(names + ["zz"], rng.randrange(0, 4))))
    return ops


def check_a01(ctx):
    ctx.bg(mc, ctx, "TRUE", "FALSE", "FALSE", 2, 9)
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    traces = [ar.run(h) for h in spec_histories(ctx, "TRUE", "FALSE", 2, ctx.pick(3, 4), ctx.pick(350, 3000))]
    for _ in range(ctx.pick(90, 700)):
        traces.append(ar.run(rand_history(ctx.rng, ctx.rng.choice([6, 14, 24]), W_REC)))
    for _ in range(ctx.pick(25, 200)):
        traces.append(ar.run(env_history(ctx.rng)))
    ctx.oracle("VsArchiveTrace", traces, chunks=6)


def check_a02(ctx):
    ctx.bg(mc, ctx, "FALSE", "TRUE", "FALSE", 2, 9)
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    traces = [ar.run(h) for h in spec_histories(ctx, "FALSE", "TRUE", 2, ctx.pick(4, 5), ctx.pick(350, 3000))]
    for _ in range(ctx.pick(90, 700)):
        traces.append(ar.run(rand_history(ctx.rng, ctx.rng.choice([8, 16, 30]), W_ANN)))
    ctx.oracle("VsArchiveTrace", traces, chunks=6)


# ---------------------------------------------------------------- A03: faults
FAULT_SQL = """
CREATE SCHEMA flt;
CREATE SEQUENCE flt.ctr; CREATE SEQUENCE flt.hits;
CREATE TABLE flt.cfg (k INT, mode TEXT);
INSERT INTO flt.cfg VALUES (0, 'none');
CREATE FUNCTION flt.hit() RETURNS trigger AS $$
DECLARE n BIGINT; c RECORD; r BOOLEAN;
BEGIN
  SELECT * INTO c FROM flt.cfg;
  IF (c.mode = 'commit') <> (TG_ARGV[0] = 'commit') OR c.mode = 'none' THEN RETURN NULL; END IF;
  n := nextval('flt.ctr');
  IF n = c.k THEN
    PERFORM nextval('flt.hits');
    IF c.mode = 'kill' THEN PERFORM pg_terminate_backend(pg_backend_pid()); PERFORM pg_sleep(2);
    ELSE RAISE EXCEPTION 'injected failure'; END IF;
  END IF;
  RETURN NULL;
END $$ LANGUAGE plpgsql;
"""


def install_faults(ar):
    ar.adm(FAULT_SQL, fetch=False)
    for t in TABLES:
        ar.adm(f"CREATE TRIGGER flt_s BEFORE INSERT OR UPDATE OR DELETE ON {ar.schema}.{t} FOR EACH STATEMENT "
               "EXECUTE FUNCTION flt.hit('stmt')", fetch=False)
        ar.adm(f"CREATE TRIGGER flt_a AFTER INSERT OR UPDATE OR DELETE ON {ar.schema}.{t} FOR EACH STATEMENT "
               "EXECUTE FUNCTION flt.hit('stmt')", fetch=False)
        ar.adm(f"CREATE CONSTRAINT TRIGGER flt_c AFTER INSERT OR UPDATE OR DELETE ON {ar.schema}.{t} DEFERRABLE "
               "INITIALLY DEFERRED FOR EACH ROW EXECUTE FUNCTION flt.hit('commit')", fetch=False)


def set_fault(ar, k, mode):
    ar.adm("UPDATE flt.cfg SET k=%s, mode=%s", (k, mode), fetch=False)
    ar.adm("SELECT setval('flt.ctr', 1, false), setval('flt.hits', 1, false)")


def fault_hit(ar):
    return ar.adm("SELECT is_called FROM flt.hits")[0][0]


def fault_targets(rng):
    """Write operations, on an archive holding u1 (simulation), u2 (completed), u3 (mixed)."""
    out = [dict(rec_op(rng, k), via="specific") for k in TABLE_POOL]
    for o in out:
        o["f"] = {c: (rng.choice(["l1", "l2"]) if c == "label" else "simonyi" if c == "telescope" else
                      "v2" if c == "sha" else v) for c, v in o["f"].items()}
        o["f"].update(sched="3.1", config="cfg", env="h1", kwargs="k2", query="Q", parent="u1", plast="2025-03-01")
    out += [dict(out[1], via="generic")]
    out += [dict(op="update", id=i, field=f, value=v) for i, f, v in
            [("u1", "label", "zz"), ("u2", "query", "Q9"), ("u3", "le", "2025-12-31"), ("u1", "sched", "9")]]
    out += [dict(op="seturl", id="u2", value="file:///new")]
    out += [dict(op="tag", id="u1", tags=["new1"]), dict(op="tag", id="u1", tags=["new1", "new2", "new3"]),
            dict(op="tag", id="u1", tags=["prenight", "new2", "new3"])]
    out += [dict(op="untag", id="u1", tag="prenight")]
    out += [dict(op="comment", id="u1", author="me", text="c9"), dict(op="comment", id="u2", author="null", text="c9")]
    out += [dict(op="register", id="u1", type="scheduler", sha="s5", url="file:///z", update=False),
            dict(op="register", id="u1", type="rewards", sha="s6", url="file:///y", update=True)]
    out += [dict(op="addstats", id="u1", rows=[["2025-12-31", "alt", "4"], ["2025-12-30", "az", "5"]])]
    out += [dict(op="recenv", hash="h4", pkgs=[["q", "1"], ["r", "2"]])]
    return out


def prelude(rng):
    mk = lambda kind: dict(rec_op(rng, kind), via="specific")
    ops = [mk("simulations"), mk("completed"), mk("mixedvisitseq")]
    for o in ops:
        o["f"].update(label="l1", telescope="simonyi")
    ops += [dict(op="tag", id="u1", tags=["prenight", "ideal"]), dict(op="comment", id="u1", author="null", text="c1"),
            dict(op="register", id="u1", type="rewards", sha="s1", url="file:///a", update=False),
            dict(op="addstats", id="u1", rows=[["2025-03-01", "alt", "2"]]),
            dict(op="recenv", hash="h1", pkgs=[["a", "1"]])]
    return ops


def check_a03(ctx):
    ctx.bg(ctx.design, "VsFault", invariants=["Atomic", "OkMeansDone", "ErrorMeansNothing"], spec="Spec",
           properties=["Ends"], workers=1)
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    install_faults(ar)
    traces, hits = [], {}
    for rnd in range(ctx.pick(1, 6)):
        for target in fault_targets(ctx.rng):
            for mode in ("error", "kill", "commit"):
                for k in range(1, 12):
                    set_fault(ar, 0, "none")
                    tr = ar.run(prelude(ctx.rng)) if (k == 1 and mode == "error") or ctx.thorough else \
                        [ar.reset()] + [ar.do(o) for o in prelude(ctx.rng)[:3 if target["op"] in ("record", "recenv") else 8]]
                    set_fault(ar, k, mode)
                    ev = ar.do(target)
                    hit = fault_hit(ar)
                    set_fault(ar, 0, "none")
                    ev["fault"] = f"{mode}{k}" if hit else "none"
                    tr.append(ev)
                    if hit:
                        hits[f"{target['op']}/{mode}"] = hits.get(f"{target['op']}/{mode}", 0) + 1
                        if mode == "kill":
                            ar.reopen()
                        # the archive still serves the same request afterwards
                        if target["op"] != "record":
                            tr.append(ar.do(target))
                        else:
                            tr.append(ar.do(dict(op="geturl", id="u1")))
                    traces.append(tr)
                    if not hit:
                        break
    if len(hits) < 25:
        raise MachineryError(f"too few fault points reached: {hits}")
    ctx.extra["fault_points"] = hits
    ctx.oracle("VsArchiveTrace", traces, chunks=6,
               key=lambda b: f"{b['event']['op']}:{b['event'].get('fault', 'after')}:{'+'.join(b['clauses'])}")


# ---------------------------------------------------------------- A04: connections
def hammer_ops(rng):
    """Each operation, successful and refused, as an operation repeated many times."""
    ok = [dict(op="meta", id="u1", table="visitseq"), dict(op="extra", id="u1"), dict(op="geturl", id="u1"),
          dict(op="seturl", id="u1", value="file:///q"), dict(op="update", id="u1", field="label", value="l9"),
          dict(op="tag", id="u1", tags=["a", "b"]), dict(op="istagged", id="u1", tag="a"),
          dict(op="comment", id="u1", author="null", text="c1"), dict(op="comments", id="u1"),
          dict(op="register", id="u1", type="rewards", sha="s1", url="file:///a", update=True),
          dict(op="fileurl", id="u1", type="rewards"), dict(op="filesha", id="u1", type="rewards"),
          dict(op="recenv", hash="h1", pkgs=[["a", "1"]]), dict(op="saved", hash="h1"),
          dict(op="software", id="u1", only=[]), dict(op="stats", id="u1"),
          dict(op="roquery", sql="SELECT COUNT(*) FROM SCHEMA.tags"),
          dict(op="roquery", sql="DELETE FROM SCHEMA.tags", ret=False)]
    bad = [dict(op="meta", id="u77", table="visitseq"), dict(op="meta", id="u1", table="nonsense"),
           dict(op="extra", id="u77"), dict(op="geturl", id="u77"), dict(op="seturl", id="u77", value="x"),
           dict(op="update", id="u77", field="label", value="x"), dict(op="update", id="u1", field="nonsense", value="x"),
           dict(op="update", id="u1", field="label", value="null"), dict(op="untag", id="u1", tag="never"),
           dict(op="register", id="u1", type="visits", sha="s1", url="x", update=True),
           dict(op="fileurl", id="u1", type="never"), dict(op="filesha", id="u1", type="never"),
           dict(op="addstats", id="u1", rows=[["2025-03-01", "a", "1"], ["2025-03-01", "a", "2"]]),
           dict(op="badquery", sql="SELECT 1/0"), dict(op="badquery", sql="SELEC 1")]
    for k in TABLE_POOL:
        o = dict(rec_op(rng, k), via="specific")
        o["f"]["label"] = "null"
        bad.append(o)
    return ok, bad


def check_a04(ctx):
    ctx.bg(ctx.design, "VsPool", constants=" Max = 3\n MaxOps = 7", invariants=["NoLeak", "NothingOpen", "Bounded", "Serves"],
           properties=["Returns"], spec="Spec", workers=2)
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    rng = ctx.rng
    sim = dict(rec_op(rng, "simulations"), via="specific")
    sim["f"].update(label="l1", telescope="simonyi", env="h1")
    ok, bad = hammer_ops(rng)
    traces = []
    probe = [dict(op="meta", id="u1", table="visitseq"), dict(op="tag", id="u1", tags=["probe"]), dict(op="stats", id="u1"),
             dict(op="addstats", id="u1", rows=[["2025-12-31", "probe", "1"]]), dict(op="extra", id="u1")]
    for _ in range(ctx.pick(1, 4)):
        for o in ok + bad:
            ar.reopen()
            traces.append(ar.run([sim] + [o] * 7 + probe))
        ar.reopen()
        many = [dict(op="addstats", id="u1", rows=[[f"2025-01-{d:02d}", "alt", "1"]]) for d in range(1, 13)]
        traces.append(ar.run([sim] + many + probe))
        for kind in TABLE_POOL:
            ar.reopen()
            o = dict(rec_op(rng, kind), via="specific")
            o["f"].update(label="l1", telescope="simonyi")
            traces.append(ar.run([sim] + [o] * 8 + probe))
        ar.reopen()
        tu = [dict(op="tag", id="u1", tags=["t"]), dict(op="untag", id="u1", tag="t")] * 7
        traces.append(ar.run([sim] + tu + probe))
    ar.reopen()
    for _ in range(ctx.pick(6, 40)):
        # all on one archive object: long histories of everything
        traces.append(ar.run(rand_history(rng, 110, dict(W_ALL, badquery=3, roquery=3))))
    ctx.oracle("VsArchiveTrace", traces, chunks=6)


# ---------------------------------------------------------------- A05: stored files
class Store:
    def __init__(self, ctx, ar):
        from click.testing import CliRunner
        from lsst.resources import ResourcePath
        from rubin_sim.sim_archive import vseqarchive

        self.ctx, self.ar, self.va, self.RP = ctx, ar, vseqarchive, ResourcePath
        self.runner = CliRunner()

    def reset(self):
        self.ar.reset()
        self.root = self.ctx.subdir("arch")
        self.work = self.ctx.subdir("src")
        self.contents = {}
        return dict(op="reset", obs=self.observe())

    def loc(self, url):
        p = self.RP(url).ospath
        try:
            p = str(p)[len(str(self.root)) + 1:] if str(p).startswith(str(self.root) + "/") else "outside:" + p
        except Exception:
            pass
        for u, n in self.ar.names.items():
            p = p.replace(str(u), n)
        return p

    def token(self, b):
        return b.decode() if b.startswith(b"content") else hashlib.sha256(b).hexdigest()

    def observe(self):
        a, reg, store = self.ar, [], []
        for u, t, s, url in a.adm(f"SELECT visitseq_uuid, file_type, file_sha256, file_url FROM {a.schema}.files"):
            s = bytes(s)
            tok = [k for k in self.contents if hashlib.sha256(k.encode()).digest() == s]
            reg.append(dict(id=a.name(u), type=t, loc=self.loc(url), sha=tok[0] if tok else s.hex()))
        for u, url in a.adm(f"SELECT visitseq_uuid, visitseq_url FROM {a.schema}.visitseq WHERE visitseq_url IS NOT NULL"):
            reg.append(dict(id=a.name(u), type="visits", loc=self.loc(url), sha="-"))
        for p in sorted(self.root.rglob("*")):
            if p.is_file():
                store.append(dict(loc=self.loc(str(p)), content=self.token(p.read_bytes())))
        return dict(reg=reg, store=store)

    def call(self, e):
        a, va = self.ar, self.va
        if e["op"] == "new":
            f = dict(F0, label="l", telescope=e["tel"], sha="v1", ctime=e["ctime"])
            return a.call(dict(op="record", kind=e["kind"], via="specific",
                               f=dict(f, le=DAYS[0], fl=DAYS[1], ep="u1", lp="u1"), fmt="iso"))
        if e["op"] == "move":
            a.vs.update_visitseq_metadata(a.uid(e["id"]), "visitseq_label", "other label")
            return "null"
        if e["op"] == "addfile":
            d = self.work / f"d{len(list(self.work.iterdir()))}"
            d.mkdir()
            p = d / e["name"]
            p.write_bytes(e["content"].encode())
            self.contents[e["content"]] = 1
            base = self.root.as_uri() + "/"
            if e["via"] == "cli":
                args = [str(a.uid(e["id"])), str(p), e["type"], "--archive-base", base] + (["--update"] if e["update"] else [])
                r = self.runner.invoke(va.archive_file, args, obj=a.vs)
                if r.exception is not None:
                    raise r.exception
                return self.loc(r.output.strip().splitlines()[-1])
            base = self.RP(base) if e["via"] == "rp" else base
            rp = va.add_file(a.vs, a.uid(e["id"]), p if e["via"] == "api" else str(p), e["type"], base, update=e["update"])
            return self.loc(rp.geturl())
        if e["op"] == "fetch":
            dest = self.work / f"f{len(list(self.work.iterdir()))}"
            r = self.runner.invoke(va.get_file, [str(a.uid(e["id"])), e["type"], str(dest)], obj=a.vs)
            if r.exception is not None:
                raise r.exception
            return self.token(dest.read_bytes())
        raise MachineryError(e["op"])

    def do(self, e):
        ev = dict(e)
        try:
            ev["res"] = dict(ok=True, err="", val=self.call(e))
        except MachineryError:
            raise
        except (Exception, SystemExit) as x:
            ev["res"] = dict(ok=False, err="ValueError" if isinstance(x, ValueError) else type(x).__name__, val="null",
                             msg=str(x)[:200])
        ev["obs"] = self.observe()
        if e["op"] == "addfile":
            # where the present layout would put it: only used to allow a refusal on a name clash
            ev["naive"] = next((r["loc"] for r in ev["obs"]["reg"] if r["id"] == e["id"]
                                and r["loc"].rsplit("/", 1)[-1] == e["name"] and r["type"] != e["type"]), "none")
        self.ctx.count(e["op"] + ("" if ev["res"]["ok"] else ":refused"))
        return ev


def store_history(rng, length):
    ops = [dict(op="new", id="u1", kind="simulations", tel="simonyi", ctime="2025-02-28T13:00:00"),
           dict(op="new", id="u2", kind=rng.choice(["visitseq", "completed", "mixedvisitseq"]),
                tel=rng.choice(["simonyi", "auxtel"]), ctime=rng.choice(["2025-02-28T13:00:00", "2025-03-01T11:59:00"]))]
    for _ in range(length):
        i = rng.choice(["u1", "u1", "u2", "u77"] if rng.random() < 0.3 else ["u1", "u2"])
        x = rng.random()
        if x < 0.7:
            t = rng.choice(["rewards", "scheduler", "visits", "notes"])
            ops.append(dict(op="addfile", id=i, type=t, name=rng.choice(["a.txt", "b.h5", "my file%1.dat", "visits.h5"]),
                            content=f"content{rng.randrange(1000)}", update=rng.random() < 0.5,
                            via=rng.choice(["api", "cli", "rp"])))
        elif x < 0.95:
            ops.append(dict(op="fetch", id=i, type=rng.choice(["rewards", "scheduler", "visits", "notes"])))
        else:
            ops.append(dict(op="move", id=rng.choice(["u1", "u2"])))
    return ops


def check_a05(ctx):
    os_env()
    cst = ' Ids = {"u1", "u2"}\n Types = {"rewards", "visits"}\n Names = {"a.txt", "b.h5"}\n Contents = {"content1", "content2"}\n'
    ctx.bg(ctx.design, "VsStoreMC", constants=cst + " MaxLen = 4\n Emit = FALSE", invariants=["Inv"], view="View", workers=3)
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    st = Store(ctx, ar)
    new = [dict(op="new", id=f"u{k}", kind="simulations", tel="simonyi", ctime="2025-02-28T13:00:00") for k in (1, 2)]
    r = ctx.design("VsStoreMC", constants=cst.replace('{"u1", "u2"}', '{"u1"}') + f" MaxLen = {ctx.pick(3, 4)}\n Emit = TRUE",
                   invariants=["Inv"], view="View", workers=1)
    hs = maximal(r.printed)
    ctx.rng.shuffle(hs)
    traces = []
    for h in hs[: ctx.pick(120, 1500)]:
        tail = [dict(op="fetch", id="u1", type=t) for t in ("rewards", "visits")]
        traces.append([st.reset()] + [st.do(e) for e in new + h + tail])
    for _ in range(ctx.pick(60, 500)):
        traces.append([st.reset()] + [st.do(e) for e in store_history(ctx.rng, ctx.rng.choice([6, 14]))])
    ctx.oracle("VsStoreTrace", traces, chunks=6)


def os_env():
    import os

    os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"


# ---------------------------------------------------------------- A07: nightly statistics
NA = -99999


def stats_case(ctx, ar, visits, given, cols, sid, scale=1.0):
    """Run the real computation on an abstract table; all observed numbers turned into exact integers."""
    from rubin_sim.sim_archive.vseqarchive import compute_nightly_stats

    base = datetime.date(2025, 3, 1)
    df = pd.DataFrame({c: [np.nan if v["x"][c] == NA else float(v["x"][c]) for v in visits] for c in cols})
    if given == "night":
        df["day_obs"] = [base + datetime.timedelta(days=v["night"]) for v in visits]
        origin = base
    else:
        mjd0 = 60700
        df[given] = [mjd0 + v["t"] / 100000.0 for v in visits]
        origin = datetime.date(1858, 11, 17) + datetime.timedelta(days=mjd0)
    df["other"] = 5.0
    ev = dict(op="stats", visits=visits, given=given == "night", cols=list(cols), ok=True, rows=[], unmodified=True,
              field=given)

    def canon(s):
        def num(x, f=1):
            if isnull(x):
                return NA
            y = float(x) * f
            return int(round(y)) if abs(y - round(y)) < 1e-6 * max(1, abs(y)) else 10**8 + int(abs(y) * 10) % 10**6
        rows = []
        for r in s.to_dict("records"):
            n = num(r["count"])
            d = pd.Timestamp(r["day_obs"]).date()
            rows.append(dict(night=(d - origin).days, col=r["value_name"], count=n, sum=num(r["mean"], max(n, 1)),
                             var=NA if isnull(r["std"]) else num(r["std"] ** 2, n * (n - 1)), min=num(r["min"]), max=num(r["max"]),
                             p05=num(r["p05"], 20), q1=num(r["q1"], 20), median=num(r["median"], 20), q3=num(r["q3"], 20),
                             p95=num(r["p95"], 20), acc=bool(r["accumulated"])))
        return rows

    try:
        before = df.copy()
        s = compute_nightly_stats(df, columns=tuple(cols))
        ev["unmodified"] = bool(before.equals(df)) and list(before.columns) == list(df.columns)
        ev["rows"] = canon(s)
        if ar is not None:
            u = UUID(int=sid)
            ar.vs.insert_nightly_stats(u, s)
            ev["stored"] = canon(ar.vs.query_nightly_stats(u))
    except Exception as x:
        ev["ok"] = False
        ev["msg"] = f"{type(x).__name__}: {x}"[:300]
    ctx.count("nightly_stats")
    return ev


W_STATS = dict(record=1, addstats=8, stats=6, tag=1, meta=1)


def check_a07(ctx):
    ctx.bg(mc, ctx, "FALSE", "TRUE", "FALSE", 2, 9)
    r = ctx.design("NightlyStatsMC", constants=f" Times = {{25000, 50000, 149999, 150000}}\n Values = {{0, 1, 5}}\n MaxN = {ctx.pick(3, 4)}",
                   invariants=["Inv"], workers=2)
    tables = [t for t in r.printed if t]
    ctx.rng.shuffle(tables)
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    cases = []
    fields = ["observationStartMJD", "obs_start_mjd", "night"]
    n = 0
    for t in tables[: ctx.pick(500, 6000)]:
        n += 1
        g = fields[n % 3]
        t = [dict(v, night=v["t"] // 70000) for v in t]
        cases.append(stats_case(ctx, ar if n % 4 == 0 else None, t, g, ["a", "b"] if n % 2 else ["b"], n))
    rng = ctx.rng
    for _ in range(ctx.pick(250, 2500)):
        n += 1
        t = [dict(t=rng.choice([0, 49900, 49999, 50000, 50001, 50100, 99999, 100000, 125000, 149999, 150000, 249990, 249999, 350000, 275000, 50500, 49500]), night=rng.randrange(3),
                  x=dict(a=NA if rng.random() < 0.1 else rng.randrange(-5, 30), b=rng.randrange(3), altitude=rng.randrange(90)))
             for _ in range(rng.randrange(1, 13))]
        cols = rng.choice([["a"], ["b", "a"], ["altitude", "b", "a"]])
        cases.append(stats_case(ctx, ar if n % 3 == 0 else None, t, rng.choice(fields), cols, n))
    ctx.oracle("NightlyStatsTrace", [[c] for c in cases], chunks=4)
    traces = [ar.run(rand_history(rng, 16, W_STATS)) for _ in range(ctx.pick(50, 400))]
    ctx.oracle("VsArchiveTrace", traces, chunks=3)
