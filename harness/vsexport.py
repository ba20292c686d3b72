"""Export and import of simulation descriptions: property A09 (specification VsExport)."""
import contextlib
import datetime
import hashlib
import io
import json
import os
import sqlite3
from uuid import UUID

import numpy as np
import pandas as pd
import yaml
from astropy.time import Time

from .archive import Archive, isnull
from .core import MachineryError
from .pg import Postgres

T = {"T1": "2025-02-27T13:30:00", "T2": "2025-02-28T11:15:10.250000", "T3": "2024-12-31T23:59:59"}
UNT = {v: k for k, v in T.items()}


def obs_tables():
    a = pd.DataFrame({"observationId": [1, 2, 3], "observationStartMJD": [60735.1, 60735.2, 60736.2],
                      "fieldRA": [1.5, 2.5, 300.0], "band": ["g", "r", "i"]})
    b = pd.DataFrame({"observationId": [7], "observationStartMJD": [60790.3], "fieldRA": [0.1], "band": ["z"]})
    return dict(o1=a, o2=b)


class Exchange:
    def __init__(self, ctx):
        self.ctx = ctx
        os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
        pg = Postgres(ctx)
        self.a = Archive(ctx, pg)
        with contextlib.redirect_stdout(io.StringIO()):
            self.b = Archive(ctx, pg, schema="vsother") if False else self.a
        self.dir = ctx.subdir("files")
        self.content = {}  # sha -> token
        self.tables = obs_tables()
        self.paths = {}
        for n, (loc, tok) in enumerate([("f1", "o1"), ("f2", "b1"), ("f3", "o2"), ("f4", "b2"), ("f5", "b3")]):
            d = self.dir / f"d{n}"
            d.mkdir()
            if tok in self.tables:
                p = d / f"opsim {loc}.db" if n == 2 else d / "opsim.db"
                with contextlib.closing(sqlite3.connect(p)) as c:
                    self.tables[tok].to_sql("observations", c, index=False)
                    pd.DataFrame({"Parameter": ["x"], "Value": ["y"]}).to_sql("info", c, index=False)
            else:
                p = d / f"file_{loc}.txt"
                p.write_bytes(f"content {tok}".encode() * (100000 if tok == "b2" else 1))
            self.paths[loc] = p
            self.content[hashlib.sha256(p.read_bytes()).hexdigest()] = tok
        self.unurl = {}
        from lsst.resources import ResourcePath

        for loc, p in self.paths.items():
            self.unurl[ResourcePath(str(p)).geturl()] = loc
            self.unurl[str(p)] = loc
        self.url = {loc: ResourcePath(str(p)).geturl() for loc, p in self.paths.items()}

    def label(self, d):
        if d["labeltime"] == "null":
            return d["label"]
        return f"{d['label']} run at {T[d['labeltime']]}"

    def unlabel(self, s, lt):
        for t in T.values():
            s = s.replace(f" run at {t}", "")
        return s

    def count(self):
        return len(self.a.adm(f"SELECT 1 FROM {self.a.schema}.visitseq"))

    def extent(self):
        return tuple(len(self.a.adm(f"SELECT 1 FROM {self.a.schema}.{t}")) for t in ("visitseq", "tags", "files", "comments"))

    def sim(self, u):
        """The archived simulation, straight from the tables."""
        sch = self.a.schema
        r = self.a.adm(f"SELECT visitseq_label, telescope, scheduler_version, first_day_obs, last_day_obs, creation_time, visitseq_url "
                       f"FROM ONLY {sch}.simulations WHERE visitseq_uuid=%s", (str(u),))
        if len(r) != 1:
            return None
        lab, tel, sched, first, last, ct, url = r[0]
        ct = pd.Timestamp(ct).tz_convert("UTC").tz_localize(None)
        now = pd.Timestamp.now(tz="UTC").tz_localize(None)
        iso = ct.isoformat()
        files = []
        for t, sha, u2 in self.a.adm(f"SELECT file_type, file_sha256, file_url FROM {sch}.files WHERE visitseq_uuid=%s", (str(u),)):
            files.append([t, self.unurl.get(u2, u2), self.content.get(bytes(sha).hex(), "?" + bytes(sha).hex())])
        tags = [x[0] for x in self.a.adm(f"SELECT tag FROM {sch}.tags WHERE visitseq_uuid=%s", (str(u),))]
        n = lambda x: "null" if x is None else str(x)
        return dict(label=self.unlabel(lab, None), tel=tel, sched=n(sched), first=n(first), last=n(last),
                    ctime="NOW" if abs((now - ct).total_seconds()) < 600 else UNT.get(iso, iso), tags=tags, files=files,
                    obs="?"), url

    def token(self, df):
        if "index" in df.columns and "index" not in self.tables["o1"].columns:
            df = df.drop(columns="index")
        for t, want in self.tables.items():
            if df.reset_index(drop=True).equals(want):
                return t
        return "?visits differ"

    def imp(self, text, d):
        ev = dict(op="import", d=d, ok=True, stored="none", got={})
        before = self.extent()
        n0 = self.count()
        base = self.ctx.subdir("base") if self.ctx.rng.random() < 0.5 else None
        u = None
        try:
            u = self.a.vs.import_sim_from_yaml(text, None if base is None else f"file://{base}/")
            got, url = self.sim(u)
            # the visits the sequence claims to hold
            from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256
            sha = self.a.adm(f"SELECT visitseq_sha256 FROM {self.a.schema}.visitseq WHERE visitseq_uuid=%s", (str(u),))[0][0]
            for t, df in self.tables.items():
                if compute_visits_sha256(df) == bytes(sha):
                    got["obs"] = t
            if base is not None:
                from rubin_sim.sim_archive.vseqarchive import get_visits

                ev["stored"] = "?no location" if url is None else self.token(get_visits(url))
            ev["got"] = got
        except MachineryError:
            raise
        except Exception as x:
            ev["ok"] = False
            ev["msg"] = f"{type(x).__name__}: {x}"[:200]
        ev["added"] = self.count() - n0 if ev["ok"] else sum(abs(x - y) for x, y in zip(self.extent(), before))
        self.ctx.count("import" + ("" if ev["ok"] else ":refused"))
        return ev, u

    def describe(self, y):
        """A description (yaml text) as model values."""
        m = yaml.safe_load(y)
        dates = m.get("simulated_dates") or {}
        n = lambda x: "null" if x is None else str(x)
        ct = m.get("creation_time")
        if ct is not None:
            t = pd.Timestamp(ct)
            t = t.tz_convert("UTC").tz_localize(None) if t.tzinfo is not None else t
            now = pd.Timestamp.now(tz="UTC").tz_localize(None)
            ct = "NOW" if abs((now - t).total_seconds()) < 600 else UNT.get(t.isoformat(), t.isoformat())
        files = []
        for k, f in (m.get("files") or {}).items():
            loc = self.unurl.get(f["url"], f["url"])
            p = self.paths.get(loc)
            tok = "?" if p is None else self.content[hashlib.sha256(p.read_bytes()).hexdigest()]
            files.append([k, loc, tok if f.get("name") == (p.name if p else None) else "?name " + str(f.get("name"))])
        return dict(label=self.unlabel(m["label"], None), labeltime="null", tel=n(m.get("telescope")), sched=n(m.get("scheduler_version")),
                    first=n(dates.get("first")), last=n(dates.get("last")), ctime=n(ct), tags=list(m.get("tags") or []), files=files), m

    def exp(self, u, s):
        ev = dict(op="export", s=s, ok=True, got={})
        before = self.extent()
        y = None
        try:
            y = self.a.vs.sim_metadata_yaml(u)
            ev["got"], m = self.describe(y)
            if m.get("uuid") != str(u):
                ev["got"]["label"] = "?uuid " + str(m.get("uuid"))
        except Exception as x:
            ev["ok"] = False
            ev["msg"] = f"{type(x).__name__}: {x}"[:200]
        ev["added"] = sum(abs(a - b) for a, b in zip(self.extent(), before))
        self.ctx.count("export")
        return ev, y

    def text(self, d):
        m = {}
        if d["label"] != "null":
            m["label"] = self.label(d)
        for k, f in (("telescope", "tel"), ("scheduler_version", "sched")):
            if d[f] != "null":
                m[k] = d[f]
        if d["ctime"] != "null":
            t = T[d["ctime"]] + "+00:00"
            m["creation_time"] = t if self.ctx.rng.random() < 0.7 else datetime.datetime.fromisoformat(t)
        dates = {k: (d[k] if self.ctx.rng.random() < 0.5 else datetime.date.fromisoformat(d[k])) for k in ("first", "last") if d[k] != "null"}
        if dates or self.ctx.rng.random() < 0.3:
            m["simulated_dates"] = dates
        if d["tags"] or self.ctx.rng.random() < 0.5:
            m["tags"] = list(d["tags"])
        if d["files"] or self.ctx.rng.random() < 0.5:
            m["files"] = {t: {"url": self.url[loc], "name": self.paths[loc].name} for t, loc, _ in d["files"]}
        m["host"] = "somewhere"
        return yaml.dump(m)

    def original(self, d):
        """Record a simulation directly (not by import)."""
        vs = self.a.vs
        kw = {}
        if d["tel"] != "null":
            kw["telescope"] = d["tel"]
        if d["sched"] != "null":
            kw["scheduler_version"] = d["sched"]
        for k in ("first", "last"):
            if d[k] != "null":
                kw[f"{k}_day_obs"] = d[k]
        if d["ctime"] != "null":
            kw["creation_time"] = Time(T[d["ctime"]], scale="utc")
        obs = [f for f in d["files"] if f[0] == "observations"]
        u = vs.record_simulation_metadata(self.tables[obs[0][2]] if obs else self.tables["o1"], self.label(d), **kw)
        u = UUID(str(u))
        if d["tags"]:
            vs.tag(u, *d["tags"])
        for t, loc, _ in d["files"]:
            vs.register_file(u, t, hashlib.sha256(self.paths[loc].read_bytes()).digest(), self.url[loc])
        s = dict(label=d["label"], tel="simonyi" if d["tel"] == "null" else d["tel"], sched=d["sched"], first=d["first"],
                 last=d["last"], ctime="NOW" if d["ctime"] == "null" else d["ctime"], tags=d["tags"], files=d["files"],
                 obs=obs[0][2] if obs else "o1")
        return u, s


def check_a09(ctx):
    r = ctx.design("VsExportMC", invariants=["Inv"], workers=1)
    descs = r.printed
    ctx.rng.shuffle(descs)
    ctx.extra["spec_generated_descriptions"] = len(descs)
    x = Exchange(ctx)
    traces = []
    good = [d for d in descs if d["label"] != "null"]
    for n, d in enumerate(descs[: ctx.pick(120, 900)]):
        ev, u = x.imp(x.text(d), d)
        tr = [ev]
        if ev["ok"]:
            s = dict(ev["got"])
            e2, y = x.exp(u, s)
            tr.append(e2)
            if n % 2 == 0 and y is not None and e2["ok"]:
                e3, u3 = x.imp(y, dict(e2["got"], labeltime="null"))
                tr.append(e3)
                if e3["ok"]:
                    tr.append(x.exp(u3, dict(e2["got"], obs=e3["got"]["obs"]))[0])
        traces.append(tr)
    for n, d in enumerate(good[: ctx.pick(100, 800)]):
        u, s = x.original(d)
        e, y = x.exp(u, s)
        tr = [e]
        if y is not None and e["ok"]:
            dd = dict(e["got"])
            if d["labeltime"] != "null" and dd["ctime"] == "null":
                dd["labeltime"] = d["labeltime"]
            e3, u3 = x.imp(y, dd)
            tr.append(e3)
            if e3["ok"]:
                tr.append(x.exp(u3, dict(e["got"], obs=e3["got"]["obs"]))[0])
        traces.append(tr)
    ctx.oracle("VsExportTrace", traces, chunks=3)
