"""Questions asked of the archive: properties A06 and A08 (specification VsQuery)."""
import datetime
import hashlib
import json
import os
from uuid import UUID

import numpy as np
import pandas as pd
from astropy.time import Time

from .archive import Archive, VISITS, isnull
from .core import MachineryError
from .pg import Postgres

EPOCH = datetime.date(2021, 1, 1)
EPOCH_DT = datetime.datetime(2021, 1, 1, tzinfo=datetime.timezone.utc)
TAGPOOL = ["prenight", "ideal", "nominal", "o'dd %s", "prenight2"]


def minutes(ts):
    ts = pd.Timestamp(ts)
    ts = ts.tz_localize("UTC") if ts.tzinfo is None else ts.tz_convert("UTC")
    return int(round((ts - pd.Timestamp(EPOCH_DT)).total_seconds() / 60.0))


def now_min():
    return minutes(pd.Timestamp.now(tz="UTC"))


def daynum(d):
    if isnull(d):
        return -1
    if isinstance(d, str):
        d = datetime.date.fromisoformat(d)
    if isinstance(d, datetime.datetime):
        d = d.date()
    return (d - EPOCH).days


def todate(n):
    return EPOCH + datetime.timedelta(days=n)


def fmt_day(n, fmt):
    d = todate(n)
    return {"int": int(d.strftime("%Y%m%d")), "date": d, "iso": d.isoformat()}[fmt]


class Catalogue:
    """Fills the real archive with a catalogue of simulations and asks it questions."""

    def __init__(self, ctx, ar):
        self.ctx, self.ar = ctx, ar

    def load(self, sims, noise=0):
        ar, vs = self.ar, self.ar.vs
        ar.reset()
        self.ids, self.uuid = {}, {}
        rng = self.ctx.rng
        order = list(range(len(sims)))
        rng.shuffle(order)
        for k in order:
            s = sims[k]
            kw = dict(telescope=s["tel"], url=f"file:///v/{s['id']}.h5",
                      creation_time=Time(EPOCH_DT.replace(tzinfo=None) + datetime.timedelta(minutes=s["t"]), scale="utc"))
            if s["first"] >= 0:
                kw["first_day_obs"] = todate(s["first"])
            if s["last"] >= 0:
                kw["last_day_obs"] = todate(s["last"])
            if "parent" in s:
                kw["parent_visitseq_uuid"] = UUID(int=77)
                kw["parent_last_day_obs"] = todate(s["last"] if s["last"] >= 0 else 10)
                kw["scheduler_version"] = "3.1"
                kw["conda_env_sha256"] = hashlib.sha256(b"e").digest()
                kw["sim_runner_kwargs"] = {"a": [1, {"b": None}]}
            u = vs.record_simulation_metadata(VISITS["v1"], f"label {s['id']}", **kw)
            u = u if isinstance(u, UUID) else UUID(str(u))
            self.ids[u] = s["id"]
            self.uuid[s["id"]] = u
            if s["tags"]:
                vs.tag(u, *s["tags"])
            for c in s["comments"]:
                vs.comment(u, c)
            for t, url in s["files"]:
                vs.register_file(u, t, hashlib.sha256(url.encode()).digest(), url)
            if s["stats"]:
                rows = pd.DataFrame([dict(day_obs=todate(d), value_name=v, accumulated=False, count=n, **ar.statvals(n))
                                     for d, v, n in s["stats"]])
                vs.insert_nightly_stats(u, rows)
        for k in range(noise):  # sequences that are not simulations must never show up
            u = vs.record_completed_metadata(VISITS["v1"], "done", telescope="simonyi", first_day_obs=todate(1000),
                                             last_day_obs=todate(4000))
            vs.tag(u, "prenight", "ideal", "nominal")
        return dict(op="load", sims=sims)

    def canon_row(self, uid, r, stats=None):
        com = r["comments"]
        if isinstance(com, str):
            com = json.loads(com)
        d = dict(id=self.ids.get(UUID(str(uid)), "?" + str(uid)), simday=daynum(r["sim_creation_day_obs"]),
                 daily=int(r["daily_id"]), tags=list(r["tags"]),
                 comments=[v for _, v in sorted(com.items(), key=lambda kv: pd.Timestamp(kv[0]))],
                 files=[[a, b] for a, b in r["files"].items()], first=daynum(r["first_day_obs"]),
                 last=daynum(r["last_day_obs"]), tel=r["telescope"], t=minutes(r["creation_time"]))
        if len(set(d["tags"])) != len(d["tags"]):
            d["tags"].append("?duplicate tags")
        if r["visitseq_label"] != f"label {d['id']}" or r["visitseq_url"] != f"file:///v/{d['id']}.h5":
            d["tags"].append("?label or url of another")
        if stats is not None:
            st = r["stats"]
            d["stats"] = []
            if not isnull(st):
                for name, v in st.items():
                    n = int(v["count"])
                    want = self.ar.statvals(n)
                    ok = all(abs(v[f] - want[f]) < 1e-9 for f in want) and not v["accumulated"]
                    d["stats"].append([name, n if ok else -n])
        return d

    def canon(self, df, index=True, stats=None):
        if len(df) == 0:
            return []
        if not index:
            df = df.set_index("visitseq_uuid")
        return [self.canon_row(u, r, stats) for u, r in df.iterrows()]

    def event(self, op, fn, **k):
        ev = dict(op=op, **k)
        try:
            r = fn()
            ev["ok"], ev["err"] = True, ""
            ev.update(r)
        except MachineryError:
            raise
        except Exception as x:
            ev["ok"] = False
            ev["err"] = "ValueError" if isinstance(x, ValueError) else type(x).__name__
            ev["msg"] = str(x)[:200]
            for f, v in (("rows", []), ("id", "null" if "id" not in k else k["id"]), ("got", -1), ("row", {})):
                ev.setdefault(f, v)
        self.ctx.count(op + ("" if ev["ok"] else ":refused"))
        return ev

    # ------------------------------------------------------------ questions (A06)
    def nights(self, first, last, tel, tags, age, fmt, defaults=()):
        kw = {}
        if "first" in defaults:
            first = last = daynum(None) if False else (now_min() - 720) // 1440
        else:
            kw["first_day_obs"] = fmt_day(first, fmt)
            if "last" in defaults:
                last = first
            else:
                kw["last_day_obs"] = fmt_day(last, fmt)
        q = dict(first=first, last=last, tel=tel, tags=list(tags), now=now_min(), age=age)
        if "tel" not in defaults:
            kw["telescope"] = tel
        else:
            q["tel"] = "simonyi"
        if "tags" in defaults:
            q["tags"] = ["prenight", "ideal", "nominal"]
        else:
            kw["tags"] = tuple(tags)
        if "age" in defaults:
            q["age"] = 2
        else:
            kw["max_simulation_age"] = age
        return self.event("nights", lambda: dict(rows=self.canon(self.ar.vs.sims_on_nights(**kw), False)), q=q, fmt=fmt)

    def withstats(self, day, tel, tags, age, fmt):
        q = dict(first=day, last=day, tel=tel, tags=list(tags), now=now_min(), age=age)
        return self.event("withstats", lambda: dict(rows=self.canon(self.ar.vs.sims_on_night_with_stats(
            fmt_day(day, fmt), tags=tuple(tags), telescope=tel, max_simulation_age=age), False, True)), q=q, fmt=fmt)

    def sim_uuid(self, day, n, fmt):
        arg = fmt_day(day, fmt)
        nn = str(n) if fmt == "iso" else n
        return self.event("uuid", lambda: dict(id=self.ids.get(UUID(str(self.ar.vs.get_sim_uuid(arg, nn))), "?")),
                          day=day, n=n, within="", night=-1, fmt=fmt)


def random_catalogue(rng, n, now):
    today = (now - 720) // 1440
    ages = [40, 200, 700, 1300, 1500, 2700, 3000, 4200, 4400, 20000, 1440 * 200, 1440 * 360]
    sims, used = [], set()
    for k in range(n):
        t = now - rng.choice(ages) - rng.choice([0, 7, 60, 61])
        while t in used:
            t -= 1
        if any(abs((now - t) - 1440 * a) < 25 for a in range(0, 400)):
            t -= 50
        used.add(t)
        a = today + rng.randrange(-2, 3)
        first, last = (a, a + rng.randrange(0, 3)) if rng.random() < 0.9 else rng.choice([(-1, a), (a, -1), (-1, -1)])
        s = dict(id=f"u{k + 1}", tel=rng.choice(["simonyi", "simonyi", "auxtel"]), first=first, last=last, t=t,
                 tags=[x for x in TAGPOOL if rng.random() < 0.6],
                 comments=[f"c{j}'s %s" for j in range(rng.choice([0, 0, 1, 2]))],
                 files=[[f"type{j}", f"file:///f/{k}/{j}"] for j in range(rng.choice([0, 0, 1, 3]))],
                 stats=[[today + d, v, rng.randrange(1, 500)] for d in (-1, 0, 1) for v in ("alt", "air'mass")
                        if rng.random() < 0.4])
        if rng.random() < 0.4:
            s["parent"] = 1
        sims.append(s)
    return sims, today


def spec_catalogues(ctx, limit):
    r = ctx.design("VsQueryMC", constants=f" MaxSims = {ctx.pick(2, 3)}", invariants=["Inv"], workers=1)
    cats = [c for c in r.printed if c]
    ctx.rng.shuffle(cats)
    now = now_min()
    today = (now - 720) // 1440
    out = []
    for c in cats[:limit]:
        c = json.loads(json.dumps(c))
        for s in c:  # place the specification's universe at the present
            s["t"] += now - 3000000
            s["first"] = s["first"] + today - 2083 if s["first"] >= 0 else -1
            s["last"] = s["last"] + today - 2083 if s["last"] >= 0 else -1
            s["comments"] = []
            s["stats"] = [[d + today - 2083, v, n] for d, v, n in s["stats"]]
        out.append((c, today))
    ctx.extra["spec_generated_catalogues"] = len(out)
    return out


def check_a06(ctx):
    from rubin_sim.sim_archive import util

    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    cat = Catalogue(ctx, ar)
    rng = ctx.rng
    cats = spec_catalogues(ctx, ctx.pick(60, 500))
    for _ in range(ctx.pick(25, 250)):
        cats.append(random_catalogue(rng, rng.choice([1, 3, 5, 8]), now_min()))
    traces = []
    for sims, today in cats:
        tr = [cat.load(sims, noise=rng.choice([0, 1]))]
        small = len(sims) <= 3
        for _ in range(12 if small else 30):
            f = today + rng.randrange(-2, 3)
            l = f + rng.randrange(0, 3)
            tags = rng.choice([(), ("prenight",), ("ideal", "nominal"), ("nominal", "prenight"), ("o'dd %s",), ("prenight2",)])
            tel = rng.choice(["simonyi", "auxtel"])
            age = rng.choice([0, 1, 2, 3, 14, 365])
            fmt = rng.choice(["int", "date", "iso"])
            k = rng.random()
            if k < 0.4:
                tr.append(cat.nights(f, l, tel, tags, age, fmt, [x for x in ("first", "last", "tel", "tags", "age") if rng.random() < 0.15]))
            elif k < 0.7:
                tr.append(cat.withstats(f, tel, tags, age, fmt))
            else:
                s = rng.choice(sims)
                tr.append(cat.sim_uuid((s["t"] - 720) // 1440 + rng.choice([0, 0, 0, 1]), rng.choice([1, 1, 2, 3, len(sims)]), fmt))
        traces.append(tr)
    tr = [dict(op="load", sims=[])]
    for _ in range(ctx.pick(300, 3000)):
        fmt = rng.choice(["int", "date", "iso", "datetime", "isotime", "instant", "instant1"])
        t = rng.choice([rng.randrange(0, 4000000), 1440 * rng.randrange(0, 2800) + rng.choice([719, 720, 721, 0, 1439])])
        day = t // 1440
        at = EPOCH_DT.replace(tzinfo=None) + datetime.timedelta(minutes=t)
        arg = (fmt_day(day, fmt) if fmt in ("int", "date", "iso") else at if fmt == "datetime" else at.isoformat()
               if fmt == "isotime" else Time(at, scale="utc") if fmt == "instant" else Time([at], scale="utc"))
        tr.append(cat.event("day", lambda: dict(got=daynum(util.dayobs_to_date(arg))), fmt=fmt.rstrip("1"), t=t, day=day))
    traces.append(tr)
    ctx.oracle("VsQueryTrace", traces, chunks=4)


# ---------------------------------------------------------------- A08: pre-night lists
class Prenights(Catalogue):
    def __init__(self, ctx, ar):
        super().__init__(ctx, ar)
        self.kw = dict(schema=ar.schema, host=ar.kw["host"], user="root", database=ar.dbname)
        os.environ["VSARCHIVE_PGPORT"] = os.environ["PGPORT"] = str(ar.kw["port"])
        self.nobase = dict(host="/nonexistent", user="root", database="x", schema=ar.schema)
        self.lists = {}

    def fresh(self):
        import gc

        self.index = self.ctx.subdir("index")
        self.lists = {}
        self.written = set()
        gc.collect()

    def make(self, day, tel, fmt):
        from click.testing import CliRunner
        from rubin_sim.sim_archive.vseqarchive import vseqarchive

        # the command line takes YYYY-MM-DD or YYYYMMDD
        r = CliRunner().invoke(vseqarchive, ["--database", self.ar.dbname, "--host", str(self.ar.kw["host"]), "--user", "root",
                                             "--schema", self.ar.schema, "make-prenight-index", str(fmt_day(day, fmt)), tel,
                                             "--destination", f"file://{self.index}/"])
        self.written.add((day, tel))
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        if r.exit_code != 0:
            raise RuntimeError("make-prenight-index failed: " + r.output[-300:])

    def query(self, day, tel, src, fmt):
        """The list itself (get_prenight_index), from the database or the file index."""
        from rubin_sim.sim_archive.prenightindex import get_prenight_index

        kw = self.kw if src == "db" else dict(self.nobase, prenight_index_path=f"file://{self.index}/")
        return get_prenight_index(fmt_day(day, fmt), tel, **kw)

    def list_event(self, day, tel, src, fmt):
        q = dict(first=day, last=day, tel=tel, tags=["prenight"], now=now_min(), age=365)

        def f():
            if src == "index" and (day, tel) not in self.written:
                self.make(day, tel, "iso" if fmt == "iso" else "int")
            df = self.query(day, tel, src, fmt)
            rows = self.canon(df, True, True if src == "index" else None)
            self.lists[(day, tel, src)] = (df, [r["id"] for r in rows])
            return dict(rows=rows)

        return self.event("withstats" if src == "index" else "nights", f, q=q, fmt=fmt, src=src)

    def lookup_kw(self, src):
        return self.kw if src == "db" else dict(self.nobase, prenight_index_path=f"file://{self.index}/")

    def uuid_event(self, night, day, n, src, fmt):
        from rubin_sim.sim_archive.prenightindex import get_sim_uuid

        arg = fmt_day(day, "date")
        return self.event("uuid", lambda: dict(id=self.ids.get(UUID(str(get_sim_uuid(
            arg, str(n) if fmt == "iso" else n, day_obs=fmt_day(night, fmt), **self.lookup_kw(src)))), "?")),
            day=day, n=n, within=src, night=night, fmt=fmt)

    def info_event(self, sid, night, src, fmt):
        from rubin_sim.sim_archive.prenightindex import get_sim_metadata

        u = self.uuid.get(sid, UUID(int=5))
        a = str(u) if self.ctx.rng.random() < 0.5 else u

        def f():
            if night == -1:
                r = get_sim_metadata(a, vsmd=self.ar.vs)
            else:
                r = get_sim_metadata(a, fmt_day(night, fmt), **self.lookup_kw(src))
            return dict(row=self.canon_row(r["visitseq_uuid"], r))

        return self.event("info", f, id=sid, night=night, src=src, fmt=fmt)

    def latest_event(self, key, tags, age):
        from rubin_sim.sim_archive.prenightindex import select_latest_prenight_sim

        df, ids = self.lists[key]
        q = dict(first=key[0], last=key[0], tel=key[1], tags=list(tags), now=now_min(), age=age)

        def f():
            before = df.copy()
            r = select_latest_prenight_sim(df, tags=tuple(tags), max_simulation_age=age)
            if not before.equals(df):
                return dict(id="list modified")
            return dict(id="null" if r is None else self.ids.get(UUID(str(r["visitseq_uuid"])), "?"))

        return self.event("latest", f, q=q, list=ids, src=key[2])


def check_a08(ctx):
    os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
    pg = Postgres(ctx)
    ar = Archive(ctx, pg)
    pn = Prenights(ctx, ar)
    rng = ctx.rng
    cats = spec_catalogues(ctx, ctx.pick(25, 250))
    for _ in range(ctx.pick(25, 250)):
        cats.append(random_catalogue(rng, rng.choice([0, 1, 3, 5, 8]), now_min()))
    traces = []
    for sims, today in cats:
        # ages between max and max + 1 days are a matter of rounding in select_latest_prenight_sim; keep out of it
        tr = [pn.load(sims, noise=1)]
        pn.fresh()
        days = [today + d for d in rng.sample([-1, 0, 1], 2)]
        both = rng.random() < 0.5
        for d in days:
            for tel in ("simonyi", "auxtel"):
                for src in ("db", "index"):
                    if src == "index" and tel == "auxtel" and not both:
                        continue  # an index that was never written for this telescope
                    tr.append(pn.list_event(d, tel, src, rng.choice(["int", "date", "iso"])))
        for _ in range(5):
            d, src = rng.choice(days), rng.choice(["db", "index"])
            s = rng.choice(sims) if sims else dict(id="u9", t=1440 * 900, tel="simonyi")
            if src == "index" and s["tel"] == "auxtel" and not both:
                src = "db"
            fmt = rng.choice(["int", "date", "iso"])
            if rng.random() < 0.5:
                n = 1 + sum(1 for u in sims if (u["t"] - 720) // 1440 == (s["t"] - 720) // 1440 and u["t"] < s["t"])
                n = rng.choice([n, n, 1, 99])
                day = (s["t"] - 720) // 1440
                hit = [u for u in sims if (u["t"] - 720) // 1440 == day and
                       n == 1 + sum(1 for w in sims if (w["t"] - 720) // 1440 == day and w["t"] < u["t"])]
                if src == "index" and hit and hit[0]["tel"] == "auxtel" and not both:
                    src = "db"
                tr.append(pn.uuid_event(d, day, n, src, fmt))
            else:
                tr.append(pn.info_event(s["id"], rng.choice([d, d, -1]), src, fmt))
        for key in list(pn.lists):
            for _ in range(2):
                age = rng.choice([1, 2, 3, 14, 400])
                if any(1440 * age < pn_age(s) < 1440 * (age + 1) for s in sims):
                    continue
                tr.append(pn.latest_event(key, rng.choice([("ideal", "nominal"), (), ("ideal",), ("o'dd %s", "nominal")]), age))
        traces.append(tr)
    ctx.oracle("VsQueryTrace", traces, chunks=4)


def pn_age(s):
    return now_min() - s["t"]
