"""Visit tables and what is returned of them: property A11 (specification VsVisits)."""
import copy
import datetime
import gc
import json
import os
import shutil
import sqlite3
import warnings
from uuid import UUID

import numpy as np
import pandas as pd
from astropy.time import Time

from .archive import Archive, VISITS
from .core import MachineryError
from .pg import Postgres
from .vsrun import almanac

MJD0 = 59215  # 2021-01-01
EPOCH = datetime.date(2021, 1, 1)


def iso(d):
    return (EPOCH + datetime.timedelta(days=d)).isoformat()


def tok(v):
    if v is None or v is pd.NaT or (isinstance(v, float) and v != v):
        return "null"
    if isinstance(v, (bool, np.bool_)):
        return f"n{int(v)}"
    if isinstance(v, (int, np.integer)):
        return f"n{int(v)}"
    if isinstance(v, (float, np.floating)):
        v = float(v)
        return f"n{int(v)}" if abs(v) < 2**53 and v == int(v) else "f" + v.hex()
    if isinstance(v, bytes):
        return "b" + v.hex()
    return "s" + str(v)


def stackers():
    from rubin_sim.maf.stackers import BaseStacker

    if "VfTwice" in BaseStacker.registry:
        r = BaseStacker.registry
        return r["VfTwice"], r["VfChain"], r["VfPlace"]

    class VfTwice(BaseStacker):
        cols_added = ["twice"]

        def __init__(self):
            self.cols_req, self.units, self.cols_added_dtypes = ["night"], [""], [int]

        def _run(self, sim_data, cols_present=False):
            sim_data["twice"] = 2 * sim_data["night"]
            return sim_data

    class VfChain(BaseStacker):
        cols_added = ["chain"]

        def __init__(self):
            self.cols_req, self.units, self.cols_added_dtypes = ["twice"], [""], [int]

        def _run(self, sim_data, cols_present=False):
            sim_data["chain"] = sim_data["twice"] + 1
            return sim_data

    class VfPlace(BaseStacker):
        """The place of a visit among those the stacker is given."""

        cols_added = ["place"]

        def __init__(self):
            self.cols_req, self.units, self.cols_added_dtypes = ["night"], [""], [int]

        def _run(self, sim_data, cols_present=False):
            sim_data["place"] = np.arange(1, len(sim_data) + 1)
            return sim_data

    return VfTwice, VfChain, VfPlace


class Visits:
    def __init__(self, ctx):
        os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
        from rubin_sim.maf.stackers import DayObsISOStacker
        from rubin_sim.sim_archive import sim_archive, util, vseqarchive

        self.ctx, self.S, self.V, self.U = ctx, sim_archive, vseqarchive, util
        tw, ch, pl = stackers()
        self.cls = {"day_obs_iso8601": DayObsISOStacker, "twice": tw, "chain": ch, "place": pl}
        self.n = 0
        self.ar = None

    # ------------------------------------------------------------ data
    def frame(self, tab, base=0):
        rng = self.ctx.rng
        k = self.n
        df = pd.DataFrame(dict(
            observationId=np.array([r["id"] + 100 for r in tab], dtype=int),
            observationStartMJD=np.array([MJD0 + 0.5 + base + r["t"] / 1000 + (0 if r["t"] % 500 in (0, 499) else 0.0003) for r in tab],
                                         dtype=float),
            night=np.array([r["night"] for r in tab], dtype=int), band=[r["band"] for r in tab],
            altitude=np.array([rng.choice([10.25, 1 / 3, 89.9999999999, 45.0]) for _ in tab], dtype=float),
            big=np.array([2**60 + 7 * r["id"] + k for r in tab], dtype="int64"),
            target_name=[rng.choice(["", "a b", "é∞", "x,'y"]) for _ in tab]))
        for r, (_, row) in zip(tab, df.iterrows()):
            r["cells"] = [tok(v) for v in row]
        # iterrows upcasts nothing here (object rows), integers stay exact
        return df

    def store(self, df, name="obs", more=()):
        d = self.ctx.subdir("tab")
        db = d / f"{name}.db"
        con = sqlite3.connect(db)
        df.to_sql("observations", con, index=False)
        for n, x in more:
            x.to_sql(n, con, index=False)
        con.commit()
        con.close()
        return d, db

    def dump(self, path):
        con = sqlite3.connect(path)
        r = {}
        for (n,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").fetchall():
            c = con.execute(f'SELECT * FROM "{n}"')
            r[n] = ([x[0] for x in c.description], [[tok(v) for v in row] for row in c.fetchall()])
        con.close()
        return r

    # ------------------------------------------------------------ events
    def ev(self, op, fn, **k):
        e = dict(op=op, **k)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                e.update(fn())
            e["ok"] = True
        except MachineryError:
            raise
        except Exception as x:
            e["ok"] = False
            e["msg"] = f"{type(x).__name__}: {x}"[:200]
        self.ctx.count(op)
        return e

    def convert(self, db, defaults):
        before = self.dump(db)
        raw = db.read_bytes()
        d = db.parent

        def f():
            if defaults:
                h5 = self.U.opsimdb_to_hdf5(db if self.n % 2 else str(db))
                h5n = d / "other.h5"
                os.rename(h5, h5n)
                back = self.U.hdf5_to_opsimdb(h5n)
            else:
                if self.n % 2:  # a file of an earlier conversion is there
                    pd.DataFrame(dict(a=[1])).to_hdf(str(d / "x.h5"), key="old_table")
                    pd.DataFrame(dict(observationId=[1])).to_hdf(str(d / "x.h5"), key="observations")
                h5 = self.U.opsimdb_to_hdf5(str(db), d / "x.h5")
                back = self.U.hdf5_to_opsimdb(h5, str(d / "back.sqlite"))
            after = self.dump(back)
            return dict(names=sorted(before), back=sorted(after), cols_before=[v[0] for _, v in sorted(before.items())],
                        cols_after=[v[0] for _, v in sorted(after.items())],
                        rows_before=[v[1] for _, v in sorted(before.items())], rows_after=[v[1] for _, v in sorted(after.items())])

        e = self.ev("convert", f)
        e["untouched"] = db.read_bytes() == raw
        return e

    def ask(self, c):
        t = f"'{c['txt']}'"
        eq = {"==": "=="}.get(c["op"], c["op"])
        return {"none": "", "night": f"night {eq} {c['val']}", "band": f"band {eq} {t}",
                "both": f"night >= {c['val']} and band == {t}"}[c["col"]]

    def result(self, df, base, stack, day0):
        cols = [str(c) for c in df.columns]
        rows = [[tok(v) for v in r] for r in df[base].itertuples(index=False, name=None)]
        extra = []
        if len(df):
            for _, r in df.iterrows():
                extra.append([(datetime.date.fromisoformat(r[k]) - EPOCH).days - day0 if k == "day_obs_iso8601" else int(r[k]) for k in stack])
        else:
            cols = base + stack  # derived columns of no rows are not constrained
        return dict(rows=rows, extra=extra, columns=cols)

    def snap(self, *args):
        r = []
        for a in args:
            if isinstance(a, (list, tuple)):
                r.append([type(x).__name__ for x in a])
            elif isinstance(a, dict):
                r.append([f"{k}={[type(x).__name__ for x in v] if isinstance(v, (list, tuple)) else v}" for k, v in sorted(a.items())])
            else:
                r.append([str(a)])
        return r

    def visits(self, h5, cond, stack, base):
        st = [self.cls[k]() for k in stack]
        seq = tuple(st) if self.n % 2 else st
        before = self.snap(st)
        kw = {}
        if cond["col"] != "none":
            kw["query"] = self.ask(cond)
        if stack:
            kw["stackers"] = seq
        url = f"file://{h5}"
        e = self.ev("visits", lambda: self.result(self.V.get_visits(url, **kw), base, stack, 0), cond=cond, stack=stack, base=base,
                    before=before)
        e["after"] = self.snap(st)
        return e

    def fetch(self, src, path, q, cond, stack, base, day0, how, dayform):
        from lsst.resources import ResourcePath
        from rubin_sim.sim_archive import prototype as P

        if src == "proto":
            how = "inside"
        st = [self.cls[k]() for k in stack]
        gk = None
        if src in ("db", "proto"):
            gk = {}
            if cond["col"] != "none":
                gk["sqlconstraint"] = self.ask(cond).replace("==", "=")
            if how == "inside":
                gk["stackers"] = st
        which = None
        if src == "latest":
            which = dict(tags=tuple(q["tags"]), telescope=q["tel"], max_simulation_age=20, get_prenight_index_kwargs=dict(self.dbkw))
        else:
            which = str(path) if self.n % 2 else ResourcePath(str(path))
        kw = {}
        if how == "inside" and src in ("db", "proto"):
            pass
        elif stack or how == "list":
            kw["stackers"] = st
        if gk is not None and (gk or how == "emptydict"):
            kw["get_sim_data_kwargs"] = gk
        before = self.snap(st, gk or {}, which)
        a, b = iso(q["first"] + day0), iso(q["last"] + day0)
        args = (a,) if q["first"] == q["last"] and dayform else (a, b)

        def f():
            r = (P if src == "proto" else self.S).fetch_sim_for_nights(*args, which_sim=which, **kw)
            return self.result(r, base, stack, day0)

        e = self.ev("fetch", f, src=src, q=q, cond=cond, stack=stack, base=base, before=before)
        e["after"] = self.snap(st, gk or {}, which)
        return e

    def obsloc(self, q, day0, cols, base):
        """The visits of the next nights as published; cols is the choice of columns."""
        nights = q["last"] - q["first"] + 1
        arg = iso(q["first"] + day0)

        def f():
            kw = dict(nights=nights) if nights != 2 or self.n % 2 else {}
            r = self.S.fetch_obsloctap_visits(arg, telescope=q["tel"], columns=tuple(cols) if self.n % 3 else list(cols), max_simulation_age=20, **kw)
            return dict(rows=[[tok(v) for v in x] for x in r.itertuples(index=False, name=None)], columns=[str(c) for c in r.columns])

        return self.ev("obsloc", f, src="latest", q=q, cond=NOCOND, cols=cols, pick=[base.index(c) + 1 for c in cols])

    def stats(self, q, day0, intform):
        d = iso(q["first"] + day0)
        arg = int(d.replace("-", "")) if intform else d

        def f():
            r = self.S.fetch_sim_stats_for_night(arg, tags=tuple(q["tags"]), telescope=q["tel"], max_simulation_age=20, **self.dbkw)
            return dict(nominal=int(r["nominal_visits"]))

        return self.ev("stats", f, src="latest", q=q)

    # ------------------------------------------------------------ simulations in a database
    def database(self):
        pg = Postgres(self.ctx)
        self.ar = ar = Archive(self.ctx, pg)
        self.dbkw = dict(schema=ar.schema, host=ar.kw["host"], user="root", database=ar.dbname)
        os.environ["VSARCHIVE_PGPORT"] = os.environ["PGPORT"] = str(ar.kw["port"])
        # what is used when nothing is said
        os.environ.update(VSARCHIVE_PGHOST=str(ar.kw["host"]), VSARCHIVE_PGUSER="root", VSARCHIVE_PGDATABASE=ar.dbname)
        from rubin_sim.sim_archive import vseqmetadata

        vseqmetadata.VSARCHIVE_PGSCHEMA = ar.schema
        os.environ["RUBIN_SIM_DATA_DIR"] = str(self.ctx.scratch / "data")
        almanac(self.ctx.scratch / "data", MJD0 + (datetime.datetime.now(datetime.timezone.utc).date() - EPOCH).days - 10)

    def catalogue(self, sims, day0):
        ar, vs = self.ar, self.ar.vs
        ar.reset()
        gc.collect()
        now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        order = list(sims)
        self.ctx.rng.shuffle(order)
        for s in order:
            self.n += 1
            df = self.frame(s["tab"], day0)
            if s.pop("nans"):
                df.loc[df.index[0], "altitude"] = np.nan
                s["tab"][0]["cells"][4] = "null"
            d = self.ctx.subdir("sim")
            url = f"file://{d}/visits.h5"
            df.to_hdf(str(d / "visits.h5"), key="observations")
            u = vs.record_simulation_metadata(VISITS["v1"], s["name"], telescope=s["tel"], url=url,
                                              first_day_obs=iso(s["first"] + day0), last_day_obs=iso(s["last"] + day0),
                                              creation_time=Time(now - datetime.timedelta(hours=30 - s["made"]), scale="utc"))
            u = u if isinstance(u, UUID) else UUID(str(u))
            vs.tag(u, "prenight", *s["tags"])
            if s.pop("kept"):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    vs.insert_nightly_stats(u, self.V.compute_nightly_stats(df, columns=("big", "night")))
        return dict(op="sims", sims=sims)


def random_tab(rng, n, days=3):
    ts = sorted(rng.choice([1000 * d + x for d in range(days) for x in (0, 1, 250, 499, 500, 999)]) for _ in range(n))
    if rng.random() < 0.3:
        rng.shuffle(ts)
    return [dict(id=j + 1, t=t, night=rng.randrange(3), band=rng.choice("rgu"), cells=[]) for j, t in enumerate(ts)]


def random_cond(rng):
    return dict(rng.choice([dict(col="none", op="", txt=""), dict(col="night", op="<", txt=""), dict(col="night", op=">=", txt=""),
                            dict(col="night", op="==", txt=""), dict(col="band", op="==", txt="r"), dict(col="band", op="!=", txt="g"),
                            dict(col="both", op="", txt="r")]), val=rng.randrange(3))


STACKS = [[], [], ["day_obs_iso8601"], ["twice"], ["twice", "chain"], ["twice", "day_obs_iso8601", "chain"]]
NOCOND = dict(col="none", op="", val=0, txt="")


def more_tables(rng):
    r = []
    n = rng.randrange(0, 4)
    if rng.random() < 0.7:
        r.append(("info", pd.DataFrame(dict(Parameter=[f"p{j}" for j in range(n + 1)],
                                            Value=[rng.choice(["1", "", None, "text 'x'"]) for _ in range(n + 1)]))))
    if rng.random() < 0.5:
        r.append(("obs_rewards", pd.DataFrame({"index": range(n + 1), "Rewards_AM": [rng.choice([1e-300, np.nan, 2.5]) for _ in range(n + 1)],
                                               "survey name": [rng.choice(["a", None]) for _ in range(n + 1)]})))
    if rng.random() < 0.4:
        r.append(("events", pd.DataFrame(dict(mjd=[59000.5] * 3, name=["same"] * 3))))
    if rng.random() < 0.4:
        r.append(("rewards", pd.DataFrame(dict(queue_fill_mjd_ns=np.array([2**62 + j for j in range(n)], dtype="int64"),
                                               flag=np.array([bool(j % 2) for j in range(n)], dtype=bool)))))
    return r


def check_a11(ctx):
    warnings.simplefilter("ignore")
    vv = Visits(ctx)
    rng = ctx.rng
    r = ctx.design("VsVisitsMC", constants=f" MaxVisits = {ctx.pick(3, 4)}", invariants=["Inv"], workers=1)
    tabs = [t for t in r.printed if t]
    rng.shuffle(tabs)
    tabs = tabs[: ctx.pick(60, 600)] + [random_tab(rng, rng.choice([1, 2, 5, 9, 40])) for _ in range(ctx.pick(50, 500))]
    ctx.extra["spec_generated_tables"] = len(r.printed)
    traces = []
    for tab in tabs:
        vv.n += 1
        df = vv.frame(tab)
        base = list(df.columns)
        d, db = vv.store(df, more=more_tables(rng))
        tr = [dict(op="load", tab=tab)]
        tr.append(vv.convert(db, rng.random() < 0.4))
        h5 = d / "v.h5"
        vv.U.opsimdb_to_hdf5(str(db), str(h5))
        for _ in range(3):
            vv.n += 1
            tr.append(vv.visits(h5, random_cond(rng), rng.choice(STACKS + [["place"], ["place", "twice"]]), base))
        for _ in range(4):
            vv.n += 1
            a = rng.randrange(-1, 3)
            q = dict(first=a, last=a + rng.choice([0, 0, 1, 2]), tel="", tags=[])
            src = rng.choice(["db", "h5", "db", "h5", "proto"])
            cond = random_cond(rng) if src != "h5" and rng.random() < 0.6 else NOCOND
            if src == "db" and vv.n % 3 == 0 and not (d / "obs.sqlite3").exists():
                shutil.copy(db, d / "obs.sqlite3")
            e = vv.fetch(src, h5 if src == "h5" else d / "obs.sqlite3" if src == "db" and vv.n % 3 == 0 else db, q, cond, rng.choice(STACKS), base, 0,
                         rng.choice(["inside", "list", "plain", "emptydict"]), rng.random() < 0.5)
            if not e["ok"] and e["msg"].startswith("UserWarning: No data found"):
                continue  # get_sim_data documents that it refuses to return nothing
            tr.append(e)
        traces.append(tr)
    vv.database()
    today = (datetime.datetime.now(datetime.timezone.utc).date() - EPOCH).days
    for _ in range(ctx.pick(30, 300)):
        sims = []
        for j, made in enumerate(rng.sample(range(1, 25), rng.choice([1, 2, 4]))):
            first = rng.randrange(0, 2)
            sims.append(dict(name=f"s{j}", tel=rng.choice(["simonyi", "simonyi", "auxtel"]), tags=rng.choice([["ideal", "nominal"], ["nominal"], []]),
                             made=made, first=first, last=first + rng.randrange(0, 3), tab=random_tab(rng, rng.choice([1, 3, 8])),
                             nans=rng.random() < 0.3, kept=rng.random() < 0.3))
        day0 = today + rng.randrange(-1, 2)
        tr = [vv.catalogue(sims, day0)]
        base = ["observationId", "observationStartMJD", "night", "band", "altitude", "big", "target_name"]
        for _ in range(4):
            vv.n += 1
            a = rng.randrange(0, 3)
            q = dict(first=a, last=a + rng.choice([0, 0, 1]), tel=rng.choice(["simonyi", "auxtel"]), tags=rng.choice([["ideal", "nominal"], ["nominal"], []]))
            if rng.random() < 0.25:
                q["tags"] = ["ideal", "nominal"]
                tr.append(vv.obsloc(q, day0, rng.choice([["observationStartMJD", "band"], ["night", "target_name", "observationId"], base]), base))
            elif rng.random() < 0.5:
                tr.append(vv.fetch("latest", None, q, NOCOND, rng.choice(STACKS), base, day0, rng.choice(["list", "plain"]), rng.random() < 0.5))
            else:
                q["last"] = q["first"]
                tr.append(vv.stats(q, day0, rng.random() < 0.5))
        traces.append(tr)
    ctx.oracle("VsVisitsTrace", traces, chunks=4)
