"""Tracking of analysis runs and their summaries: properties B04 (TrackDb), B05 and B06 (RunSummaries)."""
import contextlib
import hashlib
import io
import json
import logging
import os
import shutil
import sqlite3
import sys
import warnings

import numpy as np
import pandas as pd

from .archive import maximal
from .vsvisits import tok

FIELDS = ("run_group", "run_name", "run_comment", "run_version", "run_date", "maf_comment", "maf_version", "maf_date", "db_file")


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


# ------------------------------------------------------------------ B04
class Tracking:
    def __init__(self, ctx):
        from rubin_sim.maf.db import ResultsDb, TrackingDb, add_run_to_database

        self.ctx, self.rng, self.T, self.R, self.cli_fn = ctx, ctx.rng, TrackingDb, ResultsDb, add_run_to_database
        d = ctx.subdir("tmpl")
        with quiet():
            ResultsDb(out_dir=str(d))
        self.template = d / "resultsDb_sqlite.db"
        self.home = os.getcwd()

    def reset(self):
        self.root = self.ctx.subdir("trk")
        (self.root / "work").mkdir()
        (self.root / "runs").mkdir()
        self.where = self.rng.choice(["abs", "rel", "sub", "default"])
        self.dbdir = self.root / "work" if self.where in ("rel", "default") else self.root / "dbs" / "x"
        self.dbdir.mkdir(parents=True, exist_ok=True)
        self.file = self.dbdir / ("trackingDb_sqlite.db" if self.where == "default" else "track.db")
        self.nm = {}
        self.t = None
        self.open()
        return dict(op="reset", ok=True, obs=self.observe())

    def open(self):
        os.chdir(self.root / "work")
        if self.t is not None:
            self.t.close()
        with quiet():
            if self.where == "default":
                self.arg = None
            elif self.where == "abs" or self.rng.random() < 0.4:
                self.arg = str(self.file)
            else:
                self.arg = os.path.relpath(self.file)
            self.t = self.T(database=self.arg) if self.arg or self.rng.random() < 0.5 else self.T()

    def observe(self):
        con = sqlite3.connect(f"file:{self.file}?mode=ro", uri=True)
        c = con.execute("SELECT * FROM runs ORDER BY maf_run_id")
        cols = [x[0] for x in c.description]
        rows = [dict(zip(cols, r)) for r in c.fetchall()]
        con.close()
        return [dict(id=r["maf_run_id"], dir=r["maf_dir"], info={f: str(r[f]) for f in FIELDS}) for r in rows]

    def path(self, d):
        """The directory, in one of the ways to write it."""
        full = self.root / "runs" / d
        p = self.rng.choice([str(full), os.path.relpath(full), str(full) + "/", f"../runs/./{d}", f"{self.root}/runs/../runs/{d}"])
        return p, os.path.relpath(full, start=self.dbdir)

    def info(self):
        return {f: self.rng.choice([None, f"{f[:7]}1", "it's", ""]) for f in FIELDS if self.rng.random() < 0.7}

    def shown(self, info):
        return {f: ("NULL" if info.get(f) is None else info[f]) for f in FIELDS}

    def ev(self, op, fn, **k):
        e = dict(op=op, **k)
        try:
            with quiet():
                r = fn()
            e["ok"] = True
            if op in ("add", "cli"):
                e["id"] = int(r)
        except Exception as x:
            e["ok"] = False
            e["msg"] = f"{type(x).__name__}: {x}"[:200]
            e.setdefault("id", -1)
            self.open()
        e["obs"] = self.observe()
        self.ctx.count(op)
        return e

    def add(self, d, ask, how="add"):
        p, rel = self.path(d)
        i = self.info()
        kw = dict(i, maf_dir=p)
        if ask:
            kw["maf_run_id"] = ask
        elif self.rng.random() < 0.3:
            kw["maf_run_id"] = None
        return self.ev("add", lambda: self.t.add_run(**kw), dir=rel, ask=ask, info=self.shown(i))

    def addfail(self, d):
        """The database refuses to store the record."""
        con = sqlite3.connect(self.file)
        for w in ("INSERT", "UPDATE"):
            con.execute(f"CREATE TRIGGER bad{w} BEFORE {w} ON runs WHEN NEW.run_comment = 'boom' BEGIN SELECT RAISE(ABORT, 'no'); END")
        con.commit()
        con.close()
        p, rel = self.path(d)
        e = self.ev("addfail", lambda: self.t.add_run(maf_dir=p, run_comment="boom", run_name="new"), dir=rel)
        con = sqlite3.connect(self.file)
        for w in ("INSERT", "UPDATE"):
            con.execute(f"DROP TRIGGER bad{w}")
        con.commit()
        con.close()
        return e

    def delete(self, i):
        return self.ev("del", lambda: self.t.delRun(i), id=i)

    def reopen(self):
        return self.ev("reopen", self.open)

    def cli(self, d):
        """add_run_to_database, with or without a directory and a results database there."""
        rng = self.rng
        full = self.root / "runs" / d
        kind = rng.choice(["missing", "plain", "results", "results", "empty"])
        shutil.rmtree(full, ignore_errors=True)
        names, extras = [], {}
        if kind != "missing":
            full.mkdir(parents=True)
        if kind in ("results", "empty"):
            f = full / "resultsDb_sqlite.db"
            shutil.copy(self.template, f)
            con = sqlite3.connect(f)
            con.execute("UPDATE version SET version = 'v9', run_date = '2025-05-05'")
            if kind == "results":
                for k in range(rng.randrange(1, 3)):
                    con.execute("INSERT INTO metrics (metric_name, slicer_name, run_name, sql_constraint, metric_info_label, metric_datafile) "
                                "VALUES (?, 'S', 'the run', '', '', '')", (f"m{k}",))
                names = ["the run"]
            con.commit()
            con.close()
            extras = dict(maf_version="v9", maf_date="2025-05-05")
        p, rel = self.path(d)
        i = {f: f"{f[:7]}2" for f in ("run_group", "run_name", "run_comment", "maf_comment", "db_file", "maf_version", "maf_date") if rng.random() < 0.5}
        kw = dict(i)
        if rng.random() < 0.5:
            i["run_version"], kw["sched_version"] = "sv", "sv"
        if rng.random() < 0.5:
            i["run_date"], kw["sched_date"] = "sd", "sd"
        skip = rng.random() < 0.25
        if skip:
            kw["skip_extras"] = True
        else:
            for f, v in extras.items():
                i.setdefault(f, v)
            if names:
                i.setdefault("run_name", names[0])
        file = str(self.file) if self.arg is None else self.arg

        def f():
            self.cli_fn(p, file, **kw)
            self.open()
            got = [r["id"] for r in self.observe() if r["dir"] == rel]
            return got[0] if got else -1

        self.ctx.count("cli " + kind)
        return self.ev("cli", f, dir=rel, ask=0, info=self.shown(i), isdir=full.is_dir())


def check_b04(ctx):
    tr, rng = Tracking(ctx), ctx.rng
    r = ctx.design("TrackDbMC", constants=f" MaxOps = {ctx.pick(4, 5)}", invariants=["Inv"], properties=["Others"], view="View", workers=1)
    hs = maximal(r.printed)
    rng.shuffle(hs)
    hs = hs[: ctx.pick(110, 1200)]
    ctx.extra["spec_generated_behaviours"] = len(hs)
    traces = []
    for h in hs:
        t = [tr.reset()]
        for e in h:
            t.append(tr.add(e["dir"], e["ask"]) if e["op"] == "add" else tr.addfail(e["dir"]) if e["op"] == "addfail" else tr.delete(e["id"]))
        traces.append(t)
    for _ in range(ctx.pick(40, 500)):
        t = [tr.reset()]
        dirs = ["a", "b", "a b", "deep/c", "x'y"]
        for _ in range(rng.randrange(6, 20)):
            k = rng.random()
            d = rng.choice(dirs)
            if k < 0.45:
                t.append(tr.add(d, rng.choice([0, 0, 1, 2, 3, 7, 2**31 - 5])))
            elif k < 0.55:
                t.append(tr.addfail(d))
            elif k < 0.7:
                t.append(tr.delete(rng.choice([r["id"] for r in tr.observe()] + [1, 5])))
            elif k < 0.8:
                t.append(tr.reopen())
            else:
                t.append(tr.cli(d))
        traces.append(t)
    os.chdir(tr.home)
    ctx.oracle("TrackDbTrace", traces, chunks=6)


def num(v):
    return "null" if pd.isna(v) else tok(float(v))


# ------------------------------------------------------------------ B05
class Gather:
    def __init__(self, ctx):
        from rubin_sim.maf.db import ResultsDb
        from rubin_sim.maf.run_comparison import archive, gather_summaries

        self.ctx, self.rng = ctx, ctx.rng
        from rubin_sim.maf.run_comparison.gather_summaries import combine_result_dbs, gather_summaries

        self.combine, self.cli, self.arch = combine_result_dbs, gather_summaries, archive
        d = ctx.subdir("tmpl")
        with quiet():
            ResultsDb(out_dir=str(d))
        self.template = d / "resultsDb_sqlite.db"
        logging.getLogger("rubin_sim").setLevel(logging.ERROR)

    def make(self, dirs, vals, name="resultsDb_sqlite.db"):
        """Directories holding the given records; an empty list stands for one of the ways to have no results."""
        rng = self.rng
        root = self.ctx.subdir("gth")
        paths = []
        for k, recs in enumerate(dirs):
            d = root / f"d{k}"
            kind = rng.choice(["nodir", "nofile", "nostats"]) if not recs else "full"
            self.ctx.count("results " + kind)
            paths.append(str(d) + rng.choice(["", "/"]))
            if kind == "nodir":
                continue
            d.mkdir()
            (d / "other.txt").write_text("x")
            if kind == "nofile":
                continue
            shutil.copy(self.template, d / name)
            con = sqlite3.connect(d / name)
            ids = {}

            def mid(r, con=con, ids=ids):
                key = (r["metric"], r["slicer"], r["run"], r.get("con", ""), r["label"])
                if key not in ids:
                    c = con.execute("INSERT INTO metrics (metric_name, slicer_name, run_name, sql_constraint, metric_info_label, metric_datafile) "
                                    "VALUES (?, ?, ?, ?, ?, '')", key)
                    ids[key] = c.lastrowid
                return ids[key]

            if kind == "nostats":
                if rng.random() < 0.5:
                    mid(dict(metric="m", slicer="S", run="r9", label=""))
            for r in recs:
                con.execute("INSERT INTO summarystats (metric_id, summary_name, summary_value) VALUES (?, ?, ?)", (mid(r), r["stat"], vals[r["val"]]))
            con.commit()
            con.close()
        return root, paths

    def listing(self, root):
        out = []
        for dp, dn, fn in os.walk(root):
            for f in sorted(dn):
                out.append(os.path.join(dp, f) + "/")
            for f in fn:
                p = os.path.join(dp, f)
                out.append(p[len(str(root)):] + " " + hashlib.md5(open(p, "rb").read()).hexdigest()[:8])
        return sorted(out)

    def gather(self, dirs, vals):
        rng = self.rng
        name = rng.choice(["resultsDb_sqlite.db"] * 3 + ["res.db"])
        how = rng.choice(["call", "call", "call", "csv", "hdf"]) if any(dirs) and name != "res.db" else "call"
        root, paths = self.make(dirs, vals, name)
        e = dict(op="gather", dirs=[[{k: v for k, v in r.items() if k != "con"} for r in d] for d in dirs], before=self.listing(root))
        try:
            with quiet():
                if how == "call":
                    df = self.combine(paths, name) if name == "res.db" else self.combine(paths)
                else:
                    out = self.ctx.subdir("out")
                    argv = sys.argv
                    sys.argv = ["gather_summaries", "--dirs", ",".join(paths), "--outfile", str(out / "s")] + (["--to_csv"] if how == "csv" else [])
                    try:
                        self.cli()
                    finally:
                        sys.argv = argv
                    df = pd.read_csv(out / "s.csv", index_col=0, keep_default_na=False, na_values=[""]) if how == "csv" else pd.read_hdf(out / "s.h5")
            e["rows"] = [str(x) for x in df.index]
            e["cols"] = [str(x) for x in df.columns]
            e["got"] = {r: {c: num(df.iloc[k, j]) for j, c in enumerate(e["cols"])} for k, r in enumerate(e["rows"])}
            e["ok"] = True
        except Exception as x:
            e.update(ok=False, msg=f"{type(x).__name__}: {x}"[:200], rows=[], cols=[], got={})
        e["after"] = self.listing(root)
        shutil.rmtree(root)
        self.ctx.count("gather " + how)
        return e

    def select(self):
        rng = self.rng
        rows = rng.sample(["r1", "r2", "r3", "a run"], rng.randrange(1, 5))
        cols = rng.sample(["Mean m x S", "Median m S", "Count", "n, o"], rng.randrange(1, 5))
        df = pd.DataFrame([[float(rng.randrange(9)) if rng.random() < 0.9 else np.nan for _ in cols] for _ in rows],
                          index=pd.Index(rows, name=rng.choice([None, "run_name"])), columns=pd.Index(cols, name=rng.choice([None, "metric"])))
        fam = {f"f{k}": rng.sample(rows, rng.randrange(1, len(rows) + 1)) for k in range(2)}
        sub = {f"s{k}": rng.sample(cols + ["lost"], rng.randrange(1, len(cols) + 1)) for k in range(2)}
        some = lambda s, extra=(): rng.sample(s, rng.randrange(0, len(s) + 1)) + [x for x in extra if rng.random() < 0.3] if rng.random() < 0.6 else []
        ro, mo = rng.choice(["family", "summary"]), rng.choice(["subset", "summary"])
        runs = some(rows, ["never"] if ro == "summary" else [])
        mets = some(cols, ["lost2"])
        fams = some(sorted(fam)) if rng.random() < 0.6 else []
        subs = some(sorted(sub)) if rng.random() < 0.6 else []
        d = self.ctx.subdir("sel")
        src = rng.choice(["df", "csv", "h5"])
        if src == "csv":
            df.to_csv(d / "s.csv")
        elif src == "h5":
            df.to_hdf(d / "s.h5", key="stats")
        source = df if src == "df" else str(d / f"s.{src}")
        k = dict(brief=None, filepath=None, url=None)
        fj = {f: dict(run=r, version="v", **{c: [f"{c} {x}" for x in r] for c in k}) for f, r in fam.items()}
        (d / "f.json").write_text(json.dumps(fj))
        fs = str(d / "f.json")
        if rng.random() < 0.4:
            fs = self.arch.get_family_runs(fs)
        frames = [self.arch.create_metric_subset(n, m) for n, m in sub.items()]
        ss = pd.concat(frames)
        if rng.random() < 0.5:
            self.arch.write_metric_subsets(str(d / "m.json"), ss)
            ss = str(d / "m.json")
        desc = lambda: [df.to_json(), str(df.index.name), str(df.columns.name), repr(list(runs)), repr(list(mets)), repr(fams), repr(subs)]
        e = dict(op="select", hrows=rows, hcols=cols, cells={r: {c: tok(float(df.loc[r, c])) for c in cols} for r in rows}, runs=list(runs), metrics=list(mets),
                 fams=fams, subs=subs, famdef=fam, subdef=sub, rorder=ro, morder=mo, src=src, before=desc())
        one = lambda s: s[0] if len(s) == 1 and rng.random() < 0.5 else s
        kw = dict(summary_source=source, runs_source=fs, metric_subset_source=ss)
        for name, v in (("runs", runs), ("metrics", mets), ("run_families", one(fams)), ("metric_subsets", one(subs))):
            if v or rng.random() < 0.5:
                kw[name] = v
        if ro != "family" or rng.random() < 0.5:
            kw["run_order"] = ro
        if mo != "summary" or rng.random() < 0.5:
            kw["metric_order"] = mo
        try:
            with quiet():
                r = self.arch.get_metric_summaries(**kw)
            e.update(ok=True, rows=[str(x) for x in r.index], cols=[str(x) for x in r.columns], names=[str(r.index.name), str(r.columns.name)])
            e["got"] = {x: {c: num(r.iloc[k, j]) for j, c in enumerate(e["cols"])} for k, x in enumerate(e["rows"])}
        except Exception as x:
            e.update(ok=False, msg=f"{type(x).__name__}: {x}"[:200], rows=[], cols=[], got={}, names=[])
        e["after"] = desc()
        self.ctx.count("select " + src)
        return e

    # -------------------------------------------------------------- B06
    def norm(self, radar=False):
        rng = self.rng
        rows = rng.sample(["r1", "r2", "r3", "bbb", "a run"], rng.randrange(1, 5))
        cols = rng.sample(["Mean m", "Zed", "Count", "n, o", "aa", "run time"], rng.randrange(1, 5))
        cells = {r: {c: rng.choice([-3, -1, 1, 2, 5, 7, 11]) for c in cols} for r in rows}
        base = rng.sample(rows, rng.choice([1, 1, rng.randrange(1, len(rows) + 1)]))
        if radar:
            base = base[:1]
        flags = {c: dict(invert=rng.random() < 0.4, mag=rng.random() < 0.4, reverse=radar and rng.random() < 0.3) for c in cols if radar or rng.random() < 0.85}
        # a zero baseline has no meaning unless differences are taken
        for c in cols:
            m = sorted(cells[r][c] for r in base)
            n = len(m)
            if m[(n - 1) // 2] + m[n // 2] == 0:
                for r in base:
                    cells[r][c] = 4
        # values that are not known
        void = [[r, c] for r in rows for c in cols if r not in base and rng.random() < 0.1] if rng.random() < 0.4 else []
        df = pd.DataFrame([[np.nan if [r, c] in void else float(cells[r][c]) for c in cols] for r in rows], index=rows, columns=cols)
        plain = not radar and (rng.random() < 0.3 or not flags)
        if rng.random() < 0.6:
            df = df.rename_axis(index=rng.choice(["run", "OpsimRun", "run_name"])).rename_axis(columns="metric")
            if not radar and rng.random() < 0.4:
                df = df.T
                k = rng.random()
                if k < 0.3:  # only one of the two says what it is
                    df = df.rename_axis(columns=None)
                elif k < 0.6:
                    df = df.rename_axis(index=None)
        lost = rng.random() < 0.06
        if lost:
            base = base + ["never"] if not radar and rng.random() < 0.5 else ["never"]
        desc = lambda: [df.to_json(), str(df.index.name), str(df.columns.name)]
        e = dict(op="radar" if radar else "norm", hrows=rows, hcols=cols, cells=cells, base=base, flags=flags, plain=plain, void=void, lost=lost, before=desc())
        try:
            with quiet():
                if radar:
                    from rubin_sim.maf.run_comparison.radar_plot import normalize_for_radar

                    w = lambda f: [c for c in cols if flags[c][f]]
                    kw = {k: v for k, v in (("invert_cols", w("invert")), ("reverse_cols", w("reverse")), ("mag_cols", w("mag"))) if v or rng.random() < 0.5}
                    if kw.get("mag_cols") == cols and rng.random() < 0.5:
                        kw["mag_cols"] = "all"
                    r = normalize_for_radar(df, norm_run=base[0], **kw)
                else:
                    from rubin_sim.maf.run_comparison.summary_plots import normalize_metric_summaries

                    ss = None
                    if not plain:
                        ks = list(flags) + (["unused"] if rng.random() < 0.3 else [])
                        rng.shuffle(ks)
                        ss = self.arch.create_metric_subset("s", ks, invert=[flags.get(k, {}).get("invert", False) for k in ks],
                                                            mag=[flags.get(k, {}).get("mag", False) for k in ks])
                        if rng.random() < 0.3:  # the same metrics again in another subset
                            ss = pd.concat([ss, ss.rename(index={"s": "t"}, level=0)])
                    r = normalize_metric_summaries(base[0] if len(base) == 1 and rng.random() < 0.7 else base, df, ss)
            e.update(ok=True, rows=[str(x) for x in r.index], cols=[str(x) for x in r.columns])
            big = lambda v: int(round(v * 10000)) if np.isfinite(v) and abs(v) < 1e5 else 2**30
            e["got"] = {x: {c: big(float(r.iloc[k, j])) for j, c in enumerate(e["cols"])} for k, x in enumerate(e["rows"])}
        except Exception as x:
            e.update(ok=False, msg=f"{type(x).__name__}: {x}"[:200], rows=[], cols=[], got={})
        e["after"] = desc()
        self.ctx.count(e["op"])
        return e


VALS = {"null": None, "n1": 1, "n2": 2, "f" + (2.5).hex(): 2.5, "n0": 0, "finf": float("inf"), "f" + (-1 / 3).hex(): -1 / 3}


def rand_dirs(rng):
    out = []
    pool = [dict(run=rng.choice(["r1", "r2", "run_b"]), stat=rng.choice(["Mean", "Median", "Identity", "3Sigma p90"]), metric=rng.choice(["m", "Count obs", "n%"]),
                 label=rng.choice(["", "r band"]), slicer=rng.choice(["UniSlicer", "HealpixSlicer"])) for _ in range(6)]
    for _ in range(rng.randrange(1, 5)):
        out.append([dict(rng.choice(pool), val=rng.choice(list(VALS)), con=rng.choice(["", "c"])) for _ in range(rng.choice([0, 1, 3, 8]))])
    return out


def check_b05(ctx):
    g, rng = Gather(ctx), ctx.rng
    r = ctx.design("RunSummariesMC", constants=f" MaxDirs = {ctx.pick(2, 3)}\n MaxRecs = {ctx.pick(2, 2)}", invariants=["Inv"], workers=1)
    cases = [d for d in r.printed if any(d)]
    rng.shuffle(cases)
    cases = cases[: ctx.pick(260, 3000)]
    ctx.extra["spec_generated_inputs"] = len(cases)
    evs = [g.gather(d, VALS) for d in cases]
    for _ in range(ctx.pick(150, 2000)):
        d = rand_dirs(rng)
        if any(d):
            evs.append(g.gather(d, VALS))
    evs += [g.select() for _ in range(ctx.pick(250, 3000))]
    ctx.oracle("RunSummariesTrace", [[e] for e in evs], chunks=6)


def check_b06(ctx):
    g, rng = Gather(ctx), ctx.rng
    ctx.design("RunSummariesMC", constants=" MaxDirs = 2\n MaxRecs = 1", invariants=["Inv"], workers=1)
    evs = [g.norm() for _ in range(ctx.pick(400, 4000))] + [g.norm(True) for _ in range(ctx.pick(200, 2000))]
    ctx.oracle("RunSummariesTrace", [[e] for e in evs], chunks=6)
