"""Running simulations and keeping them: property A12 (specification VsRun).

The real sim_runner is run with a small observatory and scheduler of our own (below), whose visits are known in
advance; everything that is saved is read back from the files themselves.
"""
import contextlib
import copy
import datetime
import hashlib
import io
import json
import lzma
import os
import pickle
import sqlite3
import sys
import tempfile
import types
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

from .archive import maximal
from .core import MachineryError

MJD0 = 60000
DATE0 = datetime.date(2023, 2, 25)
UNIT = 8.64  # seconds
NONE = -1


class Mount:
    def mount_bands(self, bands):
        pass


class Observatory:
    """Observes whatever it is asked to; slew and visit take a fixed time (in units)."""

    def __init__(self, slew, visit, exp):
        self.mjd, self.observatory, self.n = float(MJD0), Mount(), 0
        self.slew, self.visit, self.exp = slew, visit, exp

    def return_conditions(self):
        return types.SimpleNamespace(moon_phase_sunset=5.0, mjd=self.mjd)

    def observe(self, want):
        o = want.copy()
        self.n += 1
        o["mjd"] = self.mjd + self.slew / 10000
        o["slewtime"], o["visittime"], o["exptime"], o["ID"] = self.slew * UNIT, self.visit * UNIT, self.exp * UNIT, self.n
        self.mjd = self.mjd + (self.slew + self.visit) / 10000
        return o, False


class Scheduler:
    flushed = 0
    queue_fill_mjd_ns = 1

    def __init__(self, keep=False, token="s"):
        self.keep_rewards, self.seen, self.token = keep, 0, token
        self.queue_reward_df = pd.DataFrame({"queue_fill_mjd_ns": [1, 1], "survey_reward": [2.5, -1.0]})

    def _check_queue_mjd_only(self, mjd):
        return True

    def update_conditions(self, c):
        self.conditions = c

    def request_observation(self, mjd=None):
        from rubin_scheduler.scheduler.utils import ObservationArray

        o = ObservationArray(n=1)
        o["band"] = o["filter"] = "r"
        o["RA"] = 0.25
        return o

    def add_observation(self, o):
        self.seen += 1

    def flush_queue(self):
        pass


def units(mjd):
    return int(round((float(mjd) - MJD0) * 10000))


def night(s):
    return (datetime.date.fromisoformat(str(s)) - DATE0).days if s is not None else NONE


def almanac(root, mjd0=MJD0):
    """Almanac files with a sun that sets about when it does in Chile; returns the (start, end) of the nights."""
    d = Path(root) / "site_models"
    d.mkdir(parents=True)
    names = ["sunset", "sun_n12_setting", "sun_n18_setting", "sun_n18_rising", "sun_n12_rising", "sunrise", "moonrise", "moonset"]
    a = np.zeros(40, dtype=[("night", "<i8")] + [(n, "<f8") for n in names])
    table = []
    for k in range(len(a)):
        set_, dusk, rise = 9000 + 40 * (k % 9), 9800 + 60 * (k % 7), 14000 + 30 * (k % 5)  # dusk is before or after UTC midnight
        a[k]["night"] = k
        for n, x in zip(names, (set_, dusk, dusk + 150, rise - 500, rise - 300, rise, 9990, 12000)):
            a[k][n] = mjd0 - 5 + k + x / 10000
        table.append([10000 * (k - 5) + dusk, 10000 * (k - 5) + rise])
    np.savez(d / "sunsets.npz", almanac=a)
    m = np.linspace(mjd0 - 8, mjd0 + 40, 60)
    sm = np.zeros(60, dtype=[(n, "<f8") for n in ("mjd", "sun_alt", "sun_az", "sun_RA", "sun_dec", "moon_alt", "moon_az", "moon_RA",
                                                  "moon_dec", "moon_phase")])
    sm["mjd"] = m
    np.savez(d / "sun_moon.npz", sun_moon_info=sm)
    pl = np.zeros(60, dtype=[("mjd", "<f8")] + [(f"{p}_{c}", "<f8") for p in ("venus", "mars", "jupiter", "saturn") for c in ("RA", "dec")])
    pl["mjd"] = m
    np.savez(d / "planet_locations.npz", planet_loc=pl)
    return {k - 5: v for k, v in enumerate(table)}


def token(path):
    """What a saved file says: our text files as they are, pickles as the state of what was pickled."""
    b = Path(path).read_bytes()
    for opener in (lzma.decompress, bytes):
        try:
            x = pickle.loads(opener(b))
        except Exception:
            continue
        if isinstance(x, Scheduler):
            return f"scheduler {x.token} {x.seen} {x.keep_rewards}"
        if isinstance(x, Observatory):
            return f"observatory {x.slew} {x.visit} {x.n}"
    return b.decode("latin1")[:60]


def d_rec(rew):
    return len(rew) == 2


class Runs:
    def __init__(self, ctx):
        from rubin_sim.sim_archive import prenight, sim_archive

        self.ctx, self.S, self.P = ctx, sim_archive, prenight
        os.environ["USER"] = "root"
        os.environ["RUBIN_SIM_DATA_DIR"] = str(ctx.scratch / "data")
        self.nights = almanac(ctx.scratch / "data")
        self.n = 0

    def reset(self):
        self.dirs = {}  # id -> path
        self.dicts = {}
        self.keep = []
        self.src = self.ctx.subdir("src")
        return dict(op="reset")

    def path(self, d):
        if d not in self.dirs:
            self.dirs[d] = self.ctx.subdir("run")
        return self.dirs[d]

    # ------------------------------------------------------------ reading what was saved
    def read(self, d):
        p = Path(self.dirs[d])
        g = dict(dir=d, exists=True, visits=[], rew=[], files=[], tags=[], label="", meta="", nights=[NONE, NONE], kw=[NONE, NONE], names=[],
                 hashes=True, stats=[])
        if not (p / "sim_metadata.yaml").is_file():
            return dict(g, exists=False)
        m = yaml.safe_load((p / "sim_metadata.yaml").read_text())
        for t, f in m["files"].items():
            g["names"].append(f["name"])
            g["hashes"] &= hashlib.md5((p / f["name"]).read_bytes()).hexdigest() == f["md5"]
            if t == "observations":
                con = sqlite3.connect(p / f["name"])
                g["visits"] = [units(x[0]) for x in con.execute("select observationStartMJD from observations order by rowid")]
                con.close()
            elif t == "statistics":
                s = pd.read_csv(p / f["name"], sep="\t", index_col=0).loc["observationStartMJD"]
                n = int(s["count"])
                g["stats"] = [n, units(s["min"]), units(s["max"])] if n else [0, NONE, NONE]
            elif t == "rewards":
                with pd.HDFStore(p / f["name"], "r") as h:
                    g["rew"] = sorted(f"{k.lstrip('/')} {self.tabletoken(h[k])}" for k in h.keys())
            else:
                g["files"].append([t, token(p / f["name"])])
        g["names"].append("sim_metadata.yaml")
        g["tags"] = list(m.get("tags") or [])
        g["label"] = m.get("label") or ""
        g["meta"] = json.dumps({k: m[k] for k in ("telescope", "extra") if k in m}, sort_keys=True) if {"telescope", "extra"} & set(m) else ""
        dates = m.get("simulated_dates", {})
        g["nights"] = [night(dates.get("first")), night(dates.get("last"))]
        kw = m.get("sim_runner_kwargs") or {}
        if "sim_start_mjd" in kw:
            g["kw"] = [units(kw["sim_start_mjd"]), int(round(kw["sim_duration"] * 10000)) if "sim_duration" in kw else NONE]
            if kw.get("record_rewards") is not d_rec(g["rew"]) or not isinstance(kw["sim_start_mjd"], float):
                g["kw"].append("kwargs")
        return g

    def reread(self, d):
        try:
            return self.read(d)
        except Exception:
            return dict(dir=d, exists=False)

    @staticmethod
    def tabletoken(x):
        return f"{len(x)}:{round(float(np.nansum(np.asarray(x, dtype=float))), 3)}"

    # ------------------------------------------------------------ saving
    def finish(self, d, run, fn, fresh=False, again=()):
        before = copy.deepcopy(self.dicts)
        ev = dict(op="save", dir=d, run=run, ok=True, fresh=fresh, again=list(again), returned=[], others=[], dictsok=True, got={})
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                d, returned = fn()
            ev["dir"] = d
            ev["got"] = self.read(d)
            ev["returned"] = ev["got"]["visits"] if returned is None else returned
            if not ev["got"]["exists"]:
                ev["ok"] = False
                ev["msg"] = "nothing was saved"
        except MachineryError:
            raise
        except (Exception, SystemExit) as x:
            ev["ok"] = False
            ev["msg"] = f"{type(x).__name__}: {x}"[:200]
        ev["others"] = [self.reread(k) for k in self.dirs if k != d]
        ev["dictsok"] = before == self.dicts
        self.ctx.count(run["via"])
        return ev

    def metadict(self, run):
        if not run["meta"]:
            return None
        return self.dicts.setdefault(run["meta"], {"telescope": "simonyi", "extra": "of " + run["meta"]})

    def complete(self, run):
        """Fill in what the dictionary, scheduler etc. say."""
        md = self.metadict(run)
        run["metaval"] = json.dumps({"extra": "of " + run["meta"], "telescope": "simonyi"}, sort_keys=True) if run["meta"] else ""
        run.setdefault("rnd", False)
        run["files"] = sorted(run["files"])
        return md

    def save(self, d, run):
        from rubin_scheduler.scheduler.utils import ObservationArray

        self.n += 1
        md = self.complete(run)
        temp = d == ""
        o = ObservationArray(n=len(run["visits"]))
        o["mjd"] = [MJD0 + v / 10000 for v in run["visits"]]
        o["ID"] = range(len(o))
        o["band"] = o["filter"] = "r"
        tables = {"reward_df": None, "obs_rewards": None}
        for t in run["rew"]:
            tables[t] = pd.DataFrame({"survey_reward": [1.5, 2.0 + self.n]}) if t == "reward_df" else \
                pd.Series([float(self.n)], index=pd.Index([60000.5], name="mjd"), name="queue_fill_mjd_ns")
        run["rew"] = sorted(f"{t} {self.tabletoken(tables[t])}" for t in run["rew"])
        inf = {}
        for j, (t, c) in enumerate(run["files"]):
            sub = self.src / f"{self.n}_{j}"
            sub.mkdir()
            # the names collide with each other and with those of the files made by the archive
            name = ["config.yaml", "config.yaml", "opsim.db", "sim_metadata.yaml", "a_config.yaml", "other.txt"][(j + run.get("shift", 0)) % 6]
            (sub / name).write_text(c)
            if d and self.n % 3 == 0 and (self.path(d) / f"mine{j}").parent.is_dir() and j == 0:
                # a file that lies in the directory already, as the scheduler saved before a run may
                sub, name = self.path(d), f"mine{self.n}.txt"
                (sub / name).write_text(c)
            inf[t] = [str(sub / name), sub / name][j % 2]
        kw = {}
        if run["kw"]:
            kw = dict(sim_start_mjd=np.float64(MJD0 + run["start"] / 10000), record_rewards=d_rec(run["rew"]))
            if run["dur"] >= 0:
                kw["sim_duration"] = run["dur"] / 10000 if run["dur"] % 10000 or self.n % 2 else run["dur"] // 10000
        given = dict(in_files=inf, sim_runner_kwargs=kw, tags=list(run["tags"]), label=run["label"] or None)
        mine = copy.deepcopy(given)
        new = d if not temp else f"t{self.n}"

        def go():
            out = self.S.make_sim_data_dir(o, tables["reward_df"], tables["obs_rewards"],
                                           data_path=None if temp else [str(self.path(d)), self.path(d)][self.n % 2], opsim_metadata=md, **given)
            if given != mine:
                raise RuntimeError("arguments changed")
            if temp:
                self.keep.append(out)
                self.dirs[new] = Path(str(getattr(out, "name", out)) if not isinstance(out, Path) else str(out))
            return new, None

        return self.finish(new, run, go, fresh=temp)

    def overhead(self, run):
        scat = dict(scale=0.0, loc=run["scat"] * UNIT)
        if run["scat"] or run["loc"] or run["min"]:
            return self.P.AnomalousOverheadFunc(seed=self.n, slew_loc=float(run["loc"]), scatter_kwargs=scat, min_overhead=run["min"] * UNIT)

    def drive(self, run, script=None, record=None):
        self.n += 1
        md = self.complete(run)
        keep = bool(run["rew"]) or record is False
        sched = Scheduler(keep, f"k{self.n}")
        run["files"] = [["scheduler", f"scheduler k{self.n} 0 {keep}"]]
        extra = {}
        if script is not None:
            for t, c in script:
                p = self.src / f"{self.n}{t}"
                p.mkdir()
                (p / "work.txt").write_text(c)
                extra[t] = str(p / "work.txt")
                run["files"].append([t, c])
        obsy = Observatory(run["slew"], run["visit"], run["exp"])
        kw = dict(sim_start_mjd=MJD0 + run["start"] / 10000, sim_duration=run["dur"] / 10000, verbose=False)
        if record is not None:
            kw["record_rewards"] = record
        f = self.overhead(run)
        if f is not None:
            kw["anomalous_overhead_func"] = f
        new = f"t{self.n}"
        if run["rew"]:
            run["rew"] = []  # below, from what the run returned

        def go():
            r = self.S.drive_sim(obsy, sched, label=run["label"] or None, tags=list(run["tags"]), opsim_metadata=md, **extra, **kw)
            if r[0] is not obsy or r[1] is not sched or len(r) != (6 if keep and record is not False else 4):
                raise RuntimeError(f"{len(r)} results, not those of sim_runner and the directory")
            if len(r) == 6:
                run["rew"] = [f"obs_rewards {self.tabletoken(r[4])}", f"reward_df {self.tabletoken(r[3])}"]
            if not r[-1].isdir() or not r[-1].exists():
                raise RuntimeError("the directory returned does not exist")
            self.dirs[new] = Path(r[-1].ospath)
            return new, [units(x) for x in r[2]["mjd"]]

        return self.finish(new, run, go, fresh=True)

    def cli(self, d, run, day, nights, delay, keep=False, scale=0.0, scatter=0.0, seed=1, telescope="simonyi", again=()):
        """The command line tool: day and nights say when, delay is in units."""
        self.n += 1
        run["meta"] = ""
        run["metaval"] = json.dumps({"telescope": telescope})
        run["rnd"] = scale > 0 or scatter > 0
        run["start"] = self.nights[day][0] + delay
        run["end"] = self.nights[day + nights - 1][1]
        run["kw"] = False
        sched, obsy = Scheduler(False, f"k{self.n}"), Observatory(run["slew"], run["visit"], run["exp"])
        p = self.src / f"cli{self.n}"
        p.mkdir()
        # both pickles may have the same name
        (p / "o").mkdir()
        fs, fo = p / "start.p", p / "o" / ("start.p" if self.n % 2 else "observatory.p")
        fs.write_bytes(pickle.dumps(sched))
        fo.write_bytes(pickle.dumps(obsy))
        run["files"] = [["observatory", token(fo)], ["scheduler", token(fs)]]
        run["rew"] = []
        date = DATE0 + datetime.timedelta(days=day)
        argv = [str(fs), str(fo), date.strftime("%Y%m%d"), str(nights), "--telescope", telescope]
        for k, v in (("--label", run["label"]), ("--delay", delay * UNIT / 60 if delay else ""), ("--anom_overhead_scale", scale or ""),
                     ("--anom_overhead_scatter", scatter or ""), ("--anom_overhead_seed", seed if seed != 1 else "")):
            if v != "":
                argv += [k, str(v)]
        if run["tags"]:
            argv += ["--tags"] + list(run["tags"])
        if keep:
            argv.append("--keep_rewards")
        temp = d == ""
        new = d or f"t{self.n}"
        if not temp:
            argv += ["--results", str(self.path(d))]

        def found():
            return {str(x.parent) for x in Path(tempfile.gettempdir()).glob("**/sim_metadata.yaml")}

        def go():
            before = found() if temp else set()
            rc = self.P.run_prenight_sim_cli(argv)
            if rc not in (0, None):
                raise RuntimeError(f"exit code {rc}")
            if temp:
                made = found() - before
                if len(made) != 1:
                    raise RuntimeError(f"{len(made)} directories with the results")
                self.dirs[new] = Path(made.pop())
            if keep:
                n = len(self.read(new)["visits"])
                run["rew"] = [f"obs_rewards {n}:{float(n)}", "reward_df 2:3.5"]
            return new, None

        return self.finish(new, run, go, fresh=temp, again=again)


BASE = dict(via="save", visits=[], rew=[], files=[], tags=[], label="", meta="", metaval="", start=NONE, dur=NONE, end=NONE, kw=False, slew=0, visit=0,
            exp=0, loc=0, scat=0, min=0, rnd=False)


def clean(run):
    """No visit may start exactly at the end of the run (rounding decides whether it is taken)."""
    m = run["slew"] + run["visit"] - run["exp"]
    o = run["slew"] * run["loc"] + run["scat"]
    o = run["min"] - m if m + o < run["min"] else o
    step = run["slew"] + run["visit"] + o
    return step > 0 and run["start"] >= 0 and (run["end"] - run["start"]) % step != 0 and (run["end"] - run["start"]) / step < 60


def sometimes(rng):
    return dict(label=rng.choice(["", "a label", "l'"]), tags=rng.choice([[], ["ideal"], ["b", "a"]]), meta=rng.choice(["", "m", "m", "k"]))


def random_save(rng):
    run = dict(copy.deepcopy(BASE), **sometimes(rng))
    n = rng.choice([1, 2, 5])
    run["visits"] = rng.sample(range(3000, 50000, 7), n)
    if rng.random() < 0.6:
        run["visits"].sort()
    run["rew"] = rng.choice([[], [], ["reward_df"], ["obs_rewards"], ["reward_df", "obs_rewards"]])
    run["files"] = [[t, f"text {rng.random()}"] for t in rng.sample(["a", "b", "c", "d", "e"], rng.choice([0, 1, 2, 4]))]
    run["shift"] = rng.randrange(6)
    if rng.random() < 0.5:
        run["kw"] = True
        run["start"] = 10000 * rng.randrange(0, 4) + rng.choice([9500, 9900, 10100, 8000, 5001, 14999])
        run["dur"] = rng.choice([NONE, 10000, 20000, 70000, 4000, 1, 14000, 23999, 0])
    return run


def random_drive(rng):
    while True:
        run = dict(copy.deepcopy(BASE), via="drive", kw=True, **sometimes(rng))
        run["slew"], run["exp"] = rng.choice([0, 10, 100]), rng.choice([200, 700])
        run["visit"] = run["exp"] + rng.choice([0, 0, 30, 80])
        run["start"] = 10000 * rng.randrange(0, 3) + rng.choice([9500, 9901, 10103])
        run["dur"] = rng.choice([3000, 4500, 10000, 14003, 20000])
        run["end"] = run["start"] + run["dur"]
        run["scat"] = rng.choice([0, 0, 50, -20, -300])
        run["loc"] = rng.choice([0, 0, 1, 2])
        run["min"] = rng.choice([0, 0, 25, 250])
        if not (run["scat"] or run["loc"] or run["min"]):
            run["min"] = 0
        if clean(run):
            return run


def random_cli(rng, rs):
    while True:
        run = dict(copy.deepcopy(BASE), via="cli", **dict(sometimes(rng), meta=""))
        run["slew"], run["exp"] = rng.choice([10, 130]), rng.choice([400, 700])
        run["visit"] = run["exp"] + rng.choice([0, 30])
        day, nights, delay = rng.randrange(0, 25), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 50, 2000])
        run["start"], run["end"] = rs.nights[day][0] + delay, rs.nights[day + nights - 1][1]
        if clean(run):
            return run, day, nights, delay


def overheads(rs, ctx):
    """The offsets themselves, for observations of both kinds."""
    from rubin_scheduler.scheduler.utils import ObservationArray

    rng = ctx.rng
    F = rs.P.AnomalousOverheadFunc
    out = [rs.reset()]

    class Fixed:
        def __init__(self, v):
            self.v = v

        def rvs(self, size=None, random_state=None, **k):
            return self.v

    def observation(kind, e, known, form=float, q=64.0):
        v = dict(slewtime=e["slew"] / q)
        if known:
            v.update(visittime=e["visit"] / q, exptime=e["exp"] / q)
        if kind == "array":
            o = ObservationArray(n=1)
            for k, x in v.items():
                o[k] = x
            return o
        return {k: form(x) for k, x in v.items()}

    for _ in range(ctx.pick(150, 3000)):
        kind = rng.choice(["dict", "array"])
        known = kind == "array" or rng.random() < 0.8
        s = 64 if rng.random() < 0.3 else 1
        e = dict(op="over", slew=s * rng.choice([0, 1, 96, 640, 5000]), exp=s * rng.choice([0, 960, 1920]), loc=rng.choice([0, 0, 1, 3]),
                 scat=rng.choice([0, 0, 7, 64 * 40, -100, -64 * 300]), min=rng.choice([0, 0, 64, 640, 64 * 50]), known=known, plain=True, off=0,
                 ok=True)
        e["visit"] = e["exp"] + s * rng.choice([0, 64, 333])
        form = int if s == 64 and rng.random() < 0.5 else rng.choice([float, np.float64])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                k = dict(scatter_distribution=Fixed(e["scat"] / 64)) if rng.random() < 0.6 else \
                    dict(scatter_distribution=rng.choice([None, "normal"]), scatter_kwargs=dict(scale=0.0, loc=e["scat"] / 64))
                f = F(seed=3, slew_loc=e["loc"], min_overhead=e["min"] / 64, **k)
                o = observation(kind, e, known, form)
                x = f(obs=o)
                if np.ndim(x) != 0 or not isinstance(x, (float, int, np.floating)):
                    e["plain"] = False
                    x = np.asarray(x, dtype=float).ravel()[0]
                e["off"] = int(round(float(x) * 64)) if abs(float(x) * 64 - round(float(x) * 64)) < 1e-6 else -999999
        except Exception as x:
            e["ok"] = False
            e["msg"] = f"{type(x).__name__}: {x}"[:200]
        out.append(e)
        ctx.count("offset")
    for _ in range(ctx.pick(40, 800)):
        e = dict(op="rnd", ok=True, slew=rng.choice([2000, 16000]), exp=rng.choice([0, 30000]), min=rng.choice([0, 0, 3000]),
                 scat=rng.choice([0, 0, 2000]), a=[], b=[], c=[], d=[], raw=[])
        e["visit"] = e["exp"] + rng.choice([0, 4000])
        slew, wide = rng.choice([0.1, 1.0, 5.0]), rng.choice([0.0, 0.0, 3.0])
        slewloc = rng.choice([0, 0, 0.25])
        seed = rng.randrange(1000)
        kind = rng.choice(["dict", "array"])
        e["varies"] = True

        def go(seed, obs, low=None, n=12):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                f = F(seed=seed, slew_scale=slew, slew_loc=slewloc, min_overhead=e["min"] / 1000 if low is None else low,
                      scatter_kwargs=dict(scale=wide, loc=e["scat"] / 1000))
                return [int(round(float(np.asarray(f(obs=obs)).ravel()[0]) * 1000)) for _ in range(n)]

        try:
            o = observation(kind, e, True, q=1000.0)
            e["a"], e["b"], e["c"] = go(seed, o), go(seed, observation("dict", e, True, q=1000.0)), go(seed + 1, o)
            if wide == 0.0 and e["scat"] == 0:
                # with no minimum to keep, the offset is in proportion to the slew
                e2 = dict(e, slew=2 * e["slew"])
                e["raw"] = go(seed, observation(kind, e, True, q=1000.0), low=-1e6)
                e["d"] = go(seed, observation(kind, e2, True, q=1000.0), low=-1e6)
            # everything may be cut to the same minimum
            m = e["slew"] + e["visit"] - e["exp"]
            e["varies"] = any(m + x > e["min"] + 1 for x in e["a"]) and any(m + x > e["min"] + 1 for x in e["c"])
            if e["varies"] and wide == 0.0 and all(abs(x - (e["scat"] - e["slew"])) < 2 for x in e["a"] + e["c"]):
                e["varies"] = False
            if len(set(e["a"])) == 1 and abs(m + e["a"][0] - e["min"]) < 2:
                e["varies"] = False
        except Exception as x:
            e["ok"] = False
            e["msg"] = f"{type(x).__name__}: {x}"[:200]
        out.append(e)
        ctx.count("random offsets")
    return out


def check_a12(ctx):
    warnings.simplefilter("ignore")
    sys.modules.setdefault("harness.vsrun", sys.modules[__name__])
    rs = Runs(ctx)
    rng = ctx.rng
    r = ctx.design("VsRunMC", constants=f" MaxOps = {ctx.pick(3, 4)}", invariants=["Inv"], properties=["Others"], workers=1)
    hs = maximal(r.printed)
    rng.shuffle(hs)
    hs = hs[: ctx.pick(30, 400)]
    ctx.extra["spec_generated_behaviours"] = len(hs)
    traces = [overheads(rs, ctx)]
    for h in hs:
        tr = [rs.reset()]
        for x in h:
            run = dict(copy.deepcopy(x["run"]), rnd=False)
            if run["via"] == "drive":
                run["files"] = []
                tr.append(rs.drive(run))
            else:
                tr.append(rs.save(x["dir"], run))
        traces.append(tr)
    for _ in range(ctx.pick(14, 150)):
        tr = [rs.reset()]
        for _ in range(rng.randrange(3, 7)):
            k = rng.random()
            if k < 0.45:
                tr.append(rs.save(rng.choice(["d1", "d2", ""]), random_save(rng)))
            elif k < 0.7:
                run = random_drive(rng)
                run["rew"] = rng.choice([[], ["reward_df", "obs_rewards"]])
                script = rng.choice([None, None, [["script", "the script"]], [["script", "a"], ["notebook", "b"]]])
                tr.append(rs.drive(run, script, record=rng.choice([None, None, False]) if not run["rew"] else rng.choice([None, True])))
            else:
                run, day, nights, delay = random_cli(rng, rs)
                a = dict(keep=rng.random() < 0.4, telescope=rng.choice(["simonyi", "auxtel"]))
                if rng.random() < 0.5:
                    a.update(rng.choice([dict(scale=2.0), dict(scatter=60.0), dict(scale=0.5, scatter=200.0)]), seed=rng.choice([1, 7]))
                first = copy.deepcopy(run)
                tr.append(rs.cli(rng.choice(["d1", "d3", ""]), run, day, nights, delay, **a))
                if tr[-1]["ok"] and rng.random() < 0.5:
                    tr.append(rs.cli(rng.choice(["d2", ""]), first, day, nights, delay, again=tr[-1]["got"]["visits"], **a))
        traces.append(tr)
    ctx.oracle("VsRunTrace", traces, chunks=4)
