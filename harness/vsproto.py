"""The prototype (file based) archive: property A10 (specification VsProto)."""
import contextlib
import datetime
import hashlib
import io
import json
import os
import shutil
import warnings
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

from .archive import maximal
from .core import MachineryError

BASE = datetime.date(2021, 1, 1)
MJD0 = 59215  # MJD of BASE


def daynum(s):
    return (datetime.date.fromisoformat(str(s)) - BASE).days


def today():
    return (datetime.datetime.now(datetime.timezone.utc).date() - BASE).days


def iso(n):
    return (BASE + datetime.timedelta(days=n)).isoformat()


class Proto:
    def __init__(self, ctx):
        from rubin_sim.sim_archive import prototype

        os.environ["LSST_DISABLE_BUCKET_VALIDATION"] = "1"
        os.environ["USER"] = "root"
        self.ctx, self.P = ctx, prototype
        self.n = 0
        self.md5 = {}

    def reset(self):
        self.root = self.ctx.subdir("proto")
        self.src = self.ctx.subdir("src")
        self.uri = f"file://{self.root}/arch/"
        (self.root / "arch").mkdir()
        self.cache = f"file://{self.root}/cache.h5"
        self.entries = {}  # (day, n) -> {name: md5}
        self.names = {}
        self.nolabel = set()
        return dict(op="reset", today=today())

    def obs(self, first, last):
        from rubin_scheduler.scheduler.utils import ObservationArray

        self.n += 1
        k = 1 + self.n % 3
        o = ObservationArray(n=k)
        # a night is the UTC-12h date: the edges are just after noon and just before the next noon
        lo, hi = MJD0 + first + 0.5 + 0.001 * (self.n % 7), MJD0 + last + 1.499
        m = np.linspace(lo, hi, k) if k > 1 else np.array([lo if last > first else hi])
        if k == 1 and last > first:
            o = ObservationArray(n=2)
            m = np.array([lo, hi])
        o["mjd"] = m
        o["ID"] = range(len(m))
        o["RA"] = self.n % 11 / 10.0
        o["band"] = o["filter"] = "r"
        return o

    def build(self, s, broken):
        d = self.ctx.subdir("data")
        inf = {}
        want = []
        for t, name in s["files"]:
            p = self.src / f"{self.n}_{t}"
            p.mkdir(exist_ok=True)
            f = p / name
            f.write_text(f"{t} of {self.n} {s['label']}")
            inf[t] = str(f)
        kw = {}
        if s["kw"]:
            kw = dict(sim_start_mjd=MJD0 + s["first"] + 0.6, sim_duration=float(s["last"] - s["first"] + 1), record_rewards=False,
                      n_visit_limit=7)
            if s["kw"] == ["less"]:
                kw.pop("n_visit_limit"), kw.pop("record_rewards")
        md = {"telescope": s["tel"]} if s["tel"] else {}
        md["extra"] = f"value {s['label']}"
        if "2" in s["label"]:
            md["flag"] = True  # only some have it
        self.P.make_sim_archive_dir(self.obs(s["first"], s["last"]) if not s["kw"] else self.obs(s["first"] - 1, s["last"] + 2),
                                    in_files=inf, sim_runner_kwargs=kw, tags=list(s["tags"]), label=s["label"], data_path=d,
                                    opsim_metadata=md)
        m = yaml.safe_load((d / "sim_metadata.yaml").read_text())
        files = {}
        for t, f in m["files"].items():
            h = hashlib.md5((d / f["name"]).read_bytes()).hexdigest()
            files[t] = (f["name"], h)
            want.append([f["name"], h])
            if f["md5"] != h:
                self.ctx.violation("hash", f"recorded md5 of {t} is not that of the file")
        names = {t: Path(p).name for t, p in inf.items()}
        if {t: files.get(t, ("?",))[0] for t in names} != names or not {"observations", "statistics"} <= set(files):
            self.ctx.violation("files", f"files given {names}, recorded {files}")
        for t, p in inf.items():
            if files[t][1] != hashlib.md5(Path(p).read_bytes()).hexdigest():
                self.ctx.violation("content", f"file {t} does not hold the content it was given")
        want.append(["sim_metadata.yaml", hashlib.md5((d / "sim_metadata.yaml").read_bytes()).hexdigest()])
        if broken:
            victims = sorted(f[0] for f in files.values())
            os.unlink(d / victims[self.n % len(victims)])
        return d, files, want

    def tree(self):
        r = {}
        for p in sorted((self.root / "arch").rglob("*")):
            if p.is_file():
                r[str(p.relative_to(self.root / "arch"))] = hashlib.md5(p.read_bytes()).hexdigest()
        return r

    def add(self, s, broken=False):
        d, files, want = self.build(s, broken)
        before, dirs = self.tree(), self.dirs()
        ev = dict(op="addbad" if broken else "add", s=s, ok=True, n=0, day=-1, stored=[], want=want)
        try:
            r = self.P.transfer_archive_dir(str(d), self.uri)
            parts = r.ospath.rstrip("/").split("/")
            ev["n"], ev["day"] = int(parts[-1]), daynum(parts[-2])
        except MachineryError:
            raise
        except Exception as x:
            ev["ok"] = False
            ev["msg"] = f"{type(x).__name__}: {x}"[:200]
        new = self.dirs() - dirs
        if not ev["ok"]:
            if len(new) == 1:
                ev["n"] = int(list(new)[0].split("/")[1])
            elif len(new) > 1:
                ev["n"] = 99
        after = self.tree()
        mine = f"{iso(today())}/{ev['n']}/" if ev["n"] else "?"
        ev["others"] = {k: v for k, v in after.items() if not k.startswith(mine)} == before
        ev["stored"] = [[k[len(mine):], v] for k, v in after.items() if k.startswith(mine)]
        if ev["ok"]:
            s["files"] = [[t, a, b] for t, (a, b) in files.items()]
            self.entries[(ev["day"], ev["n"])] = {a: b for a, b in files.values()}
        else:
            s["files"] = []
        shutil.rmtree(d, ignore_errors=True)
        self.ctx.count(ev["op"])
        return ev

    def add_cli(self, s):
        """The same with the command line tool, which archives an existing database."""
        from rubin_scheduler.scheduler.utils import SchemaConverter

        self.n += 1
        p = self.ctx.subdir("cli")
        o = self.obs(s["first"], s["last"])
        SchemaConverter().obs2opsim(o, filename=str(p / "visits.db"))
        argv = [s["label"], str(p / "visits.db"), "--archive_base_uri", self.uri, "--telescope", s["tel"]]
        given = {}
        for t, name in s["files"]:
            f = p / name
            f.write_text(f"{t} of {self.n} {s['label']}")
            given[t] = (name, hashlib.md5(f.read_bytes()).hexdigest())
            argv += [f"--{t}", str(f)]
        if s["tags"]:
            argv += ["--tags"] + list(s["tags"])
        self.nolabel.add(s["label"])
        before = self.tree()
        ev = dict(op="add", s=s, ok=True, n=0, day=-1, stored=[], want=[], others=True)
        s["kw"] = []
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                r = self.P.make_sim_archive_cli(*argv)
            parts = r.ospath.rstrip("/").split("/")
            ev["n"], ev["day"] = int(parts[-1]), daynum(parts[-2])
            after = self.tree()
            mine = f"{iso(today())}/{ev['n']}/"
            ev["others"] = {k: v for k, v in after.items() if not k.startswith(mine)} == before
            stored = {k[len(mine):]: v for k, v in after.items() if k.startswith(mine)}
            m = yaml.safe_load((self.root / "arch" / mine / "sim_metadata.yaml").read_text())
            made = {t: (m["files"][t]["name"], m["files"][t]["md5"]) for t in ("observations", "statistics")}
            ev["stored"] = [[k, v] for k, v in stored.items()]
            ev["want"] = [list(x) for x in {**given, **made}.values()] + [["sim_metadata.yaml", stored.get("sim_metadata.yaml", "")]]
            s["files"] = [[t, a, b] for t, (a, b) in {**given, **made}.items()]
            self.entries[(ev["day"], ev["n"])] = {a: b for a, b in {**given, **made}.values()}
        except Exception as x:
            ev["ok"] = False
            ev["msg"] = f"{type(x).__name__}: {x}"[:200]
            s["files"] = []
        shutil.rmtree(p, ignore_errors=True)
        self.ctx.count("add by command line")
        return ev

    def dirs(self):
        a = self.root / "arch"
        return {f"{p.parent.name}/{p.name}" for p in a.glob("*/*") if p.is_dir()}

    def endday(self, day):
        a = self.root / "arch"
        t = today()
        (a / iso(t)).rename(a / iso(day))
        self.entries = {((day if k[0] == t else k[0]), k[1]): v for k, v in self.entries.items()}
        return dict(op="endday", day=day)

    def row(self, uri, m):
        parts = str(uri).rstrip("/").split("/")
        day, n = daynum(parts[-2]), int(parts[-1])
        lab = m.get("label", "?")
        pre = f"{parts[-2]}/{parts[-1]} "
        lab = lab[len(pre):] if lab.startswith(pre) else "?" + lab
        if m.get("extra") != f"value {lab}" and lab not in self.nolabel:
            lab += "?extra"
        if m.get("flag", "none") != (True if "2" in lab and lab not in self.nolabel else "none"):
            lab += "?flag"
        kw = m.get("sim_runner_kwargs") or {}
        k = []
        if kw:
            less = set(kw) == {"sim_start_mjd", "sim_duration"}
            ok = less or set(kw) == {"sim_start_mjd", "sim_duration", "record_rewards", "n_visit_limit"} and kw["record_rewards"] == False \
                and kw["n_visit_limit"] == 7  # noqa
            k = ["less" if less else "given"] if ok else ["?" + str(kw)[:100]]
        dates = m.get("simulated_dates", {})
        return dict(day=day, n=n, s=dict(label=lab, tags=list(m.get("tags") or []),
                                         files=[[t, f.get("name"), f.get("md5")] for t, f in m["files"].items()],
                                         tel=m.get("telescope") or "", first=daynum(dates["first"]), last=daynum(dates["last"]), kw=k))

    def ev(self, op, fn, **k):
        e = dict(op=op, **k)
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                e.update(fn())
            e["ok"] = True
        except MachineryError:
            raise
        except Exception as x:
            e["ok"] = False
            e["msg"] = f"{type(x).__name__}: {x}"[:200]
            for f in ("rows", "valid"):
                e.setdefault(f, [])
            e.setdefault("differences", -1)
        self.ctx.count(op)
        return e

    def list(self, latest, nights, cached, verify=False):
        kw = {}
        if cached:
            kw["compilation_resource"] = self.cache
            kw["verify_compilation"] = verify
        if latest is not None:
            kw["latest"] = iso(latest)
        f = lambda: dict(rows=[self.row(u, m) for u, m in self.P.read_archived_sim_metadata(self.uri, num_nights=nights, **kw).items()])
        return self.ev("list", f, latest=today() if latest is None else latest, nights=nights, cached=cached and not verify)

    def compile(self, append):
        return self.ev("compile", lambda: (self.P.compile_sim_metadata(self.uri, self.cache, append=append, **self.span()), {})[1], append=append)

    def span(self):
        # every recorded day is within the last 10 days; looking at the default 10000 nights takes 5 s
        return {} if self.ctx.rng.random() < 0.1 else dict(num_nights=40)

    def verify(self):
        return self.ev("verify", lambda: dict(differences=len(self.P.verify_compiled_sim_metadata(self.uri, self.cache, **self.span()))))

    def latest(self, q):
        def f():
            r = self.P.find_latest_prenight_sim_for_nights(
                iso(q["first"]), None if q["first"] == q["last"] and self.n % 2 else iso(q["last"]), tags=tuple(q["tags"]),
                telescope=q["tel"], max_simulation_age=q["age"], archive_uri=self.uri, compilation_uri=self.cache)
            if r is None:
                return dict(rows=[])
            row = self.row(r["uri"], r)
            if r["opsim_rp"].ospath != str(self.root / "arch" / iso(row["day"]) / str(row["n"]) / r["files"]["observations"]["name"]):
                row["s"]["label"] += "?opsim of another"
            return dict(rows=[row])

        return self.ev("latest", f, q=q)

    def damage(self, day, n):
        files = self.entries[(day, n)]
        name = self.ctx.rng.choice(sorted(files))
        p = self.root / "arch" / iso(day) / str(n) / name
        b = bytearray(p.read_bytes())
        b[len(b) // 2] ^= 1
        p.write_bytes(bytes(b))
        return dict(op="damage", day=day, n=n, file=name)

    def remove(self, day, n):
        shutil.rmtree(self.root / "arch" / iso(day) / str(n))
        del self.entries[(day, n)]
        return dict(op="remove", day=day, n=n)

    def check(self, day, n):
        f = lambda: dict(valid=[[k, bool(v)] for k, v in self.P.check_opsim_archive_resource(f"{self.uri}{iso(day)}/{n}/").items()])
        return self.ev("check", f, day=day, n=n, names=sorted(self.entries[(day, n)]))


def random_sim(rng, k, t):
    a = t + rng.randrange(-3, 3)
    return dict(label=f"sim {k}'s", tags=rng.choice([[], ["ideal", "nominal"], ["nominal"], ["ideal", "nominal", "x"]]),
                files=[[f"t{j}", f"file{j}.txt"] for j in range(rng.choice([0, 0, 1, 2]))], tel=rng.choice(["simonyi", "auxtel", ""]),
                first=a, last=a + rng.randrange(0, 3), kw=rng.choice([[], ["given"], ["less"]]))


def questions(pr, rng, compiled, n):
    t = today()
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.45:
            out.append(pr.list(rng.choice([None, t, t - 1, t - 3]), rng.choice([1, 2, 4, 12]), compiled and rng.random() < 0.6,
                               rng.random() < 0.3))
        elif k < 0.85:
            a = t + rng.randrange(-2, 3)
            out.append(pr.latest(dict(first=a, last=a + rng.choice([0, 0, 1]), tel=rng.choice(["simonyi", "auxtel"]),
                                      tags=rng.choice([[], ["ideal", "nominal"], ["nominal"]]), age=rng.choice([1, 3, 9]))))
        elif compiled:
            out.append(pr.verify())
    return out


def check_a10(ctx):
    warnings.simplefilter("ignore")
    for _ in range(2):
        d0 = today()
        traces = drive(ctx)
        if today() == d0:  # else the wall clock passed midnight: the recorded days are not comparable
            return ctx.oracle("VsProtoTrace", traces, chunks=4)
    raise MachineryError("date changed during the run")


def drive(ctx):
    pr = Proto(ctx)
    rng = ctx.rng
    r = ctx.design("VsProtoMC", constants=f" MaxOps = {ctx.pick(5, 7)}", invariants=["Inv"], view="View", workers=1)
    hs = maximal(r.printed)
    rng.shuffle(hs)
    hs = hs[: ctx.pick(22, 250)]
    ctx.extra["spec_generated_behaviours"] = len(hs)
    traces = []
    for h in hs:
        t = today()
        tr = [pr.reset()]
        compiled = False
        for e in h:
            e = json.loads(json.dumps(e))
            if "s" in e:
                e["s"]["first"] += t - 2
                e["s"]["last"] += t - 2
                if e["op"] == "addbad":
                    e["s"]["last"] = e["s"]["first"] = t
            if e["op"] in ("add", "addbad"):
                tr.append(pr.add(e["s"], e["op"] == "addbad"))
            elif e["op"] == "endday":
                tr.append(pr.endday(t - 10 + e["day"]))
            else:
                tr.append(pr.compile(e["append"]))
                compiled = True
        tr += questions(pr, rng, compiled, 3)
        traces.append(tr)
    for n in range(ctx.pick(14, 150)):
        t = today()
        tr = [pr.reset()]
        compiled = False
        k = 0
        busy = rng.choice([t - 1, t]) if n % 14 == 0 else None  # more than ten on one date
        for day in (t - 6, t - 3, t - 1, t):
            added = False
            for _ in range(12 if day == busy else rng.randrange(0, 4) if len(tr) > 3 else rng.randrange(1, 3)):
                k += 1
                x = random_sim(rng, k, t)
                if day == busy:  # all alike, so that only the number tells them apart
                    x.update(tel="", first=t - 2, last=t + 2, tags=["ideal", "nominal"])
                tr.append(pr.add(x, day != busy and rng.random() < 0.12))
                added = True
                here = sorted(e for e in pr.entries if e[0] == t)
                if len(here) > 1 and rng.random() < 0.15:
                    tr.append(pr.remove(*rng.choice(here[:-1])))
            if day < t and added:
                tr.append(pr.endday(day))
            if pr.entries and rng.random() < 0.6 and (day == t or all(x[0] < t for x in pr.entries)):
                tr.append(pr.compile(compiled and rng.random() < 0.6))
                compiled = True
            if day == t or all(x[0] < t for x in pr.entries):
                tr += questions(pr, rng, compiled, 3)
                if day == busy:
                    tr.append(pr.latest(dict(first=t, last=t, tel="simonyi", tags=["ideal", "nominal"], age=9)))
        if rng.random() < 0.4:
            k += 1
            x = dict(random_sim(rng, k, t), tel=rng.choice(["simonyi", "auxtel"]))
            x["files"] = [[a, f"my {a}.txt"] for a in rng.sample(["scheduler", "script", "notebook"], rng.randrange(0, 4))]
            tr.append(pr.add_cli(x))
            tr.append(pr.list(None, 3, False))
        tr += questions(pr, rng, compiled, 3)
        if pr.entries:
            if compiled and len(pr.entries) > 1:
                tr.append(pr.remove(*rng.choice(sorted(pr.entries))))
                tr += [pr.list(None, 12, False), pr.list(None, 12, True, True), pr.verify()]
            key = rng.choice(sorted(pr.entries))
            tr.append(pr.check(*key))
            tr.append(pr.damage(*key))
            for k2 in rng.sample(sorted(pr.entries), min(2, len(pr.entries))) + [key]:
                tr.append(pr.check(*k2))
        traces.append(tr)
    return traces
