"""Groups of moving object metric bundles: M07 (specification MoGroup)."""
import os
import shutil
import sqlite3

import numpy as np

from .metrics import quiet, shuffled

K = {}


def define():
    """Stackers and metrics whose meaning the specification states."""
    if K:
        return K
    from rubin_sim.maf.metrics.mo_metrics import BaseChildMetric, BaseMoMetric
    from rubin_sim.maf.stackers import BaseMoStacker

    def stacker(cls, col, reqs, fn):
        def __init__(self, p=0):
            self.p, self.cols_req, self.units = p, list(reqs), ["#"]

        def _run(self, sso_obs, href, hval):
            sso_obs[col] = fn(sso_obs, self.p, 2 * hval, 2 * href)  # (magnitudes are in halves in the specification)
            return sso_obs

        return type(BaseMoStacker)("VfMo" + cls, (BaseMoStacker,), dict(cols_added=[col], __init__=__init__, _run=_run, __module__=__name__))

    K["P"] = stacker("P", "xp", ["m"], lambda d, p, h, r: 2 * d["m"] + 10 * p + h - r)
    K["Q"] = stacker("Q", "xp", ["m"], lambda d, p, h, r: 4 * d["m"] + p + h)
    K["R"] = stacker("R", "xr", ["m"], lambda d, p, h, r: 6 * d["m"] - p + r)
    K["U"] = stacker("U", "xr", ["m"], lambda d, p, h, r: 10 * d["m"] + p - r)
    K["T"] = stacker("T", "xt", ["xr"], lambda d, p, h, r: d["xr"] + 100 * p + h)

    def value(m, d, orb, h):
        col, u = dict(app="appMag").get(m["col"], m["col"]), 2 if m["col"] in ("app", "m") else 1
        return {"ids": lambda: float(np.sum(2.0 ** d["k"])), "sum": lambda: float(u * np.sum(d[col])), "seen": lambda: float(np.sum(d["vis"])), "hval": lambda: float(2 * h), "orbit": lambda: float(2 * orb["H"])}[m["kind"]]()

    class VfMoOne(BaseMoMetric):
        def __init__(self, m, name):
            self.m = m
            super().__init__(metric_name=name, badval=m["bad"], cols=["m"] + [c for c in [m["col"]] if c and c != "app"])

        def run(self, sso_obs, orb, hval):
            return value(self.m, sso_obs, orb, hval)

    class VfMoChild(BaseChildMetric):
        def __init__(self, parent, m, name):
            self.m = m
            super().__init__(parent, badval=m["bad"], metric_name=name)

        def run(self, sso_obs, orb, hval, metric_values):
            if metric_values != dict(v=value(self.parent_metric.m, sso_obs, orb, hval)):
                raise RuntimeError("the child is not given its parent's value")
            return value(self.m, sso_obs, orb, hval)

    class VfMoParent(BaseMoMetric):
        def __init__(self, ms, name):
            self.m = ms[0]
            self.child_metrics = {str(k + 2): VfMoChild(self, m, f"{name} child {k + 2}") for k, m in enumerate(ms[1:])}
            super().__init__(metric_name=name, badval=ms[0]["bad"], cols=["m"] + [c for c in [ms[0]["col"]] if c and c != "app"])
            self.metric_dtype = "object"

        def run(self, sso_obs, orb, hval):
            v = value(self.m, sso_obs, orb, hval)
            return self.badval if v == self.badval else dict(v=v)

    class VfMoTotal(BaseMoMetric):
        def __init__(self):
            super().__init__(metric_name="VfTotal")

        def run(self, metric_vals, h_vals):
            return float(metric_vals.compressed().sum())

    K.update(One=VfMoOne, Parent=VfMoParent, Total=VfMoTotal)
    return K


def encode(v, data=None):
    """A table of values; an empty list where there is none."""
    def cell(x, masked):
        if masked:
            return []
        x = x["v"] if isinstance(x, dict) else x
        return [int(x)] if float(x) == int(x) else [str(x)]

    mask = np.ma.getmaskarray(v)
    return [[cell(v.data[i][j], mask[i][j]) for j in range(v.shape[1])] for i in range(v.shape[0])]


class Checks:
    def __init__(self, ctx):
        define()
        self.ctx, self.rng, self.evs, self.n = ctx, ctx.rng, [], 0

    def files(self, objs, obs, ids, where):
        """The orbits and the observations on disk."""
        with open(os.path.join(where, "orbits.des"), "w") as f:
            print("obj_id q e inc Omega argPeri tPeri epoch H", file=f)
            for o in objs:
                print(ids(o["id"]), 1.5 + o["id"], 0.25, 10, 20, 30, 59000, 60000, o["h"] / 2, file=f)
        col = lambda k, t=float: np.array([o[k] for o in obs], dtype=t)
        cols = dict(obj_id=np.array([ids(o["obj"]) for o in obs]), k=col("k"), night=col("night", int), band=np.array([o["band"] for o in obs]), m=col("m") / 2, magV=col("m") / 2, dmag_color=col("col") / 2,
                    dmag_detect=col("det") / 2, dmag_trail=col("tr") / 2, appMag=col("col") / 2 + 1, fiveSigmaDepth=col("m5") / 2, observationStartMJD=60000 + col("night"), dradt=col("k"), ddecdt=col("k"))
        a = np.rec.fromarrays(list(cols.values()), names=list(cols))
        np.savez(os.path.join(where, "obs.npz"), object_observations=a)

    def case(self, group, objs, obs, hs, only=None, other=None):
        import rubin_sim.maf as maf
        from rubin_sim.maf.metric_bundles import MoMetricBundle, MoMetricBundleGroup
        from rubin_sim.maf.slicers import MoObjSlicer
        from rubin_sim.maf.stackers import MoMagStacker

        rng = self.rng
        where = os.path.join(self.ctx.scratch, f"mo{self.n}")
        self.n += 1
        os.makedirs(where)
        ids = rng.choice([lambda i: i, lambda i: f"S{i}", lambda i: 1000 + i, lambda i: f"2030_A{i}", lambda i: "S" + "1" * i])
        self.files(objs, obs, ids, where)

        def slicer(hs=hs):
            s = MoObjSlicer(h_range=np.array(hs) / 2 if hs else None, verbose=False)
            s.setup_slicer(os.path.join(where, "orbits.des"), obs_file=os.path.join(where, "obs.npz"))
            return s

        shared = slicer()
        con = lambda c: {"all": None, "night": f"night < {c['n']}", "band": f"band == '{c['s']}'", "both": f"band == '{c['s']}' and night >= {c['n']}"}[c["kind"]]

        def mag(p):
            return MoMagStacker(magtype="given") if p == 2 else MoMagStacker(loss_col=["dmag_detect", "dmag_trail"][p])

        keepers = []
        e = dict(group=group, objs=objs, obs=obs, hs=hs or [], other=other or [], only=only or "", got=[], raised="", kept=True, ran=only is None)
        try:
            for k, b in enumerate(group):
                name = f"VfM{k}"
                metric = K["One"](b["m"][0], name) if len(b["m"]) == 1 else K["Parent"](b["m"], name)
                sts = [mag(s["p"]) if s["cls"] == "M" else K[s["cls"]](s["p"]) for s in b["st"]]
                if b["st"][-1] == dict(cls="M", p=0) and rng.random() < 0.3:
                    sts = sts[:-1] or rng.choice([None, []])
                keepers.append(MoMetricBundle(metric, slicer(other) if other and k == 0 else shared if rng.random() < 0.7 else slicer(), constraint=con(b["con"]) or rng.choice([None, ""]), stacker_list=sts, run_name="vf", info_label=f"label {k}", summary_metrics=K["Total"]()))
            out = os.path.join(where, "out")
            os.makedirs(out)
            db = maf.ResultsDb(out_dir=out)
            order = list(range(len(group)))
            rng.shuffle(order)
            g = MoMetricBundleGroup({f"b{k}": keepers[k] for k in order}, out_dir=out, results_db=db, verbose=False)
            before = g.slicer.all_obs.copy()
            if only is None:
                quiet(g.run_all)
            else:
                for c in {con(b["con"]) for b in group if b["con"]["kind"] == only}:
                    quiet(g.run_constraint, c)
            e["kept"] = bool(before.equals(g.slicer.all_obs))
            db.close()
            rows = sqlite3.connect(os.path.join(out, "resultsDb_sqlite.db")).execute(
                "select metric_name, metric_info_label, metric_datafile, summary_value from metrics left join summarystats using (metric_id)").fetchall()
            for k, b in enumerate(keepers):
                r = dict(values={}, files={}, sums={}, db={}, hs=[])
                e["got"].append(r)
                for j, x in [("1", b)] + list(b.child_bundles.items()):
                    if x.metric_values is None:
                        continue
                    r["values"][j] = encode(x.metric_values)
                    r["sums"][j] = [int(v) for v in (x.summary_values or {}).values()]
                    mine = [q for q in rows if q[0] == x.metric.name and q[1] == f"label {k}"]
                    r["db"][j] = [int(q[3]) for q in mine if q[3] is not None]
                    if len(mine) == 1 and mine[0][2]:
                        f = os.path.join(out, mine[0][2])
                        back = maf.create_empty_mo_metric_bundle()
                        quiet(back.read, f)
                        r["files"][j] = encode(back.metric_values)
                        r["hs"] = [int(2 * h) for h in back.slicer.slice_points["H"]]
        except Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                raise
            e["raised"] = repr(ex)[:200]
        shutil.rmtree(where)
        self.ctx.count("groups of %d" % len(group))
        self.evs.append([e])

    def world(self):
        rng = self.rng
        n = rng.randrange(1, 5)
        objs = [dict(id=i + 1, h=rng.randrange(5, 12)) for i in range(n)]
        obs = [dict(obj=rng.randrange(1, n + 1), k=k, night=rng.randrange(1, 4), band=rng.choice("gr"), m=rng.randrange(0, 6), col=rng.randrange(0, 3), det=rng.choice([0, 1, 40]), tr=rng.choice([0, 2, 40]), m5=20)
               for k in range(rng.randrange(1, 11))]
        hs = rng.choice([None, None, [7, 9], [10, 6, 8], [4], sorted(rng.sample(range(4, 13), 4))])
        return objs, shuffled(rng, obs), hs

    def bundle(self, like=None):
        """A random bundle, often similar to another one."""
        rng = self.rng
        S = lambda c, p: dict(cls=c, p=p)
        pool = [S(c, p) for c in "PQRUT" for p in (0, 1)]
        while True:
            st = rng.sample(pool, rng.randrange(0, 4))
            cls = [s["cls"] for s in st]
            if len(set(cls)) == len(cls) and not {"P", "Q"} <= set(cls) and not {"R", "U"} <= set(cls) and ("T" not in cls or {"R", "U"} & set(cls)):
                break
        st.sort(key=lambda s: "RUTPQ".index(s["cls"]))
        st.append(S("M", rng.choice([0, 0, 1, 2])))
        if like and rng.random() < 0.3:
            st = like["st"]
        con = like["con"] if like and rng.random() < 0.75 else rng.choice([dict(kind="all", n=0, s=""), dict(kind="night", n=rng.choice([2, 3]), s=""), dict(kind="band", n=0, s=rng.choice("gr")), dict(kind="both", n=2, s="g")])
        cols = ["app", "m"] + [dict(P="xp", Q="xp", R="xr", U="xr", T="xt")[s["cls"]] for s in st if s["cls"] != "M"]
        one = lambda: rng.choice([dict(kind="sum", col=rng.choice(cols), bad=rng.choice([0, 0, 3, 12])) for _ in range(3)] + [dict(kind=k, col="", bad=0) for k in ("ids", "seen", "hval", "orbit")])
        m = [one()] if rng.random() < 0.6 else [one() for _ in range(rng.choice([2, 3]))]
        return dict(con=con, st=st, m=m)


def check_m07(ctx):
    rng = ctx.rng
    r = ctx.design("MoGroupMC", "N = 2\nFull = FALSE", ["Own", "Once"])
    groups = [x["group"] for x in r.printed]
    if ctx.tier == "thorough":
        ctx.design("MoGroupMC", "N = 3\nFull = FALSE", ["Own", "Once"])
    C = Checks(ctx)
    for g in rng.sample(groups, ctx.pick(100, 900)):
        C.case(g, *C.world())
    for _ in range(ctx.pick(100, 900)):
        b = C.bundle()
        group = [b]
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 8])):
            group.append(C.bundle(rng.choice(group)))
        C.case(group, *C.world(), only=rng.choice([None, None, None, rng.choice(group)["con"]["kind"]]))
    for _ in range(ctx.pick(60, 300)):
        b = C.bundle()
        group = [b] + [dict(C.bundle(), con=b["con"]) for _ in range(rng.randrange(3, 9))]
        if rng.random() < 0.6:  # few stackers each, so that many can run together, and some not
            for x in group:
                s = rng.choice([[], [], [dict(cls=rng.choice("PQRU"), p=0)]])
                x.update(st=s + [dict(cls="M", p=0)], m=[dict(kind="sum", col=dict(P="xp", Q="xp", R="xr", U="xr")[s[0]["cls"]] if s else "app", bad=0)])
        C.case(group, *C.world())
    for _ in range(ctx.pick(12, 60)):
        objs, obs, hs = C.world()
        hs = hs or [7, 9, 12]
        other = rng.choice([[h + 1 for h in hs], hs[:-1] + [hs[-1] + 3], hs + [hs[-1] + 1]])
        C.case([C.bundle() for _ in range(2)], objs, obs, hs, other=other)
    ctx.oracle("MoGroupTrace", C.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
