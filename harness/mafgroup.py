"""Metric bundles and groups: properties M01, M05, M06 (specification MafGroup)."""
import os
import sqlite3
import warnings

import numpy as np

DBCOLS = ["id", "night", "band", "x", "y", "fieldRA", "fieldDec", "rotSkyPos"]
BADVAL = -999
K = {}  # classes defined on top of the real base classes


def par(s):
    """The parameter of a harness stacker, kept as its class does (see define)."""
    for name in ("p", "from_col", "scales", "radius", "factors", "filters"):
        if name in s.__dict__:
            v = s.__dict__[name]
            return int(v["p"] if isinstance(v, dict) else v[0] if isinstance(v, (list, np.ndarray)) else v)
    raise KeyError(type(s).__name__)


def define():
    """Stackers, maps and metrics whose meaning the specification states."""
    if K:
        return K
    import rubin_sim.maf as maf
    from rubin_sim.maf.maps import BaseMap
    from rubin_sim.maf.metrics import BaseMetric
    from rubin_sim.maf.metrics.base_metric import ColRegistry
    from rubin_sim.maf.stackers import BaseStacker, ColInfo

    def stacker(cls, adds, reqs, fn):
        # how the classes keep their parameter
        name, wrap = {"A": ("from_col", str), "B": ("scales", lambda p: np.array([p, 1, p])), "D": ("radius", float), "M": ("factors", lambda p: [p, 2]), "C": ("filters", lambda p: {"p": p})}.get(cls, ("p", int))

        def __init__(self, p=0):
            setattr(self, name, wrap(p))
            self.cols_req = list(reqs)
            self.cols_added_dtypes = None
            self.units = ["#"] * len(adds)

        def _run(self, sim_data, cols_present=False):
            if cols_present:
                return sim_data
            sim_data[adds[0]] = fn(sim_data, par(self))
            return sim_data

        return type(BaseStacker)("Vf" + cls, (BaseStacker,), dict(cols_added=adds, __init__=__init__, _run=_run, __module__=__name__))

    def nights(d, p):
        return [int((d["night"] == v).sum()) + p for v in d["night"]]

    K["A"] = stacker("A", ["xa"], ["x"], lambda d, p: d["x"] + 10 * p)
    K["B"] = stacker("B", ["xb"], ["xa"], lambda d, p: 2 * d["xa"] + p)
    K["D"] = stacker("D", ["xd"], ["night"], nights)
    K["E"] = stacker("E", ["xe"], ["xb", "xd"], lambda d, p: d["xb"] + d["xd"] + p)
    # These are the default sources of their columns ...
    info = ColInfo()
    maf.MetricBundle.col_info = info
    BaseMetric.col_info = info
    ColRegistry.col_info = info
    # ... while the following are only known to the bundles that list them.
    K["M"] = stacker("M", ["xa"], ["x"], lambda d, p: d["x"] * (p + 2))
    K["O"] = stacker("O", ["y"], ["y"], lambda d, p: d["y"] + 100 + p)
    K["C"] = stacker("C", ["xc"], ["y"], lambda d, p: d["y"] - p)
    K["N"] = stacker("N", ["xn"], ["x", "xa"], lambda d, p: 3 * d["x"] + d["xa"] + p)

    class VfP(BaseMap):
        def __init__(self):
            self.keynames = ["vp"]

        def run(self, slice_points):
            slice_points["vp"] = 3 + 10 * np.asarray(slice_points["sid"])
            return slice_points

    class VfQ(BaseMap):
        def __init__(self):
            self.keynames = ["vq"]

        def run(self, slice_points):
            slice_points["vq"] = 7 * np.asarray(slice_points["sid"])
            return slice_points

    class VfTwin(BaseMetric):
        def __init__(self, col, **kw):
            super().__init__(col=col, metric_dtype="object", **kw)

        def run(self, data_slice, slice_point=None):
            t = int(sum(data_slice[self.colname]))
            if t % 3 == 0:
                return self.badval
            return {"n": len(data_slice), "t": t}

        def reduce_total(self, v):
            return v["t"]

    class VfPair(VfTwin):
        def reduce_count(self, v):
            return v["n"]

        def reduce_odd(self, v):
            return self.badval if v["t"] % 2 == 0 else v["n"] * v["t"]

    class VfVec(BaseMetric):
        def __init__(self, col, **kw):
            super().__init__(col=col, metric_dtype="float", **kw)
            self.shape = 2

        def run(self, data_slice, slice_point=None):
            return np.array([len(data_slice), sum(data_slice[self.colname])], float)

    class VfBad(BaseMetric):
        def run(self, data_slice, slice_point=None):
            return self.badval if len(data_slice) % 2 else float(sum(data_slice[self.colname]))

    class VfMap(BaseMetric):
        def run(self, data_slice, slice_point=None):
            return len(data_slice) + slice_point.get("vp", 0) + slice_point.get("vq", 0)

    m = maf.metrics
    K.update(P=VfP, Q=VfQ, maf=maf)
    K["metrics"] = dict(pair=VfPair, twin=VfTwin, vec=VfVec, bad=VfBad, map=VfMap, count=m.CountMetric, sum=m.SumMetric,
                        max=m.MaxMetric, min=m.MinMetric, range=m.FullRangeMetric, median=m.MedianMetric,
                        unique=m.CountUniqueMetric)
    K["sums"] = dict(sum=m.SumMetric, max=m.MaxMetric, min=m.MinMetric, count=m.CountMetric,
                     unique=m.CountUniqueMetric, identity=m.IdentityMetric)
    return K


# ------------------------------------------------------------------ visits and bundles
def where(con):
    return dict(all="", night=f"night < {con['n']}", band=f"band = '{con['s']}'",
                both=f"band = '{con['s']}' and night >= {con['n']}")[con["kind"]]


def chosen(con, v):
    return dict(all=True, night=v["night"] < con["n"], band=v["band"] == con["s"],
                both=v["band"] == con["s"] and v["night"] >= con["n"])[con["kind"]]


def visits(rng, n):
    out = [dict(id=k, night=rng.randrange(6), band=rng.choice("gr"), x=rng.randrange(9), y=rng.randrange(10),
                fieldRA=rng.randrange(5), fieldDec=0, rotSkyPos=0) for k in range(n)]
    if rng.random() < 0.5:
        out.sort(key=lambda v: v["night"])
    return out


def database(path, vs):
    if os.path.exists(path):
        os.unlink(path)
    con = sqlite3.connect(path)
    con.execute("create table observations (id int, night int, band text, x int, y int, fieldRA real, fieldDec real, rotSkyPos real, spare real)")
    con.executemany("insert into observations values (?,?,?,?,?,?,?,?,0)", [[v[c] for c in DBCOLS] for v in vs])
    con.commit()
    con.close()
    return str(path)


def records(vs):
    dt = [("id", int), ("night", int), ("band", "U1"), ("x", int), ("y", int), ("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float)]
    return np.array([tuple(v[c] for c in DBCOLS) for v in vs], dtype=dt)


def make_slicer(s, quiet=True):
    S = K["maf"].slicers
    if s["kind"] == "uni":
        return S.UniSlicer()
    if s["kind"] == "oned":
        return S.OneDSlicer(slice_col_name=s["cols"][0], bins=list(s["edges"][0]), badval=BADVAL, verbose=False)
    if s["kind"] == "nd":
        sl = S.NDSlicer(slice_col_list=list(s["cols"]), bins_list=[np.array(b, float) for b in s["edges"]], verbose=False)
        return sl
    return S.UserPointsSlicer([float(p) for p in s["pts"]], [0.0] * len(s["pts"]), radius=s["radius"] / 100.0,
                              use_camera=False, badval=BADVAL, verbose=False)


def make_bundle(b, label, name, shared=None, run_name="run"):
    """The real bundle of a description."""
    key = repr((b["slicer"], sorted(b["maps"])))
    if shared is not None and key in shared:
        sl = shared[key]
    else:
        sl = make_slicer(b["slicer"])
        if shared is not None:
            shared[key] = sl
    metric = K["metrics"][b["metric"]["kind"]](col=b["metric"]["col"], metric_name=name)
    sums = []
    for s in b["sums"]:
        kw = dict(metric_name=s["name"])
        if s["mask"]:
            kw["mask_val"] = s["mask"][0]
        sums.append(K["sums"][s["kind"]](col="metricdata", **kw))
    stk = [K[s["cls"]](s["p"]) for s in b["stk"]]
    maps = [K[m]() for m in b["maps"]]
    kw = {}
    if stk or b["how"] % 2:
        kw["stacker_list"] = stk[0] if len(stk) == 1 and b["how"] % 3 == 0 else stk
    if maps:
        kw["maps_list"] = maps[0] if len(maps) == 1 and b["how"] % 3 == 1 else maps
    return K["maf"].MetricBundle(metric, sl, where(b["con"]), run_name=run_name, info_label=label,
                                 summary_metrics=sums, **kw)


def random_bundle(rng, con=None):
    kind = rng.choice(["count", "sum", "max", "min", "range", "median", "unique", "bad", "map", "pair", "twin", "vec"])
    sk = rng.choice(["uni", "oned", "oned", "nd", "points", "points"])
    stk = []
    p = lambda: rng.randrange(3)
    if rng.random() < 0.35:
        stk.append(dict(cls=rng.choice("AM"), p=p()))
    if rng.random() < 0.25:
        stk.append(dict(cls="B", p=p()))
    if rng.random() < 0.2:
        stk.append(dict(cls="D", p=p()))
    if rng.random() < 0.15:
        stk.append(dict(cls="E", p=p()))
    if rng.random() < 0.15:
        stk.append(dict(cls="N", p=p()))
    if rng.random() < 0.5:
        rng.shuffle(stk)
    over = rng.random() < 0.25
    if rng.random() < 0.2:
        stk.append(dict(cls="C", p=p()))
    if over:
        stk.insert(0, dict(cls="O", p=p()))
    cols = ["x", "y", "night", "xa", "xb", "xd", "xe"] + [c for c, k in (("xc", "C"), ("xn", "N")) if any(s["cls"] == k for s in stk)]
    edges = lambda: sorted(rng.sample(range(-1, 26), rng.randrange(2, 6)))
    sl = dict(kind=sk, cols=[], edges=[], pts=[], radius=0)
    if sk == "oned":
        sl.update(cols=[rng.choice(cols)], edges=[edges()])
    elif sk == "nd":
        sl.update(cols=[rng.choice(["x", "night", "y"]), rng.choice(["xa", "xd", "fieldRA"])], edges=[edges(), edges()])
    elif sk == "points":
        sl.update(pts=[rng.randrange(6) for _ in range(rng.randrange(1, 6))], radius=rng.choice([50, 150, 175, 250]))
    if con is None:
        con = rng.choice([dict(kind="all", n=0, s=""), dict(kind="night", n=rng.choice([0, 2, 3]), s=""),
                          dict(kind="band", n=0, s=rng.choice("gri")), dict(kind="both", n=2, s="r")])
    maps = [m for m in "PQ" if rng.random() < 0.4] if sk == "points" else []
    if rng.random() < 0.5:
        maps.reverse()
    return dict(metric=dict(kind=kind, col=rng.choice(cols)), slicer=sl, con=con, stk=stk, maps=maps)


def variant(rng, b):
    """A bundle close to b: most often one that could share its group."""
    c = random_bundle(rng, b["con"])
    c["slicer"] = b["slicer"] if rng.random() < 0.8 else c["slicer"]
    if c["slicer"]["kind"] != "points":
        c["maps"] = []
    elif rng.random() < 0.5 and b["slicer"]["kind"] == "points":
        c["maps"] = list(b["maps"])[::-1]
    if rng.random() < 0.4:
        c["stk"] = b["stk"]
    need = set(c["slicer"]["cols"]) | {c["metric"]["col"]}
    for col, k in (("xc", "C"), ("xn", "N")):
        if col in need and not any(s["cls"] == k for s in c["stk"]):
            c["stk"] = c["stk"] + [dict(cls=k, p=rng.randrange(3))]
    return c


def complete(rng, b):
    """Add summary metrics and how the bundle is made."""
    b = dict(b)
    kinds = []
    if b["metric"]["kind"] != "vec":
        for k in ("sum", "max", "min", "count", "unique"):
            if rng.random() < 0.3:
                kinds.append(dict(kind=k, mask=[], name="S" + k))
        for k in ("sum", "min", "count"):
            if rng.random() < 0.15:
                kinds.append(dict(kind=k, mask=[rng.randrange(4)], name="F" + k))
        if b["slicer"]["kind"] == "uni" and rng.random() < 0.5:
            kinds.append(dict(kind="identity", mask=[], name="Identity"))
        rng.shuffle(kinds)
    b["sums"] = kinds
    b["how"] = rng.randrange(6)
    return b


# ------------------------------------------------------------------ observations
def num(v, scale=2):
    v = float(v)
    s = v * scale
    return int(s) if np.isfinite(s) and s == int(s) and abs(s) < 2**31 else -777777


def observe(bundle, kind):
    mv = bundle.metric_values
    out = []
    mask = np.ma.getmaskarray(mv)
    for k in range(len(mv)):
        d = mv.data[k]
        if kind == "vec":
            m = np.atleast_1d(mask[k])
            out.append([] if m.all() else [-888888 if mm else num(x) for x, mm in zip(np.atleast_1d(d), m)])
        elif mask[k]:
            out.append([])
        elif kind in ("pair", "twin"):
            out.append([num(d["n"], 1), num(d["t"], 1)] if isinstance(d, dict) else [-777777])
        else:
            out.append([num(d)])
    return out


def summaries(values, slicer):
    out = []
    for name, v in (values or {}).items():
        a = np.atleast_1d(v)
        empty = a.size == 1 and float(a[0]) == float(slicer.badval)
        out.append(dict(name=str(name), val=[] if empty else [num(x) for x in a]))
    return out


def record_rows(path, label, name, con, slicer, run_name, badval):
    """Rows of the results database for one bundle (by its unique label)."""
    db = sqlite3.connect(path)
    out = []
    q = "select metric_id, metric_name, slicer_name, run_name, sql_constraint, metric_datafile from metrics where metric_info_label = ?"
    for mid, mname, sname, rname, c, f in db.execute(q, [label]):
        red = mname[len(name) + 1:] if mname.startswith(name + "_") else ("" if mname == name else "?" + mname)
        from rubin_sim.maf.utils import name_sanitize
        root = name_sanitize("_".join([run_name, mname, label, slicer[:4].upper()]))
        disp = db.execute("select count(*) from displays where metric_id = ?", [mid]).fetchone()[0]
        st = [dict(name=n, val=[] if v == badval else [num(v)])
              for n, v in db.execute("select summary_name, summary_value from summarystats where metric_id = ?", [mid])]
        out.append(dict(name=red, identity=sname == slicer and rname == run_name and c == where(con) and f == root + ".npz" and disp == 1, sums=st))
    db.close()
    return out


class Group:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        define()
        self.n = 0

    def run(self, descr, vs, mode, direct=False, shared=False, keyed=False, record=False, early=True, reload=False, names=None, clear=False):
        """Run a group of described bundles on visits; return one observation per bundle."""
        rng, maf = self.rng, K["maf"]
        self.n += 1
        out = self.ctx.subdir("g")
        names = names or [f"m{k}" for k in range(len(descr))]
        labels = [f"b{k}" for k in range(len(descr))]
        pool = {} if shared else None
        obs = [dict(b=b, visits=vs, mode=mode, error="", ran=False, present=False, obs=[], fill=True, red=[], sums=[],
                    rows=[], recorded=False, files=[], written=False) for b in descr]
        same = True
        resolved = []
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                bl = [make_bundle(b, l, n, pool) for b, l, n in zip(descr, labels, names)]
                resolved = [dict(cols=sorted(str(c) for c in b.db_cols),
                                 list=[dict(cls=s.__class__.__name__[2:], p=par(s)) for s in b.stacker_list]) for b in bl]
                rdb = maf.ResultsDb(out_dir=str(out)) if record else None
                path = database(str(out / "v.db"), vs)
                keys = [f"k{k}" for k in range(len(bl))] if keyed else [b.file_root for b in bl]
                given = dict(zip(keys, bl)) if keyed else bl
                g = maf.MetricBundleGroup(given, path, out_dir=str(out), results_db=rdb, save_early=early)
                if direct:
                    cons = {repr(d["con"]): d["con"] for d in descr}
                    for con in cons.values():
                        data = records([v for v in vs if chosen(con, v)])
                        keep = data.copy()
                        g.run_current(where(con), sim_data=data)
                        same = same and data.dtype == keep.dtype and np.array_equal(data, keep)
                else:
                    g.run_all(clear_memory=clear)
                ran = dict(g.has_run)
                if not early:
                    g.write_all() if all(b.metric_values is not None for b in bl) else None
                written = early or all(b.metric_values is not None for b in bl)
                if reload:
                    if written:
                        if early:
                            for b in g.bundle_dict.values():
                                if b.metric_values is not None:
                                    b.write(out_dir=str(out), results_db=rdb)
                        bl = [make_bundle(b, l, n, pool) for b, l, n in zip(descr, labels, names)]
                        g = maf.MetricBundleGroup(dict(zip(keys, bl)), path, out_dir=str(out), results_db=None)
                        g.read_all()
                    else:
                        return [], []
                for o, d, b, key, label, name in zip(obs, descr, bl, keys, labels, names):
                    o["ran"] = bool(ran.get(key))
                    o["present"] = b.metric_values is not None and (key in g.bundle_dict)
                    o["reload"] = reload
                    if not o["present"]:
                        o["present"] = False
                        if clear and o["ran"]:
                            o["cleared"] = True
                        continue
                    o["obs"] = observe(b, d["metric"]["kind"])
                    o["fill"] = bool(b.metric_values.fill_value == b.slicer.badval) if d["metric"]["kind"] not in ("pair", "twin") else True
                    o["sums"] = summaries(b.summary_values, b.slicer)
                    for x in g.bundle_dict.values():
                        if x is not b and x.info_label == label and x not in bl:
                            r = x.metric.name
                            r = r[len(name) + 1:] if r.startswith(name + "_") else "?" + r
                            o["red"].append(dict(name=r, obs=observe(x, "scalar"), sums=summaries(x.summary_values, x.slicer)))
                if not reload:
                    for o, d, b, label, name in zip(obs, descr, bl, labels, names):
                        if record:
                            o["recorded"] = True
                            o["rows"] = record_rows(str(out / "resultsDb_sqlite.db"), label, name, d["con"], b.slicer.slicer_name, "run", b.slicer.badval)
                        o["written"] = written
                        from rubin_sim.maf.utils import name_sanitize
                        mine = [name_sanitize("_".join(["run", name + s, label, b.slicer.slicer_name[:4].upper()])) + ".npz"
                                for s in ["", "_count", "_odd", "_total"]]
                        o["files"] = [s for s, f in zip(["", "count", "odd", "total"], mine) if (out / f).exists()]
        except Exception as x:
            import traceback
            msg = f"{type(x).__name__}: {x}"[:200] + " at " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(x.__traceback__)[-3:])
            for o in obs:
                o["error"] = msg
        finally:
            import shutil
            shutil.rmtree(str(out), ignore_errors=True)
        self.ctx.count(mode)
        self.same = same
        self.resolved = resolved
        return obs, resolved


VAL = ("op", "b", "visits", "mode", "error", "ran", "present", "obs", "fill")
RES = ("op", "b", "visits", "mode", "error", "red", "sums", "rows", "recorded", "files", "written")


def only(o, keys, op):
    o = dict(o, op=op)
    return {k: o[k] for k in keys}


def shapes(ctx, n):
    """The pairs of bundles that the design specification enumerated, and its verdict."""
    r = ctx.design("MafGroupMC", 'NBundles = 2\nPolicy = "full"', ["Independent", "Partition"])
    pairs = [p for p in r.printed]
    ctx.bg(ctx.design, "MafGroupMC", f'NBundles = {n}\nPolicy = "full"', ["Independent", "Partition"], timeout=800)
    # the rules are needed: without either of them TLC finds bundles that change each other
    for pol in ("nomaps", "noread"):
        cfg = ("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNBundles = 2\n" + f'Policy = "{pol}"\nINVARIANTS Independent\n')
        if ctx.tlc("MafGroupMC", cfg, fail_ok=True).error is None:
            from .core import MachineryError
            raise MachineryError(f"policy {pol} is not rejected")
    return pairs


def check_m01(ctx):
    rng = ctx.rng
    G = Group(ctx)
    pairs = shapes(ctx, ctx.pick(3, 4))
    evs = []

    def case(descr, nv, **k):
        vs = visits(rng, nv)
        descr = [complete(rng, d) for d in descr]
        for d in descr:
            d["sums"] = d["sums"] if rng.random() < 0.3 else []
        direct = rng.random() < 0.3
        names = [rng.choice(["m", "n"]) for _ in descr] if rng.random() < 0.3 else None
        obs, _ = G.run(descr, vs, "group", direct=direct, shared=rng.random() < 0.4, keyed=rng.random() < 0.5, names=names, **k)
        evs.extend([only(o, VAL, "values")] for o in obs)
        if direct:
            evs.append([dict(op="visits", same=bool(G.same))])
        if obs and rng.random() < 0.15:
            j = rng.randrange(len(descr))
            obs, _ = G.run([descr[j]], vs, "alone", direct=direct, names=[names[j]] if names else None)
            evs.extend([only(o, VAL, "values")] for o in obs)

    rng.shuffle(pairs)
    for p in pairs[: ctx.pick(260, 729)]:
        case([dict(b) for b in p], rng.randrange(1, 10))
    for _ in range(ctx.pick(220, 2500)):
        descr = [random_bundle(rng)]
        for _ in range(rng.randrange(1, 6)):
            descr.append(variant(rng, rng.choice(descr)) if rng.random() < 0.75 else random_bundle(rng))
        rng.shuffle(descr)
        case(descr, rng.choice([0, 1, 2, 4, 8, 12]))
    # many bundles on one slicer, of which only some get along
    pool = [([], "x"), ([], "y"), ([dict(cls="A", p=0)], "xa"), ([dict(cls="A", p=1)], "xa"), ([dict(cls="M", p=0)], "xa"), ([dict(cls="C", p=0)], "xc"),
            ([dict(cls="C", p=1)], "xc"), ([dict(cls="D", p=0)], "xd"), ([dict(cls="D", p=2)], "xd"), ([dict(cls="O", p=0)], "y"), ([dict(cls="B", p=1)], "xb")]
    for _ in range(ctx.pick(60, 600)):
        first = random_bundle(rng)
        if {"xc", "xn"} & set(first["slicer"]["cols"]):
            continue
        descr = []
        for _ in range(rng.randrange(4, 8)):
            stk, col = rng.choice(pool)
            descr.append(dict(first, stk=list(stk), metric=dict(kind=rng.choice(["sum", "max", "median", "range"]), col=col)))
        case(descr, rng.choice([4, 8]))
    ctx.extra["groups_run"] = G.n
    ctx.oracle("MafGroupTrace", evs, chunks=6, key=lambda b: f"{b['event']['op']}:{b['event'].get('mode', '')}:{'+'.join(b['clauses'])}")


# ------------------------------------------------------------------ M05
def check_m05(ctx):
    rng = ctx.rng
    G = Group(ctx)
    pairs = shapes(ctx, ctx.pick(3, 4))
    evs = []

    def case(descr, nv, mode):
        vs = visits(rng, nv)
        descr = [complete(rng, d) for d in descr]
        names = [rng.choice(["m", "n"]) for _ in descr] if rng.random() < 0.3 else None
        record, early = rng.random() < 0.8, rng.random() < 0.6
        obs, _ = G.run(descr, vs, mode, direct=rng.random() < 0.3, shared=rng.random() < 0.4, keyed=rng.random() < 0.5,
                       names=names, record=record, early=early, reload=mode == "reload")
        for o in obs:
            evs.append([only(o, VAL, "values")])
            evs.append([only(o, RES, "results")])

    rng.shuffle(pairs)
    for p in pairs[: ctx.pick(60, 300)]:
        case([dict(b) for b in p], rng.randrange(1, 10), "group")
    for k in range(ctx.pick(260, 2500)):
        descr = [random_bundle(rng)]
        for _ in range(rng.randrange(0, 4)):
            descr.append(variant(rng, rng.choice(descr)) if rng.random() < 0.7 else random_bundle(rng))
        for d in descr:
            if rng.random() < 0.35:
                d["metric"] = dict(d["metric"], kind=rng.choice(["pair", "twin"]))
        reload = k % 3 == 0
        if reload:  # object-valued results are read back too
            descr = [d for d in descr if d["metric"]["kind"] != "vec"] or [dict(random_bundle(rng), metric=dict(kind="sum", col="x"))]
        case(descr, rng.choice([0, 1, 2, 4, 8, 12]), "reload" if reload else "group")
    ctx.extra["groups_run"] = G.n
    ctx.oracle("MafGroupTrace", evs, chunks=6, key=lambda b: f"{b['event']['op']}:{b['event'].get('mode', '')}:{'+'.join(b['clauses'])}")


# ------------------------------------------------------------------ M06
REDO = {"WFDlabelStacker", "NEODistStacker", "SdssRADecStacker"}  # these say that they always recompute
MERGES = {"CoaddStacker"}  # merges the visits of a night
NEIGHBOURS = {"OverheadStacker"}  # a visit's value is relative to the visit before it
RANDOM = {"SNRStacker", "MoMagStacker"}
ALSO = {"DcrStacker": ["zenithDistance", "PA", "HA"], "Dcr2Stacker": ["zenithDistance", "PA", "HA"], "ParallacticAngleStacker": ["HA"]}


def column(rng, name, n):
    r = rng
    gen = dict(
        band=lambda: r.choice("ugrizy"), filter=lambda: r.choice("ugrizy"), night=lambda: r.randrange(4),
        fieldRA=lambda: r.uniform(0, 360), fieldDec=lambda: r.uniform(-75, 20), ra=lambda: r.uniform(0, 360), dec=lambda: r.uniform(-75, 75),
        observationStartMJD=lambda: 60000 + r.uniform(0, 3), observationStartLST=lambda: r.uniform(0, 360), altitude=lambda: r.uniform(25, 85),
        airmass=lambda: r.uniform(1.2, 2.4), seeingFwhmEff=lambda: r.uniform(.6, 2), seeingFwhmGeom=lambda: r.uniform(.6, 2), FWHMgeom=lambda: r.uniform(.6, 2),
        skyBrightness=lambda: r.choice([r.uniform(16, 22), r.uniform(5, 9)]), visitExposureTime=lambda: r.choice([15., 30., 38.]), visitTime=lambda: r.choice([17., 34.]),
        numExposures=lambda: r.choice([1, 2]), fiveSigmaDepth=lambda: r.uniform(22, 25), moonAlt=lambda: r.uniform(-1, 1), sunAlt=lambda: r.uniform(-1, -.2),
        solarElong=lambda: r.uniform(30, 180), sunAz=lambda: r.uniform(0, 360), azimuth=lambda: r.uniform(0, 360), scheduler_note=lambda: r.choice(["pair_33, a", "DD:COSMOS, x", "DD:u,ELAIS", "long", "a,b,c"]),
        magV=lambda: r.uniform(18, 26), dmag_color=lambda: r.uniform(-.5, .5), dmag_detect=lambda: r.uniform(0, .3), helio_dist=lambda: r.uniform(1, 4), geo_dist=lambda: r.uniform(.5, 3),
        phase=lambda: r.uniform(1, 60), appMag=lambda: r.uniform(18, 26))
    if name[0] == "p" and name[1:].isdigit():
        f = lambda: r.uniform(-90, 450)
    elif name in gen:
        f = gen[name]
    else:
        f = lambda: r.randrange(5)
    return [f() for _ in range(n)]


def table(cols):
    """A structured array of named lists."""
    dt, arrs = [], []
    for c, v in cols.items():
        a = np.array(v) if len(v) else np.array([], float)
        if a.dtype.kind == "U":
            a = a.astype("U20")
        dt.append((c, a.dtype))
        arrs.append(a)
    n = len(arrs[0])
    out = np.zeros(n, dtype=dt)
    for (c, _), a in zip(dt, arrs):
        out[c] = a
    return out


def content(a):
    import zlib
    names = list(a.dtype.names)
    return {str(c): format(zlib.crc32(repr([repr(x) for x in np.asarray(a[c]).tolist()]).encode()), "x") for c in names}


def classes(*cols):
    """Values as small integers, numbers within rounding of each other being the same."""
    flat = [x for col in cols for x in col]
    nums = sorted({float(x) for x in flat if isinstance(x, (int, float, np.number)) and not isinstance(x, bool) and np.isfinite(float(x))})
    cls, k, prev = {}, 0, None
    for x in nums:
        if prev is not None and x - prev > 1e-9 * max(1.0, abs(x)):
            k += 1
        cls[x] = k
        prev = x
    other = {}
    out = []
    for col in cols:
        o = []
        for x in col:
            if isinstance(x, (int, float, np.number)) and float(x) in cls:
                o.append(cls[float(x)])
            else:
                o.append(1000000 + other.setdefault(repr(x), len(other)))
        out.append(o)
    return out


def default_cols(cls):
    """The names of columns among the arguments of a stacker."""
    import inspect
    return {k: p.default for k, p in inspect.signature(cls.__init__).parameters.items()
            if k.endswith("_col") and isinstance(p.default, str)}


def stack_event(rng, name, cls, mo, n):
    import contextlib, io
    quiet = lambda: contextlib.redirect_stdout(io.StringIO())
    adds = list(cls.cols_added)
    kw, renamed = {}, {}
    rename = rng.random() < 0.4
    for k, c in default_cols(cls).items():
        if rename and c not in adds:
            kw[k] = "zz" + c
            renamed["zz" + c] = c
    if name == "SdssRADecStacker" and rename:
        kw["pcols"] = [f"zzp{k}" for k in range(1, 9)]
        renamed.update({f"zzp{k}": f"p{k}" for k in range(1, 9)})
    if name == "MoMagStacker" and rng.random() < 0.5:
        kw["magtype"] = rng.choice(["comet_short", "comet_oort"])
    if name == "WFDlabelStacker":
        import healpy as hp
        kw["footprint"] = np.repeat([float(rng.random() < 0.5) for _ in range(48)], hp.nside2npix(32) // 48)
        kw["exclude_dd"] = rng.random() < 0.5
    if name == "EclipticStacker":
        kw["subtract_sun_lon"] = rng.random() < 0.5
    if name == "SaturationStacker":  # the default values are in data files, which are not here
        kw["zeropoints"] = {f: 28.0 + k for k, f in enumerate("ugrizy")}
        kw["km"] = {f: 0.5 - k / 16 for k, f in enumerate("ugrizy")}
    if name == "TeffStacker":
        kw["normed"] = rng.random() < 0.5
    if name == "OverheadStacker" and rng.random() < 0.5:
        kw["max_gap"] = rng.choice([10.0, 600.0])
    e = dict(op="stack", cls=name, n=n, nout=0, error="", before={}, first={}, after={}, again={}, marked={}, keeping={}, forced={},
             adds=adds, also=ALSO.get(name, []), redo=mo or name in REDO, merges=name in MERGES, local=name not in NEIGHBOURS | MERGES | RANDOM,
             rows=[], perm=[], shuffled=[], renamed=False, plain={}, renamedgave={})
    run = lambda s, d, **k: s.run(d, 20.0, 19.5) if mo else s.run(d, **k)
    try:
        with warnings.catch_warnings(), quiet(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            s = cls(**kw)
            req = list(dict.fromkeys(s.cols_req))
            base = {}
            for c in req + ["night", "spare"]:
                if c not in base and (c not in adds or c in req):
                    base[c] = column(rng, renamed.get(c, c), n)
            for c in base:
                if renamed.get(c, c) == "observationStartMJD" and rng.random() < 0.8:
                    base[c] = sorted(base[c])
            if not base:
                base = {"spare": column(rng, "spare", n)}
            d = table(base)
            e["before"] = content(d)
            got = np.asarray(run(s, d.copy()))
            keep = d.copy()
            first = np.asarray(run(cls(**kw), keep))
            e["after"] = content(keep)
            e["first"], e["nout"] = content(first), len(first)
            e["again"] = content(got) if name in RANDOM else content(np.asarray(run(s, d.copy())))
            if name in RANDOM:
                e["again"] = content(np.asarray(run(cls(**kw), d.copy())))
            if e["n"] > 0:
                # columns that are already there, with other contents
                m = first.copy()
                for c in adds:
                    if c in req:
                        continue
                    v = m[c]
                    m[c] = v[::-1] if v.dtype.kind in "OUM" else v + 1
                e["marked"] = content(m)
                e["keeping"] = content(np.asarray(run(cls(**kw), m.copy())))
                e["forced"] = content(np.asarray(run(cls(**kw), m.copy(), override=True)))
            if e["local"]:
                p = rng.sample(range(n), rng.randrange(1, n + 1)) if n else []
                sub = np.asarray(run(cls(**kw), d[p])) if p else None
                A, B = [], []
                for c in adds:
                    if p:
                        a, b = classes(list(first[c].tolist()), list(sub[c].tolist()))
                        A.append(a)
                        B.append(b)
                e["rows"] = [[a[k] for a in A] for k in range(n)] if p else []
                e["shuffled"] = [[b[k] for b in B] for k in range(len(p))]
                e["perm"] = [k + 1 for k in p]
            if rename and not kw.get("magtype"):
                kw2 = {k: v for k, v in kw.items() if not (k.endswith("_col") or k == "pcols")}
                d2 = table({renamed.get(c, c): v for c, v in base.items()})
                two = np.asarray(run(cls(**kw2), d2))
                e["renamed"] = True
                e["plain"] = {c: content(two).get(c, "missing") for c in adds}
                e["renamedgave"] = {c: e["first"].get(c, "missing") for c in adds}
    except Exception as x:
        import traceback
        e["error"] = f"{type(x).__name__}: {x}"[:200] + " at " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(x.__traceback__)[-3:])
    return e


def registry_event(rng, real):
    maf = K["maf"]
    names = [n for n, c in real.items() if not c.__mro__[1].__name__ == "BaseMoStacker"]
    derived = sorted({c for n in names for c in real[n].cols_added})
    plain = ["fieldRA", "fieldDec", "night", "altitude", "airmass", "filter", "band", "spare"]
    given = rng.sample(names, rng.choice([0, 0, 1, 1, 2, 3]))
    pickcol = lambda: rng.choice(derived) if rng.random() < 0.7 else rng.choice(plain)
    mcols = [pickcol() for _ in range(rng.choice([1, 1, 2, 3]))]
    scol = [pickcol() for _ in range(rng.choice([0, 1, 2]))]
    e = dict(op="registry", cols=sorted(set(mcols + scol)), given=given, list=[], dbcols=[], classes={}, error="")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in names:
            o = real[n]()
            e["classes"][n] = dict(adds=list(o.cols_added), reqs=sorted(set(o.cols_req)))
        try:
            metric = maf.PassMetric(cols=mcols) if len(mcols) > 1 else maf.CountMetric(col=mcols[0])
            if len(scol) == 2 and scol[0] != scol[1]:
                sl = maf.NDSlicer(slice_col_list=scol, bins_list=[2, 2], verbose=False)
            elif scol:
                sl = maf.OneDSlicer(slice_col_name=scol[0], bins=[0, 1, 2], verbose=False)
                e["cols"] = sorted(set(mcols + scol[:1]))
            else:
                sl = maf.UniSlicer()
            kw = {"stacker_list": [real[n]() for n in given]} if given else {}
            b = maf.MetricBundle(metric, sl, "", **kw)
            e["list"] = [type(s).__name__ for s in b.stacker_list]
            e["dbcols"] = sorted(str(c) for c in b.db_cols)
        except Exception as x:
            e["error"] = f"{type(x).__name__}: {x}"[:200]
    return e


def check_m06(ctx):
    rng = ctx.rng
    define()
    from rubin_sim.maf.stackers import BaseStacker
    from rubin_sim.maf.stackers.mo_stackers import BaseMoStacker
    real = {n: c for n, c in BaseStacker.registry.items() if c.__module__.startswith("rubin_sim.maf.stackers") and c.__name__ != "BaseMoStacker"}
    mine = {k: K[k] for k in "ABDEMOCN"}
    evs = []
    ctx.bg(ctx.design, "MafGroupMC", 'NBundles = 2\nPolicy = "full"', ["Independent", "Partition"], timeout=800)
    # what bundles ask for, with harness stackers
    G = Group(ctx)
    for _ in range(ctx.pick(900, 6000)):
        b = complete(rng, random_bundle(rng))
        e = dict(op="resolve", b=b, cols=[], list=[], error="")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = make_bundle(b, "l", "m")
                e["cols"] = sorted(str(c) for c in r.db_cols)
                e["list"] = [dict(cls=s.__class__.__name__[2:], p=par(s)) for s in r.stacker_list]
        except Exception as x:
            e["error"] = f"{type(x).__name__}: {x}"[:200]
        evs.append([e])
    # ... and with the real ones
    for _ in range(ctx.pick(500, 4000)):
        evs.append([registry_event(rng, real)])
    for _ in range(ctx.pick(8, 40)):
        for n, c in real.items():
            if n == "AppMagNullStacker":
                continue
            evs.append([stack_event(rng, n, c, issubclass(c, BaseMoStacker), rng.choice([0, 1, 2, 3, 5, 8]))])
    for _ in range(ctx.pick(12, 60)):
        for n, c in mine.items():
            e = stack_event(rng, "Vf" + n, c, False, rng.choice([0, 1, 2, 3, 5, 8]))
            e["local"] = n != "D"
            if n == "O":
                e["local"] = False
            evs.append([e])
    # groups: the columns are asked for in one query, and each stacker finds its inputs
    for _ in range(ctx.pick(60, 600)):
        vs = visits(rng, rng.choice([1, 4, 8]))
        descr = [random_bundle(rng)]
        for _ in range(rng.randrange(0, 3)):
            descr.append(variant(rng, rng.choice(descr)))
        obs, _ = G.run([dict(complete(rng, d), sums=[]) for d in descr], vs, "group")
        evs.extend([only(o, VAL, "values")] for o in obs)
    ctx.extra["stackers"] = sorted(real)
    ctx.oracle("MafGroupTrace", evs, chunks=6, key=lambda b: f"{b['event']['op']}:{b['event'].get('cls', '')}:{'+'.join(b['clauses'])}")
