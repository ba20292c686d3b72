"""Saved metric results and their export: properties M04, M08 (specification MafStore)."""
import contextlib
import inspect
import io
import itertools
import json
import os
import warnings

import numpy as np
import numpy.ma as ma

ATTR = {"lat_lon_deg": "latLonDeg", "rot_sky_pos_col_name": "rotSkyPosColName"}
SKIP = {"verbose", "leafsize", "force_no_ffmpeg", "bins", "bins_list", "bin_min", "bin_max", "bin_size", "ra", "dec"}


def tok(v):
    """A name for a value, the same whatever container it came out of."""
    if isinstance(v, ma.core.MaskedConstant):
        return "--"
    if isinstance(v, np.ndarray):
        return tok(v[()]) if v.ndim == 0 else "[" + ",".join(tok(x) for x in v) + "]"
    if isinstance(v, np.void):
        return "(" + ",".join(f"{n}:{tok(v[n])}" for n in v.dtype.names) + ")" if v.dtype.names else str(v)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(tok(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{tok(k)}:{tok(v[k])}" for k in sorted(v, key=str)) + "}"
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (float, np.floating)):
        return repr(float(v)) + ("" if isinstance(v, float) else f"/{v.dtype}")
    if isinstance(v, (int, np.integer)):
        return repr(int(v))
    if isinstance(v, str):
        return "'" + str(v) + "'"
    return repr(v)


def floats(v):
    """The same numbers, all as floating point ones."""
    if isinstance(v, dict):
        return {k: floats(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim):
        return [floats(x) for x in v]
    return float(v)


def pairs(d):
    return [] if d is None else [[str(k), tok(d[k])] for k in sorted(d, key=str)]


def describe(sl):
    """Everything a slicer tells about itself."""
    keys = [k for k in inspect.signature(type(sl).__init__).parameters if k not in SKIP | {"self"}]
    return dict(kind=type(sl).__name__, slicer=str(sl.slicer_name), settings=[[k, tok(getattr(sl, ATTR.get(k, k), "?"))] for k in sorted(keys)],
                points=pairs(sl.slice_points), nslice=tok(sl.nslice), shape=tok(sl.shape))


def values(mv):
    d, m = ma.getdata(mv), ma.getmaskarray(mv)
    flat, fm = list(d.reshape(-1)) if d.dtype != object else list(np.ravel(d)), m.reshape(-1)
    return dict(vals=["--" if b else tok(x) for x, b in zip(flat, fm)], dtype=str(d.dtype), dims=list(d.shape))


class Store:
    def __init__(self, ctx):
        import rubin_sim.maf as maf

        self.ctx, self.rng, self.maf, self.S = ctx, ctx.rng, maf, maf.slicers
        self.n = 0

    # -------------------------------------------------------------- inputs
    def configs(self):
        """Slicers of all kinds (kind, settings)."""
        out = [("UniSlicer", {}), ("UniSlicer", dict(badval=-1))]
        for b in [dict(bins=[0, 1, 2]), dict(bins=np.array([0.0, 1.0, 2.0])), dict(bins=[0, 1, 3]), dict(bin_min=0, bin_max=2, bin_size=1),
                  dict(bin_min=0, bin_max=2, bin_size=0.5), dict(bin_min=0, bin_max=3, bin_size=1), dict(bin_size=1), dict(bin_size=2), dict(),
                  dict(bin_min=1, bin_size=1), dict(bin_min=0, bin_max=4, bin_size=1)]:
            for col in ["x", "night"]:
                out.append(("OneDSlicer", dict(slice_col_name=col, **b)))
        out += [("OneDSlicer", dict(slice_col_name="x", bins=[0, 1, 2], badval=-5)),
                ("OneDSlicer", dict(slice_col_name="x", slice_col_units="m/s", bins=[0, 1, 2]))]
        for b in [dict(bins=[0, 1, 2]), dict(bins=[0, 1, 3]), dict(bin_min=0, bin_max=2, bin_size=1), dict(bin_size=1), dict(bin_min=0, bin_max=3, bin_size=1)]:
            for cum in [True, False]:
                out.append(("MovieSlicer", dict(slice_col_name="x", cumulative=cum, force_no_ffmpeg=True, **b)))
        out.append(("MovieSlicer", dict(slice_col_name="night", bins=[0, 1, 2], badval=-3, force_no_ffmpeg=True)))
        for cols, b in [(["x", "y"], [[0, 1, 2], [0, 2, 4]]), (["x", "y"], [np.array([0, 1, 2]), np.array([0, 2, 4])]), (["x", "y"], [[0, 1, 2], [0, 2, 5]]),
                        (["x", "y"], [[0, 1, 3], [0, 2, 4]]), (["y", "x"], [[0, 1, 2], [0, 2, 4]]), (["x", "y"], 2), (["x", "y"], 3), (["x", "y"], [2, 2]),
                        (["x", "y"], [[0, 1, 2], [0, 1, 2, 4]]), (["x"], [[0, 1, 2]]), (["x", "y", "night"], 2), (["x", "y"], [2, [0, 2, 4]])]:
            out.append(("NDSlicer", dict(slice_col_list=cols, bins_list=b)))
        sky = [dict(), dict(lon_col="ra2"), dict(lat_col="dec2"), dict(lat_lon_deg=False), dict(radius=40), dict(radius=20), dict(rot_sky_pos_col_name="rot2"),
               dict(badval=-7), dict(camera_radius=2.5), dict(camera_footprint_file="f.npz")]
        for k in sky:
            k = {"radius": 30, "use_camera": False, **k}
            out.append(("HealpixSlicer", dict(nside=1, verbose=False, **k)))
            out.append(("HealpixSubsetSlicer", dict(nside=1, hpid=[1, 4, 7], verbose=False, **k)))
            out.append(("UserPointsSlicer", dict(ra=[10.0, 50.0], dec=[-10.0, 20.0], verbose=False, **k)))
        k = dict(radius=30, use_camera=False, verbose=False)
        out += [("HealpixSlicer", dict(nside=2, **k)), ("HealpixSlicer", dict(nside=1, use_cache=False, **k)), ("HealpixSubsetSlicer", dict(nside=1, hpid=[1, 4], **k)),
                ("HealpixSubsetSlicer", dict(nside=2, hpid=[1, 4, 7], **k)), ("HealpixSubsetSlicer", dict(nside=1, hpid=np.array([1, 4, 8]), **k)),
                ("HealpixSubsetSlicer", dict(nside=1, hpid=[1, 4, 7], use_cache=False, **k)),
                ("UserPointsSlicer", dict(ra=[10.0, 51.0], dec=[-10.0, 20.0], **k)), ("UserPointsSlicer", dict(ra=[10.0, 50.0], dec=[-11.0, 20.0], **k)),
                ("UserPointsSlicer", dict(ra=[50.0, 10.0], dec=[20.0, -10.0], **k)), ("UserPointsSlicer", dict(ra=[10.0], dec=[-10.0], **k)),
                ("UserPointsSlicer", dict(ra=10.0, dec=-10.0, **k))]
        out += [("TimeIntervalSlicer", k) for k in [dict(interval_seconds=3600), dict(interval_seconds=7200), dict(interval_seconds=3600, mjd_column_name="mjd2"), dict(interval_seconds=3600, badval=-9)]]
        out += [("BlockIntervalSlicer", k) for k in [dict(), dict(mjd_column_name="mjd2"), dict(duration_column_name="dur2"), dict(note_column_name="note2"), dict(badval=-9)]]
        out += [("VisitIntervalSlicer", k) for k in [dict(), dict(mjd_column_name="mjd2"), dict(duration_column_name="dur2"), dict(extra_column_names=["x"]), dict(extra_column_names=["x", "y"]), dict(badval=-9)]]
        return out

    def make(self, cfg):
        kind, kw = cfg
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(self.S, kind)(**{k: (v.copy() if isinstance(v, np.ndarray) else [list(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v) for k, v in kw.items()})

    def visits(self, n):
        r = self.rng
        f = lambda c: np.array(c)
        a = dict(x=f([r.choice([0, 0.5, 1, 1.5, 2, 2.5]) for _ in range(n)]), y=f([float(r.randrange(5)) for _ in range(n)]),
                 night=f([r.randrange(4) for _ in range(n)]), observationStartMJD=f([60000 + r.randrange(64) / 32 for _ in range(n)]),
                 visitTime=f([float(r.choice([30, 34])) for _ in range(n)]), scheduler_note=f([r.choice(["a", "b"]) for _ in range(n)]),
                 fieldRA=f([r.uniform(0, 60) for _ in range(n)]), fieldDec=f([r.uniform(-30, 30) for _ in range(n)]), rotSkyPos=f([0.0] * n))
        a.update(mjd2=a["observationStartMJD"] + 0.25, dur2=a["visitTime"] + 1, note2=f([r.choice(["c", "d"]) for _ in range(n)]), ra2=a["fieldRA"][::-1].copy(),
                 dec2=a["fieldDec"][::-1].copy(), rot2=a["rotSkyPos"])
        out = np.zeros(n, dtype=[(k, v.dtype) for k, v in a.items()])
        for k in a:
            out[k] = a[k]
        return out

    def setup(self, sl, vs):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            vs = vs.copy()
            if not getattr(sl, "latLonDeg", True):
                for c in ("fieldRA", "fieldDec", "ra2", "dec2"):
                    vs[c] = np.radians(vs[c])
            sl.setup_slicer(vs)
        return sl

    def metric_values(self, shape, badval, types=None):
        r = self.rng
        n = int(np.prod(shape))
        t = r.choice(types or ["float", "float", "float32", "int", "str", "object", "vec"])
        if t == "int" and badval != badval:
            t = "float"
        pool = {"float": [0.0, -0.0, 1.5, float("nan"), float("inf"), 1e300, -666.0, badval, 1 / 3], "float32": [0.0, 1.5, 1 / 3, -7.25], "int": [0, 1, -666, 7, 2**40],
                "str": ["", "a", "b c", "Σ,é"], "object": [None, {"n": 1, "t": [1, 2]}, [1.0, 2], "s", 3, np.arange(3), (1, 2)]}
        if t == "vec":
            d = np.array([[r.choice(pool["float"]) for _ in range(2)] for _ in range(n)]).reshape(n, 2)
        elif t == "object":
            d = np.empty(n, object)
            for k in range(n):
                d[k] = r.choice(pool["object"])
        else:
            d = np.array([r.choice(pool[t]) for _ in range(n)], dtype={"float": float, "float32": np.float32, "int": int, "str": "U5"}[t])
        how = r.choice(["some", "some", "some", "none", "all"])
        m = {"some": [r.random() < 0.4 for _ in range(n)], "none": [False] * n, "all": [True] * n}[how]
        m = np.repeat(np.array(m)[:, None], 2, 1) if t == "vec" else np.array(m)
        return ma.MaskedArray(data=d, mask=m, fill_value=badval)

    # -------------------------------------------------------------- records
    def cast(self, mv, badval):
        return tok(ma.MaskedArray(data=ma.getdata(mv).copy(), fill_value=badval).fill_value)

    def rec(self, b, given):
        """A bundle in memory (what was given to make it, where known)."""
        g = given
        return dict(name=g.get("name", b.metric.name), run=g.get("run", b.run_name), constraint=tok(g.get("con", b.constraint)), label=g.get("label", b.info_label),
                    display=pairs(b.display_dict), plot=pairs(b.plot_dict), summary=pairs(b.summary_values), fill=tok(b.metric_values.fill_value),
                    badval=self.cast(b.metric_values, b.slicer.badval), **values(b.metric_values), **describe(b.slicer))

    def listing(self, root):
        return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs)

    def bundle(self, sl, run="run", name="m", con="", label=None, comment=None, **k):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = self.maf.metrics.CountMetric(col="x", metric_name=name)
            m.comment = comment
            return self.maf.MetricBundle(m, sl, con, run_name=run, info_label=label, **k)

    def write(self, b, root, d, given, suffix=""):
        rec = self.rec(b, given)
        (root / d).mkdir(exist_ok=True)
        b.write(out_dir=str(root / d), **({"outfile_suffix": suffix} if suffix else {}))
        return dict(op="write", dir=d, root=b.file_root, suffix=suffix, rec=rec, after=self.rec(b, given), listing=self.listing(root))

    def read(self, root, path, how=0):
        """Read a file as a bundle; returns it and the event."""
        f, d = str(root / path), path.split("/")[0]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if how == 0:
                b = self.maf.MetricBundle.load(f)
            elif how == 1:
                b = self.maf.create_empty_metric_bundle()
                b.read(f)
            else:  # into a bundle that held something else
                b = self.bundle(self.make(("OneDSlicer", dict(slice_col_name="x", bins=[0, 1]))), run="other", name="other", con="night < 3", label="other",
                                plot_dict={"title": "other"}, display_dict={"group": "other", "caption": "other"})
                b.metric_values, b.summary_values = ma.MaskedArray([1.0], mask=[True]), {"other": 1}
                b.read(f)
        rec = self.rec(b, {})
        return b, dict(op="read", path=path, dir=d, root=b.file_root, rec=rec, bundled=True, listing=self.listing(root))


TEXT = ["m", "Count x", "N(>5.0)", "a=b, c<d", "x/y\\z", "t: u; v", "50%#2", "a__b", "(r)", "", "Up per", "_lead", "trail_", "..", "a.npz"]
CONS = ["", "band = 'r'", 'band="i"', "filter = 'g' and night < 365", "night>1  and  night<3", "scheduler_note not like '%DD%'", "bandpass", " x = 1 ", "fiband'd'lter", "a == b"]


def check_m04(ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        _m04(ctx)


def _m04(ctx):
    st = Store(ctx)
    rng = ctx.rng
    r = ctx.design("MafStoreMC", "NB = 3\nDepth = 4", ["Located", "Distinct", "Held"])
    hists = list(r.printed)
    if ctx.thorough:
        ctx.bg(ctx.design, "MafStoreMC", "NB = 3\nDepth = 5", ["Located", "Distinct", "Held"], timeout=800)
    single, traces = [], []
    # Names and labels.
    names = list(itertools.product(["run", "a b", "v3.4_10yrs"], TEXT, ["r", "a (b) > 3", ""])) + [(x, "m", y) for x in TEXT for y in TEXT]
    for run, name, label in names if ctx.thorough else rng.sample(names, 120):
        kind = rng.choice(["UniSlicer", "OneDSlicer", "NDSlicer"])
        sl = st.make({"UniSlicer": ("UniSlicer", {}), "OneDSlicer": ("OneDSlicer", dict(slice_col_name="x", bins=[0, 1])), "NDSlicer": ("NDSlicer", dict(slice_col_list=["x"], bins_list=[[0, 1]]))}[kind])
        b = st.bundle(sl, run=run, name=name, label=label)
        single.append(dict(op="name", run=run, name=name, label=label, kind=kind, got=b.file_root))
        b.set_run_name(label)
        single.append(dict(op="name", run=label, name=name, label=label, kind=kind, got=b.file_root))
        ctx.count("name", 2)
    for con, label in itertools.product(CONS, [None, "given", ""]):
        b = st.bundle(st.make(("UniSlicer", {})), con=con, label=label)
        single.append(dict(op="label", con=con, given=label is not None, label=label or "", got=b.info_label))
        ctx.count("label")
    # Groups made from lists.
    for _ in range(ctx.pick(60, 300)):
        bs = [st.bundle(st.make(("UniSlicer", {})) if rng.random() < 0.7 else st.make(("OneDSlicer", dict(slice_col_name="x", bins=[0, 1]))),
                        run=rng.choice(["a", "b"]), name=rng.choice(["m", "m n", "m_n", "k"]), label=rng.choice(["r", "g", "(r)"])) for _ in range(rng.randrange(1, 4))]
        refused, keys = False, []
        try:
            g = st.maf.MetricBundleGroup(bs, None, out_dir=str(ctx.subdir("g")), results_db=None)
            keys = [k for k, b in g.bundle_dict.items()]
            if [id(x) for x in g.bundle_dict.values()] != [id(x) for x in bs]:
                keys = ["?"]
        except NameError:
            refused = True
        single.append(dict(op="group", roots=[b.file_root for b in bs], refused=refused, keys=keys))
        ctx.count("group")
    # Histories of the specification.
    for h in rng.sample(hists, ctx.pick(150, 1200)):
        root = ctx.subdir("h")
        t = [dict(op="reset")]
        mem = {}
        for k in (1, 2, 3):
            b = st.bundle(st.make(("UniSlicer", {})), run="a", name="m>1" if k <= 2 else "m2", label="l")
            b.metric_values = ma.MaskedArray([float(k)], mask=[k == 2], fill_value=-666)
            mem[k] = (b, dict(run="a", name=b.metric.name, label="l", con=""))
        ok = True
        for s in h:
            if s["op"] == "write":
                b, g = mem[s["b"]]
                t.append(st.write(b, root, s["d"], g))
            elif s["op"] == "read":
                if not (root / s["d"]).exists():
                    t.append(dict(op="read", path=s["d"], dir=s["d"][:2], root="", rec={}, bundled=True, listing=st.listing(root)))
                    ok = False
                else:
                    b, e = st.read(root, s["d"], rng.randrange(3))
                    mem[4] = (b, {})
                    t.append(e)
            elif s["op"] == "rename":
                b, g = mem[s["b"]]
                b.set_run_name(s["r"])
                mem[s["b"]] = (b, dict(g, run=s["r"]))
            else:
                mem[1][0].metric_values[0] += 10
            if not ok:
                break
        for f in st.listing(root) if ok else []:
            t.append(st.read(root, f)[1])
        traces.append(t)
        ctx.count("history")
    # All kinds of slicers, settings and values.
    cfgs = st.configs()
    sls = []
    for rep in range(ctx.pick(2, 8)):
        for c in cfgs:
            vs = st.visits(rng.choice([3, 5, 8]))
            sl = st.make(c)
            up = c[0] in ("HealpixSlicer", "HealpixSubsetSlicer", "UserPointsSlicer", "UniSlicer") and rng.random() < 0.5
            if not up and not ("camera_footprint_file" in c[1] or "camera_radius" in c[1]):
                st.setup(sl, vs)
                up = True
            if sl.shape is None:
                continue
            root = ctx.subdir("s")
            t = [dict(op="reset")]
            name, con, label = rng.choice(TEXT), rng.choice(CONS), rng.choice([None, "r", "x (y)"])
            b = st.bundle(sl, run=rng.choice(["a", "b 1.0"]), name=name, con=con, label=label, comment=rng.choice([None, "what it is", "é ü"]),
                          plot_dict=rng.choice([None, {"title": "T", "zp": 5.0}, {"units": "mag", "color_min": 0, "n_bins": 7}, {"percentile_clip": 95, "cbar_format": "%.2f"}]),
                          display_dict=rng.choice([None, {"group": "G", "subgroup": "s g", "order": 3, "caption": "A \"caption\", α"}, {"group": "H", "order": 1}]))
            b.metric_values = st.metric_values(sl.shape if not isinstance(sl.shape, tuple) else sl.shape, sl.badval)
            b.summary_values = rng.choice([None, {}, {"Mean": 1.5, "Count": 3}, {"Tbl": np.array([("a", 1.0), ("b", 2.0)], dtype=[("name", "U3"), ("value", float)]), "nan": float("nan")}])
            given = dict(name=name, run=b.run_name, con=con, **({"label": label} if label is not None else {}))
            suffix = rng.choice(["", "", "0001"])
            t.append(st.write(b, root, "d1", given, suffix))
            b2, e = st.read(root, st.listing(root)[0], rng.randrange(3))
            t.append(e)
            t.append(st.write(b2, root, "d2", {}))
            b3, e = st.read(root, [f for f in st.listing(root) if f.startswith("d2")][0], rng.randrange(3))
            t.append(e)
            # The slicer alone.
            mv = st.metric_values(sl.shape, sl.badval)
            plain = rng.random() < 0.3
            data = ma.getdata(mv) if plain else mv
            full = dict(metric_name="n", sim_data_name="s", constraint=con, info_label="i", plot_dict={"title": "T"}, display_dict={"group": "g"}, summary_values={"Mean": 1.0})
            part = {k: v for k, v in full.items() if rng.random() < 0.5}
            (root / "d3").mkdir()
            sl.write_data(str(root / "d3" / "f.npz"), data, **part)
            sdict = lambda h, mv, s: dict(name=h["metric_name"], run=h["sim_data_name"], constraint=tok(h["constraint"]), label=h["info_label"], display=pairs(h["display_dict"]),
                                          plot=pairs(h["plot_dict"]), summary=pairs(h["summary_values"]), fill=tok(mv.fill_value), badval="", **values(mv), **describe(s))
            h0 = dict(metric_name="", sim_data_name="", constraint=None, info_label="", plot_dict=None, display_dict={"group": "Ungrouped"}, summary_values=None)
            rec = sdict({**h0, **part}, ma.MaskedArray(data) if plain else mv, sl)
            t.append(dict(op="write", dir="d3", root="f", suffix="", rec=rec, after=rec, listing=st.listing(root)))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                mv2, sl2, hd = st.S.BaseSlicer().read_data(str(root / "d3" / "f.npz"))
            t.append(dict(op="read", path="d3/f.npz", dir="d3", root="f", rec=sdict(hd, mv2, sl2), bundled=False, listing=st.listing(root)))
            traces.append(t)
            ctx.count(c[0])
            # The restored slicer is the original one, and slices like it.
            for s2 in (b2.slicer, b3.slicer, sl2):
                sls.append((c, sl, s2))
            if "camera_footprint_file" not in c[1]:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    two = []
                    for s in (st.make(c), b2.slicer):
                        st.setup(s, vs)
                        two.append([[tok(x["idxs"]) for x in (s[k] for k in range(len(s)))], pairs(s.slice_points)])
                single.append(dict(op="again", first=two[0], second=two[1], config=tok(dict(c[1])), kind=c[0]))
                ctx.count("again")
    # Equality: every pair of configurations, before the setup and after.
    def entry(c, sl, up):
        kw = {k: v.default for k, v in inspect.signature(type(sl).__init__).parameters.items() if k != "self"}
        kw.update(c[1])
        if c[0] == "UserPointsSlicer":
            kw["ra"], kw["dec"] = np.atleast_1d(kw["ra"]), np.atleast_1d(kw["dec"])
        bins = {k: np.asarray(kw[k], float) if k == "bins" and kw[k] is not None else kw[k] for k in ("bins", "bin_min", "bin_max", "bin_size") if k in kw}
        if "bins_list" in kw:
            n = kw["bins_list"]
            bins = [np.asarray(x, float) for x in ([n] * len(kw["slice_col_list"]) if isinstance(n, (int, float)) else n)]
        points = {k: sl.slice_points[k] for k in (("bins",) if c[0] in ("OneDSlicer", "MovieSlicer", "NDSlicer") else ("sid", "mjd", "duration")) if k in sl.slice_points} if up else {}
        return dict(kind=c[0], set={k: tok(kw[k]) for k in kw if k not in SKIP - {"ra", "dec"}}, up=up, binning=tok(bins), points=tok(floats(points)),
                    given=isinstance(bins, list) or bins.get("bins") is not None)

    def compare(a, b, sa, sb):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            single.append(dict(op="eq", a=a, b=b, eq=bool(sa == sb), ne=bool(sa != sb)))
        ctx.count("eq")

    fresh = [(c, st.make(c)) for c in cfgs]
    fe = [entry(c, s, False) for c, s in fresh]
    vs = st.visits(6)
    ups = [(c, st.setup(st.make(c), vs)) for c in cfgs if "camera_footprint_file" not in c[1]]
    ue = [entry(c, s, True) for c, s in ups]
    allp = [(fe[i], fe[j], fresh[i][1], fresh[j][1]) for i in range(len(fe)) for j in range(len(fe))]
    allu = [(ue[i], ue[j], ups[i][1], ups[j][1]) for i in range(len(ue)) for j in range(len(ue))]
    same = [x for x in allp + allu if x[0]["kind"] == x[1]["kind"]]
    other = [x for x in allp + allu if x[0]["kind"] != x[1]["kind"]]
    for a, b, sa, sb in same + rng.sample(other, ctx.pick(300, 2000)):
        compare(a, b, sa, sb)
    for c, s1, s2 in sls:
        up = "bins" in s1.slice_points if c[0] in ("OneDSlicer", "MovieSlicer", "NDSlicer") else "mjd" in s1.slice_points
        compare(entry(c, s1, up), entry(c, s2, up), s1, s2)
        k = rng.randrange(len(fresh))
        if fe[k]["kind"] == c[0]:
            compare(fe[k], entry(c, s2, up), fresh[k][1], s2)
    for c, s in fresh:
        s2 = st.make(c)
        compare(entry(c, s, False), entry(c, s2, False), s, s2)
    ctx.oracle("MafStoreTrace", [[e] for e in single], key=lambda b: f"{b['event']['op']}:{'+'.join(b['clauses'])}:{b['event'].get('kind', b['event'].get('a', {}).get('kind', '') if b['event']['op'] == 'eq' else '')}")
    ctx.oracle("MafStoreTrace", traces, key=lambda b: f"{b['event']['op']}:{'+'.join(b['clauses'])}:{b['event'].get('rec', {}).get('kind', '')}")


def check_m08(ctx):
    with contextlib.redirect_stdout(io.StringIO()):
        exports(ctx)


def exports(ctx):
    st = Store(ctx)
    rng = ctx.rng
    ctx.design("MafStoreMC", "NB = 2\nDepth = 3", ["Located", "Distinct", "Held"])
    evs = []
    r9 = lambda v: repr(round(float(v), 9))
    for _ in range(ctx.pick(250, 2000)):
        kind = rng.choice(["bins", "sky", "one"])
        vs = st.visits(5)
        c = {"bins": ("OneDSlicer", dict(slice_col_name=rng.choice(["x", "night"]), slice_col_units=rng.choice([None, "m"]), bins=sorted(rng.sample([0, 0.5, 1, 1.5, 2, 4, 7], rng.randrange(2, 5))))),
             "one": ("UniSlicer", {}),
             "sky": rng.choice([("HealpixSlicer", dict(nside=1, use_camera=False, verbose=False)), ("HealpixSubsetSlicer", dict(nside=1, hpid=[0, 3, 5], use_camera=False, verbose=False)),
                                ("UserPointsSlicer", dict(ra=[10.0, 50.0, 300.0], dec=[-10.0, 20.0, -89.0], use_camera=False, verbose=False))])}[kind]
        sl = st.setup(st.make(c), vs)
        types = rng.choice([["float"], ["float"], ["int"], ["str", "object"]])
        n = int(sl.shape)
        name, label, run = rng.choice(["m", "Count x"]), rng.choice(["r", "", "g and i"]), rng.choice(["run", "v 3"])
        plot = {k: rng.choice(["T", "a b"]) for k in ("title", "xlabel", "ylabel") if rng.random() < 0.4}
        t, how = rng.choice(types), rng.choice(["bundle", "slicer", "plain", "results"])
        if t == "int" and how == "results":
            t = "float"  # no bundle that was run holds integers
        pool = {"float": [0.0, 1.5, 1 / 3, 1e10, -2.0, float("nan")], "int": [0, 1, -3, 12345678], "str": ["a"], "object": [{"a": 1}]}[t]
        vals = [rng.choice(pool) for _ in range(n)]
        dtype = {"float": float, "int": int, "str": "U3", "object": object}[t]
        d = np.empty(n, dtype)
        for k in range(n):
            d[k] = vals[k]
        mask = [rng.random() < 0.4 for _ in range(n)]
        if how == "plain":
            mask = [False] * n
        mv = d if how == "plain" else ma.MaskedArray(d, mask=mask, fill_value=-666 if t != "str" else "?")
        before = (tok(ma.getdata(mv)), tok(ma.getmaskarray(mv)))
        units = rng.choice(["-", "mag"])
        if how in ("bundle", "results"):
            b = st.bundle(sl, run=run, name=name, label=label, plot_dict={**plot, "units": "mag"})
            units = "mag"
            b.metric_values = mv
            if how == "bundle":
                js = b.output_json()
                got = None if js is None else js.getvalue()
            else:
                from rubin_sim.maf.db import ResultsDb
                from rubin_sim.maf.web import MafRunResults

                out = ctx.subdir("r")
                b.display_dict.update(group="g", subgroup="s")
                db = ResultsDb(out_dir=str(out))
                b.write(out_dir=str(out), results_db=db)
                other = st.bundle(st.make(("UniSlicer", {})), run=run, name="other", label=label, display_dict={"group": "g"})
                other.metric_values = ma.MaskedArray([4.0], mask=[False])
                other.write(out_dir=str(out), results_db=db)
                db.close()
                m = MafRunResults(str(out))
                got = m.get_json(m.metrics[m.metrics["metric_name"] == name])
        else:
            pd = {**plot, **({} if units == "-" else {"units": units})}
            if not pd and rng.random() < 0.5:
                pd, units = None, ""
            js = sl.output_json(mv, metric_name=name, sim_data_name=run, info_label=label, plot_dict=pd)
            got = None if js is None else js.getvalue()
        ctx.count(f"{how}:{kind}:{t}")
        if t in ("str", "object"):
            evs.append(dict(op="nojson", none=got is None))
            continue
        if got is None:
            evs.append(dict(op="nojson", none=False))
            continue
        header, data = json.loads(got)
        if kind == "bins":
            edges = [r9(x) for x in sl.slice_points["bins"]]
        evs.append(dict(op="json", kind=kind, edges=edges if kind == "bins" else [], lons=[r9(np.degrees(x)) for x in sl.slice_points["ra"]] if kind == "sky" else [],
                        lats=[r9(np.degrees(x)) for x in sl.slice_points["dec"]] if kind == "sky" else [], vals=[r9(v) for v in vals], mask=mask,
                        got=[[r9(x) if not (kind == "bins" and k == 1 and x == 0 and (j == n or mask[j])) else "0" for k, x in enumerate(row)] for j, row in enumerate(data)],
                        header={"title": "", "xlabel": "", "ylabel": "", **header}, name=name, label=label, run=run, slicer=c[0], n=n, title=plot.get("title", ""),
                        xlabel=plot.get("xlabel", ""), ylabel=plot.get("ylabel", ""), units=units, col=c[1].get("slice_col_name", ""), colunits=str(getattr(sl, "slice_col_units", "")) if c[1].get("slice_col_units") is None else c[1]["slice_col_units"],
                        unchanged=before == (tok(ma.getdata(mv)), tok(ma.getmaskarray(mv)))))
    ctx.oracle("MafStoreTrace", [[e] for e in evs], key=lambda b: f"{b['event']['op']}:{'+'.join(b['clauses'])}:{b['event'].get('slicer', '')}")
