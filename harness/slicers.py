"""Slicers: property M03 (specification Slicers)."""
import warnings

import numpy as np

DAY = 1024  # time unit: 1/1024 day, exact in floating point
MJD0 = 60000


def ints(x):
    return [int(v) + 1 for v in np.atleast_1d(np.asarray(x)).tolist()]


def visits(**cols):
    n = len(next(iter(cols.values())))
    dt = [(c, ("U20" if isinstance(v[0], str) else type(v[0]) if isinstance(v[0], (int, float)) else float)) for c, v in cols.items()]
    a = np.zeros(n, dtype=dt)
    for c, v in cols.items():
        a[c] = v
    return a


def ranks(*lists):
    """Order preserving integers for floating point numbers."""
    u = sorted({float(x) for s in lists for x in s})
    pos = {x: k for k, x in enumerate(u)}
    return [[pos[float(x)] for x in s] for s in lists]


class Run:
    def __init__(self, ctx):
        from rubin_sim.maf import slicers as S

        self.ctx, self.rng, self.S = ctx, ctx.rng, S

    def slices(self, sl, n, ids=None):
        """Every slice, by index and by iteration."""
        at = [sl[k] for k in (range(len(sl)) if ids is None else ids)]
        boolean = lambda x: np.asarray(x).dtype == bool
        out = []
        for s in at:
            x = s["idxs"]
            out.append([int(k) + 1 for k in np.where(x)[0]] if boolean(x) else ints(x))
        ok = True
        if ids is None:
            it = list(sl)
            ok = len(it) == len(at) and all(np.array_equal(np.atleast_1d(a["idxs"]), np.atleast_1d(b["idxs"])) for a, b in zip(at, it))
        return out, [s["slice_point"] for s in at], ok

    def event(self, op, make, data, fill, before=None, again=None, **k):
        """Set the slicer up (after another set of visits, if given) and describe its slices."""
        e = dict(op=op, asked="", reported="", consistent=True, slices=[], points=[], edges=[], idxs=[], again=again is not None, **k)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sl = make()
                if again is not None:
                    sl.setup_slicer(again)
                    [sl[j] for j in range(len(sl))]
                keep = data.copy()
                sl.setup_slicer(data)
                fill(e, sl)
                e["consistent"] = e["consistent"] and bool(np.array_equal(keep, data))
            e["ok"] = True
        except Exception as x:
            e.update(ok=False, msg=f"{type(x).__name__}: {x}"[:300])
        self.ctx.count(op)
        return e

    # ------------------------------------------------------------ one column
    def binned(self, vals, kind, edges=None, again=None):
        rng, S = self.rng, self.S
        vals = [float(v) for v in vals]
        col = rng.choice(["airmass", "night", "x"])
        kw = dict(slice_col_name=col)
        asked = None
        k = rng.random()
        if edges is not None:
            asked = [float(x) for x in edges]
            step = asked[1] - asked[0]
            if k < 0.3 and all(b - a == step for a, b in zip(asked, asked[1:])):
                kw.update(bin_min=asked[0], bin_max=asked[-1], bin_size=step)
            else:
                kw["bins"] = np.array(asked) if rng.random() < 0.7 else list(asked)
                if kind != "oned" and rng.random() < 0.4:
                    kw["bins"] = np.array(rng.sample(asked, len(asked)))
        elif k < 0.3:
            kw.update(bin_size=rng.choice([0.25, 0.5, 1.0, 2.0]))
        elif k < 0.5:
            low = [x for x in (-1.0, 0.0, 1.0) if x <= max(vals) and (again is None or x <= max(again))]  # no inverted ranges
            if low:
                kw.update(bin_min=rng.choice(low), bin_size=rng.choice([0.5, 1.0]))
        elif k < 0.7 and kind != "oned":
            kw["bins"] = rng.choice([1, 3, 7])
        if kind == "oned":
            cls = lambda: S.OneDSlicer(**kw)
        else:
            c = kind == "cumulative"
            cls = lambda: S.MovieSlicer(cumulative=c, force_no_ffmpeg=True, **kw)
        mk = lambda vs: visits(**{col: vs, "other": [0.0] * len(vs)})

        def fill(e, sl):
            sls, pts, e["consistent"] = self.slices(sl, len(vals))
            rep = [float(x) for x in sl.slice_points["bins"]]
            if asked is not None:
                e["asked"], e["reported"] = str(asked), str(rep)
            rv, re = ranks(vals, rep)
            e["vals"], e["edges"] = rv, re
            left = [rep[0] if kind == "cumulative" else x for x in rep[:-1]]
            e["consistent"] = e["consistent"] and [p["bin_left"] for p in pts] == left and [p["bin_right"] for p in pts] == rep[1:] \
                and [p["sid"] for p in pts] == list(range(len(pts)))
            if asked is None and "bin_min" not in kw and again is None:
                e["consistent"] = e["consistent"] and rep[0] == min(vals)
            e["slices"] = sls

        return self.event(kind, cls, mk(vals), fill, again=None if again is None else mk([float(x) for x in again]), vals=[int(4 * v) for v in vals], kw=str(kw))

    def nd(self, n, again=False):
        rng, S = self.rng, self.S
        d = rng.choice([1, 2, 2, 3])
        names = rng.sample(["airmass", "fieldDec", "x"], d)
        cols = {c: [rng.randrange(-2, 9) / 2 for _ in range(n)] for c in names}
        bl = []
        for c in names:
            if rng.random() < 0.35:
                bl.append(rng.choice([1, 2, 4]))
            else:
                b = sorted(rng.sample([x / 2 for x in range(-2, 9)], rng.randrange(2, 5)))
                bl.append(np.array(b if rng.random() < 0.7 else rng.sample(b, len(b))))
        one = rng.random() < 0.15
        arg = 3 if one else bl
        asked = [3] * d if one else bl

        def fill(e, sl):
            sls, pts, e["consistent"] = self.slices(sl, n)
            edges = []
            for j, c in enumerate(names):
                lefts = sorted({p["bin_left"][j] for p in pts})
                a = asked[j]
                if isinstance(a, int):
                    lo, hi = min(cols[c]), max(cols[c])
                    hi = hi + 1 if hi == lo else hi
                    e["consistent"] = e["consistent"] and len(lefts) == a and lefts[0] == lo and np.allclose(np.diff(lefts), (hi - lo) / a)
                    edges.append(lefts + [max(hi, lefts[-1]) + 1])
                else:
                    e["consistent"] = e["consistent"] and list(np.sort(a)[:-1]) == lefts
                    edges.append([float(x) for x in np.sort(a)])
            r = [ranks(cols[c], ed) for c, ed in zip(names, edges)]
            e["cols"], e["edges"] = [x[0] for x in r], [x[1] for x in r]
            e["idxs"] = [[int(x) + 1 for x in p["bin_idxs"]] for p in pts]
            e["consistent"] = bool(e["consistent"]) and [p["sid"] for p in pts] == list(range(len(pts))) and all(
                tuple(p["bin_left"]) == tuple(edges[j][p["bin_idxs"][j]] for j in range(d)) for p in pts)
            e["slices"] = sls

        ag = visits(**{c: [rng.randrange(-2, 9) / 2 for _ in range(4)] for c in names}) if again else None
        return self.event("nd", lambda: S.NDSlicer(names, arg), visits(**cols), fill, again=ag, vals=[], raw={c: str(v) for c, v in cols.items()}, kw=str(arg))

    # ------------------------------------------------------------ time
    def times(self, n, distinct=False, spread=2):
        rng = self.rng
        out = []
        while len(out) < n:
            t = rng.randrange(spread * 16) * 64 if rng.random() < 0.3 else rng.randrange(spread * DAY)
            if not (distinct and t in out):
                out.append(t)
        return out

    def interval(self, again=False):
        rng, S = self.rng, self.S
        t = self.times(rng.choice([1, 2, 5, 9]))
        off = rng.choice([0, 0, DAY, 3 * DAY // 2])
        t = [x + off for x in t]
        col = rng.choice(["observationStartMJD", "mjd"])
        step = rng.choice([32, 64, 96, 256, 40, 1024, 1500])
        mk = lambda t: visits(**{col: [MJD0 + x / DAY for x in t], "o": [1] * len(t)})

        def fill(e, sl):
            e["slices"], pts, e["consistent"] = self.slices(sl, len(t))
            e["points"] = [[int(round((p["mjd"] - MJD0) * DAY)), int(round(p["duration"] * DAY / 86400))] for p in pts]

        return self.event("interval", lambda: S.TimeIntervalSlicer(interval_seconds=step * 86400 / DAY, mjd_column_name=col), mk(t), fill, day=DAY, step=step, vals=t,
                          again=mk(self.times(4, spread=3)) if again else None)

    def block(self, again=False):
        rng, S = self.rng, self.S
        kw = dict(rng.choice([{}, dict(mjd_column_name="m", duration_column_name="d", note_column_name="n")]))
        m, d, nt = kw.get("mjd_column_name", "observationStartMJD"), kw.get("duration_column_name", "visitTime"), kw.get("note_column_name", "scheduler_note")

        def make():
            t, cur = [], rng.randrange(50)
            for _ in range(rng.choice([1, 2, 6, 9])):
                t.append(cur)
                cur += rng.choice([1, 2, 4, 5, 6, 7, 9, 40])
            durs = [rng.choice([1, 1, 2, 3]) for _ in t]
            notes = [rng.choice(["a", "b, c"]) for _ in t]
            o = rng.sample(range(len(t)), len(t)) if rng.random() < 0.7 else range(len(t))
            return [t[j] for j in o], [durs[j] for j in o], [notes[j] for j in o]

        mk = lambda x: visits(**{m: [MJD0 + v / DAY for v in x[0]], d: [v * 86400 / DAY for v in x[1]], nt: x[2]})
        x = make()

        def fill(e, sl):
            e["slices"], pts, e["consistent"] = self.slices(sl, len(x[0]))
            e["points"] = [[int(round((p["mjd"] - MJD0) * DAY)), int(round(p["duration"] * DAY / 86400))] for p in pts]

        return self.event("block", lambda: S.BlockIntervalSlicer(**kw), mk(x), fill, vals=x[0], durs=x[1], notes=x[2], gap=4, again=mk(make()) if again else None)

    def visit(self, again=False):
        rng, S = self.rng, self.S
        t = self.times(rng.choice([1, 2, 5, 8]), distinct=True)
        durs = [rng.choice([1, 2, 3]) for _ in t]
        ex = [rng.randrange(5) for _ in t]
        mk = lambda t, d, x: visits(observationStartMJD=[MJD0 + v / DAY for v in t], visitTime=[v * 86400 / DAY for v in d], extra=x)

        def fill(e, sl):
            e["slices"], pts, e["consistent"] = self.slices(sl, len(t))
            e["points"] = [[int(round((p["mjd"] - MJD0) * DAY)), int(round(p["duration"] * DAY / 86400)), int(p["extra"])] for p in pts]

        return self.event("visit", lambda: S.VisitIntervalSlicer(extra_column_names=["extra"]), mk(t, durs, ex), fill, vals=t, durs=durs, extra=ex,
                          again=mk([5, 1, 9], [1, 1, 2], [1, 2, 3]) if again else None)

    def uni(self, n, again=False):
        def fill(e, sl):
            e["slices"], _, e["consistent"] = self.slices(sl, n)

        mk = lambda n: visits(x=[1.5] * n, y=[2] * n)
        return self.event("uni", lambda: self.S.UniSlicer(), mk(n), fill, vals=[0] * n, again=mk(n + 2) if again else None)

    # ------------------------------------------------------------ sky
    def sky(self, kind, again=False):
        rng, S = self.rng, self.S
        radius = rng.choice([1.0, 2.45, 5.5, 30.0])
        deg = rng.random() < 0.6
        lon, lat = rng.choice([("fieldRA", "fieldDec"), ("azimuth", "altitude")])
        near = rng.random() < 0.7 and kind == "user"
        c0 = (rng.choice([0.0, 359.5, 120.0]), rng.choice([0.0, -88.5, 45.0, 90.0]))
        # with the camera: chips up to 1.0625 and 1.5625 degrees from the centre, turned by quarters
        cam = rng.random() < 0.5
        crad = rng.choice([1.94, 1.94, 1.25])
        if cam:
            radius = rng.choice([2.45, 2.45, 1.0])
        file = self.ctx.scratch / "fov_map.npz"
        if not file.exists():
            x = np.linspace(-2, 2, 4 * 64 + 1)
            np.savez(file, image=(np.abs(x)[:, None] <= 34 / 32) & (np.abs(x)[None, :] <= 50 / 32), x=x)
        around = None

        def pos(n):
            out = []
            for _ in range(n):
                if around is not None and rng.random() < 0.9:
                    a, b = rng.choice(around)
                    b = max(-90, min(90, b + rng.uniform(-2, 2)))
                    w = min(180, 2 / max(1e-3, np.cos(np.radians(b))))
                    out.append(((a + rng.uniform(-w, w)) % 360, b))
                elif near:
                    out.append(((c0[0] + rng.uniform(-8, 8)) % 360, max(-90, min(90, c0[1] + rng.uniform(-8, 8)))))
                else:
                    out.append((rng.uniform(0, 360), rng.uniform(-90, 90)))
            return out

        vec = lambda r, d: np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)])
        pts = pos(rng.randrange(1, 9))
        nside = rng.choice([1, 2, 4])
        kw = dict(radius=radius, use_camera=cam, camera_radius=crad, camera_footprint_file=str(file), lat_lon_deg=deg, lon_col=lon, lat_col=lat, verbose=False, leafsize=rng.choice([1, 10, 100]))
        given = None
        if kind == "user":
            make = lambda: S.UserPointsSlicer([p[0] for p in pts], [p[1] for p in pts], **kw)
        elif kind == "healpix":
            make = lambda: S.HealpixSlicer(nside=nside, use_cache=rng.random() < 0.5, **kw)
        else:
            npix = 12 * nside * nside
            given = sorted(rng.sample(range(npix), rng.randrange(1, npix)))
            make = lambda: S.HealpixSubsetSlicer(nside, np.array(given), use_cache=rng.random() < 0.5, **kw)

        def dist(sl, v):
            P = [vec(r, d) for r, d in zip(sl.slice_points["ra"], sl.slice_points["dec"])]
            V = [vec(np.radians(a), np.radians(b)) for a, b in v]
            return [[int(round(np.degrees(np.arctan2(np.linalg.norm(np.cross(p, q)), p @ q)) * 3600)) for q in V] for p in P]

        def offsets(sl, v, quarters):
            """Where the points lie in the tangent plane of the visits, in arcseconds."""
            out = []
            for r, d in zip(sl.slice_points["ra"], sl.slice_points["dec"]):
                row = []
                for (a, b), q in zip(v, quarters):
                    a, b = np.radians(a), np.radians(b)
                    c = np.sin(b) * np.sin(d) + np.cos(b) * np.cos(d) * np.cos(r - a)
                    if c < 0.1:
                        row.append([99999, 99999])
                        continue
                    x = np.cos(d) * np.sin(r - a) / c
                    y = (np.cos(b) * np.sin(d) - np.sin(b) * np.cos(d) * np.cos(r - a)) / c
                    row.append([int(round(abs(np.degrees(t)) * 3600)) for t in ((x, y) if q % 2 == 0 else (y, x))])
                out.append(row)
            return out

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            first = make()
            if cam:
                around = [(float(np.degrees(a)), float(np.degrees(b))) for a, b in zip(first.slice_points["ra"], first.slice_points["dec"])]
            vis = pos(rng.choice([1, 4, 12, 30]))
            quarters = [rng.randrange(4) for _ in vis]
            D = dist(first, vis)
            O = offsets(first, vis, quarters)
        R, C = int(round(radius * 3600)), int(round(crad * 3600))
        edge = lambda o: abs(o[0] - 3825) < 100 or abs(o[1] - 5625) < 100 or abs(np.hypot(*o) - C) < 100
        keep = [j for j in range(len(vis)) if all(abs(row[j] - R) > 5 for row in D) and not (cam and any(edge(row[j]) for row in O))]
        vis, quarters = [vis[j] for j in keep], [quarters[j] for j in keep]
        if not vis:
            return None
        f = (lambda x: x) if deg else np.radians
        mk = lambda v: visits(**{lon: [float(f(a)) for a, b in v], lat: [float(f(b)) for a, b in v],
                             "rotSkyPos": [float(f(90.0 * q)) for q, _ in zip(quarters * 9 if len(quarters) < len(v) else quarters, v)]})
        ids = list(range(12 * nside * nside)) if kind == "subset" else None

        def fill(e, sl):
            e["dists"], e["at"] = dist(sl, vis), offsets(sl, vis, quarters) if cam else []
            e["slices"], spts, e["consistent"] = self.slices(sl, len(vis), ids)
            if kind == "subset":
                e["ids"], e["given"] = ids, given
                e["iterated"] = [int(s["slice_point"]["sid"]) for s in sl]
            want = [(p[0], p[1]) for p in pts] if kind == "user" else [None] * len(spts)
            for k, (w, p) in enumerate(zip(want, spts)):
                if kind == "subset" and ids[k] not in given:
                    continue
                ok = int(p["sid"]) == k and p["ra"] == sl.slice_points["ra"][k] and p["dec"] == sl.slice_points["dec"][k]
                if w is not None:
                    ok = ok and np.allclose([p["ra"], p["dec"]], np.radians(w))
                e["consistent"] = bool(e["consistent"] and ok)

        return self.event("sky" if kind != "subset" else "subset", make, mk(vis), fill, vals=[0] * len(vis), radius=R, cradius=C, camera=cam, kind=kind, again=mk(pos(7)) if again else None)


def check_m03(ctx):
    r, rng = Run(ctx), ctx.rng
    d = ctx.design("SlicersMC", constants=f" MaxVal = {ctx.pick(3, 4)}\n MaxVisits = {ctx.pick(3, 3)}\n MaxEdges = {ctx.pick(3, 4)}", invariants=["Inv"], workers=1)
    cases = list(d.printed)
    rng.shuffle(cases)
    cases = cases[: ctx.pick(300, 4000)]
    ctx.extra["spec_generated_inputs"] = len(cases)
    evs = []
    for c in cases:
        kinds = ["oned", "movie", "cumulative"] if ctx.thorough else [rng.choice(["oned", "movie", "cumulative"])]
        for kind in kinds:
            evs.append(r.binned(c["vals"], kind, c["edges"], again=[1, 2, 2, 3] if rng.random() < 0.2 else None))
    for _ in range(ctx.pick(120, 1500)):
        kind = rng.choice(["oned", "movie", "cumulative"])
        vals = [rng.choice([rng.randrange(-4, 9) / 4, rng.uniform(-1, 2)]) for _ in range(rng.choice([1, 2, 7, 30]))]
        ed = None if rng.random() < 0.6 else sorted(rng.sample([x / 4 for x in range(-4, 9)], rng.randrange(2, 6)))
        evs.append(r.binned(vals, kind, ed, again=[0.5, 1.0, -1.0] if rng.random() < 0.3 else None))
    again = lambda: rng.random() < 0.3
    for _ in range(ctx.pick(120, 1500)):
        evs.append(r.nd(rng.choice([1, 3, 12]), again()))
    for _ in range(ctx.pick(60, 800)):
        evs.append(r.interval(again()))
        evs.append(r.block(again()))
        evs.append(r.visit(again()))
    for _ in range(ctx.pick(10, 30)):
        evs.append(r.uni(rng.choice([1, 2, 9]), again()))
    for _ in range(ctx.pick(60, 800)):
        evs += [x for x in (r.sky(k, again()) for k in ("user", "healpix", "subset")) if x]
    ctx.oracle("SlicersTrace", [[e] for e in evs], chunks=6)
