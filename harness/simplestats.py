"""Elementary metrics: property T08 (specification SimpleStats)."""
import numpy as np

from .metrics import num, quiet, run, runs, shuffled, table

NOTREAL = 999


class Run:
    def __init__(self, ctx):
        import rubin_sim.maf.metrics as M

        self.ctx, self.rng, self.M = ctx, ctx.rng, M
        self.events = []

    # ------------------------------------------------------------ one column, one value
    def one(self, res, m, p, make, data, sq=False, bad=-666, scale=1.0, enc=None, order=True, point=None):
        e = enc or (lambda r: num(r if scale == 1.0 else r * scale, bad=bad, sq=sq))
        if scale != 1.0:
            e = lambda r: dict(k="bad") if np.size(r) == 1 and r == bad else num(r * scale, bad=bad, sq=sq)
        g, same, kept = runs(self.rng, make, data, e, point, order)
        res.append(dict(m=m, p=p, g=g, same=bool(same), kept=bool(kept)))
        self.ctx.count(m)

    def stats(self, s, q, share=1.0):
        """All statistics of one column of values s (units of 1/q)."""
        rng, M = self.rng, self.M
        s = shuffled(rng, s)
        col = rng.choice(["x", "airmass"])
        vals = np.array(s) / q if q > 1 else np.array(s, dtype=rng.choice(["int64", "float64"]))
        d = table(**{col: vals, "obsid": np.arange(len(s))})
        bad = rng.choice([-666, -999.0])
        res = []

        def add(m, cls, p=None, sq=False, **kw):
            if rng.random() < share:
                self.one(res, m, p or {}, lambda: cls(col=col, badval=bad, **kw), d, sq=sq, bad=bad)

        for m in ("Max", "Min", "AbsMax", "Mean", "AbsMean", "Median", "AbsMedian", "FullRange", "Sum", "CountUnique",
                  "UniqueRatio", "Count", "MaxPercent", "AbsMaxPercent", "Binary"):
            add(m, getattr(M, m + "Metric"))
        add("Rms", M.RmsMetric, sq=True)
        add("RelRms", M.RelRmsMetric, sq=True)
        add("RobustRms", M.RobustRmsMetric)
        u = lambda v: v / q if q > 1 else v
        norm = rng.choice([1, 2, 3, 7])
        add("CountRatio", M.CountRatioMetric, dict(norm=norm), norm_val=norm)
        v = rng.choice(s + [max(s) + 1])
        add("CountSubset", M.CountSubsetMetric, dict(subset=v), subset=u(v))
        for _ in range(2):
            lo, up = rng.choice([None] + s + [min(s) - 1]), rng.choice([None] + s + [max(s) + 1])
            add("CountBeyond", M.CountBeyondThreshold,
                dict(haslow=lo is not None, low=lo or 0, hasup=up is not None, up=up or 0),
                lower_threshold=None if lo is None else u(lo), upper_threshold=None if up is None else u(up))
        c, k = rng.choice(s + [0, 3]), rng.choice([1, 2, 100])
        add("FracAbove", M.FracAboveMetric, dict(cutoff=c, scale=k), cutoff=u(c), scale=k)
        add("FracBelow", M.FracBelowMetric, dict(cutoff=c, scale=k), cutoff=u(c), scale=k)
        pc = rng.choice([0, 5, 10, 25, 50, 75, 90, 95, 100])
        add("Percentile", M.PercentileMetric, dict(percent=pc), percentile=pc)
        for w in rng.sample([-6, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6], 2):
            add("Noutliers", M.NoutliersNsigmaMetric, dict(w=w), n_sigma=w / 2)
        mjd, lim = max(s) + rng.randrange(12), rng.randrange(1, 12)
        if rng.random() < share:
            self.one(res, "Age", dict(mjd=mjd, limit=lim), lambda: M.AgeMetric(u(mjd), mjd_col=col, long_limit=u(lim)), d, bad=np.nan)
        self.put("stats", s=s, q=q, res=res)

    def put(self, op, **k):
        self.events.append([dict(op=op, **k)])

    def special(self, s):
        """Metrics of columns of a special kind, from small whole numbers s >= 0."""
        rng, M, res = self.rng, self.M, []
        s = shuffled(rng, s)
        ids = np.arange(len(s))
        # missing values
        t = [NOTREAL if rng.random() < 0.3 else v for v in s]
        d = table(x=[rng.choice([np.nan, np.inf, -np.inf]) if v == NOTREAL else float(v) for v in t],
                  saturation_mag=[np.nan if v == NOTREAL else float(v) for v in t])
        r2 = []
        if any(v != NOTREAL for v in t):
            self.one(r2, "RealMean", dict(notreal=NOTREAL), lambda: M.RealMeanMetric(col="x"), d)
        self.one(r2, "SkySaturation", dict(notreal=NOTREAL), lambda: M.SkySaturationMetric(), d)
        self.put("stats", s=t, q=1, res=r2)
        # exposure times
        ex = [rng.choice([1, 15, 19, 20, 29, 30, 31, 40, 44, 45, 46, 60, 74, 75, 76, 90, 150]) for _ in s]
        mn, exp = rng.choice([(20, 30), (15, 30), (0, 30), (30, 30), (20, 15), (31, 40)])
        cn = rng.choice(["visitExposureTime", "exptime"])
        r2 = []
        d = table(**{cn: np.array(ex, dtype=float), "obsid": ids})
        self.one(r2, "CountExplim", dict(min=mn, exp=exp), lambda: M.CountExplimMetric(min_exp=mn, expected_exp=exp, exp_col=cn), d)
        self.put("stats", s=ex, q=1, res=r2)
        # nights and years
        bins = sorted(rng.sample(range(0, 16), rng.randrange(2, 6)))
        nights = [rng.randrange(0, 16) for _ in s]
        r2 = []
        self.one(r2, "YearCoverage", dict(bins=bins), lambda: M.YearCoverageMetric(bins=np.array(bins)), table(night=nights, obsid=ids))
        self.put("stats", s=nights, q=1, res=r2)
        big = [rng.choice([0, 1, 364, 365, 366, 730, 731, 1095, 1460, 1461, 1826, 2556, 3286, 3651]) for _ in s]
        edges = [-1] + [-(-(y * 36525 - 50) // 100) for y in range(1, 10)]  # first night of each year
        r2 = []
        self.one(r2, "YearCoverage", dict(bins=[0] + edges[1:]), lambda: M.YearCoverageMetric(), table(night=big, obsid=ids))
        if max(big) < 3287:
            self.put("stats", s=big, q=1, res=r2)
        # Kuiper
        ang = [rng.randrange(0, 360) + rng.choice([0, 0, 360]) for _ in s]
        r2 = []
        self.one(r2, "Kuiper", {}, lambda: M.KuiperMetric(col="rot"), table(rot=np.array(ang, dtype=float), obsid=ids))
        self.put("stats", s=ang, q=1, res=r2)
        # cumulative numbers
        d = table(observationStartMJD=np.array([v + 0.01 * k for k, v in enumerate(s)]), night=s)
        d = d[shuffled(rng, range(len(s)))]
        pts = None if rng.random() < 0.5 else sorted(rng.sample(range(0, 12), rng.randrange(1, 6)))
        mt = M.CumulativeMetric(interp_points=None if pts is None else np.array(pts))
        r, kept = run(mt, d)
        self.put("cumulative", s=s, grid=pts is None, x=[int(v) for v in r["x"]], y=[num(v) for v in r["y"]], kept=kept)
        self.ctx.count("Cumulative")
        # weights
        w = [rng.choice([1, 2, 4, 5]) for _ in s]
        d = table(x=np.array(s, dtype=float), fiveSigmaDepth=np.array([20.0 + 2.5 * np.log10(k / 5.0) for k in w]), obsid=ids)
        r2 = []
        self.one(r2, "SnrWeighted", dict(w=w), lambda: M.SnrWeightedMetric("x"), d)
        self.put("stats", s=s, q=1, res=r2)
        # depths
        flux = [rng.choice([1, 2, 3, 5, 10, 40, 100]) for _ in s]
        bands = [rng.choice("ugr") for _ in s]
        fc = rng.choice(["Filter", "band"])
        band = rng.choice([None, "u", "g", "r", "y"])
        m5 = 1.25 * np.log10(np.array(flux, dtype=float))
        d = table(**{"fiveSigmaDepth": m5, fc: bands, "obsid": ids})
        bad = rng.choice([-666, 17.0])
        enc = lambda r: dict(k="bad") if r == bad else num(10 ** (0.8 * r) if np.isfinite(r) else r)
        r2 = []
        self.one(r2, "Coadd", dict(has=band is not None, band=band or "", bands=bands),
                 lambda: M.Coaddm5Metric(filter_name=band, filter_col=fc, badval=bad), d, enc=enc)
        opt = [rng.choice([1, 2, 3, 5, 10, 20] + [40, 100] * (len(s) < 4)) for _ in s]
        d = table(fiveSigmaDepth=m5, m5Optimal=1.25 * np.log10(np.array(opt, dtype=float)), band=["g"] * len(s))
        for mag in (False, True):
            for nm in (False, True):
                enc = (lambda r: num(10 ** (0.8 * r))) if mag else (lambda r: num(r, sq=True))
                self.one(r2, "Optimal", dict(opt=opt, norm=nm, mag=mag),
                         lambda: M.OptimalM5Metric(mag_diff=mag, normalize=nm), d, enc=enc)
        self.put("stats", s=flux, q=1, res=r2)

    def angles(self, s):
        rng, M, res = self.rng, self.M, []
        s = shuffled(rng, s)
        d = table(rotSkyPos=np.array(s, dtype=float), obsid=np.arange(len(s)))

        def mean(r):
            g = num(r)
            c, t = np.cos(np.radians(r)), np.sin(np.radians(r))
            sg = lambda v: 0 if abs(v) < 1e-9 else 1 if v > 0 else -1
            g.update(cos2=num(c * c), cx=sg(c), sy=sg(t), turn=bool(0 <= r <= 360))
            return g

        self.one(res, "MeanAngle", {}, lambda: M.MeanAngleMetric(col="rotSkyPos"), d, enc=mean)
        self.one(res, "RmsAngle", {}, lambda: M.RmsAngleMetric(col="rotSkyPos"), d, sq=True)
        self.one(res, "FullRangeAngle", {}, lambda: M.FullRangeAngleMetric(col="rotSkyPos"), d)
        self.put("stats", s=s, q=1, res=res)
        k = [v // 30 for v in s]
        per = rng.choice([None, 1.0, 360.0, 3.5])
        x = np.array(k) * ((2 * np.pi if per is None else per) / 4.0)

        def spread(r):
            g = num(r)
            g.update(left2=num((1 - r) ** 2), lsgn=0 if abs(1 - r) < 1e-9 else 1 if r < 1 else -1)
            return g

        res = []
        kw = {} if per is None else dict(period=per)
        self.one(res, "AngularSpread", {}, lambda: M.AngularSpreadMetric(col="x", **kw), table(x=x, obsid=np.arange(len(s))), enc=spread)
        self.put("stats", s=k, q=1, res=res)

    def summaries(self, s):
        """Summaries over 12 or 48 pixels."""
        import healpy as hp

        rng, M, res = self.rng, self.M, []
        nside = rng.choice([1, 1, 2])
        scale = hp.nside2pixarea(nside, degrees=True)
        n = 12 * nside**2
        v = [rng.choice(s) for _ in range(n)]
        q = rng.choice([1, 4])
        vals = np.array(v) / q
        # all pixels, or fewer (masked ones are not passed on)
        few = rng.randrange(1, n + 1)
        w = v[:few]
        d = table(metricdata=np.array(w) / q)
        nv, a2 = rng.choice(s), 2 * rng.randrange(1, n + 2) - 1
        norm = rng.random() < 0.4
        asky = (a2 / 2) * scale
        self.one(res, "FOArea", dict(nvisit=nv, norm=norm, asky=a2),
                 lambda: M.FOArea(n_visit=nv / q, asky=asky, nside=nside, norm=norm), d, scale=1.0 if norm else 1 / scale)
        nn = rng.choice([1, 2, 5])
        for which, name in ((0, "FONvMedian"), (1, "FONvMin")):
            def enc(r):
                if list(r["name"]) != ["MedianNvis", "MinNvis"]:
                    return dict(k="?", r=repr(r))
                return num(r["value"][which], bad=-666)
            self.one(res, name, dict(asky=a2, norm=nn), lambda: M.FONv(asky=asky, nside=nside, n_visit=nn, norm=nn != 1), d, enc=enc)
        self.put("stats", s=w, q=q, res=res)
        res = []
        d = table(metricdata=vals)
        foot = [rng.choice([0, 0, 1, 2]) for _ in range(n)]
        foot[rng.randrange(n)] = 1
        nm = rng.choice(s)
        self.one(res, "FootprintFraction", dict(foot=foot, nmin=nm),
                 lambda: M.FootprintFractionMetric(footprint=np.array(foot), n_min=nm / q), d, order=False)
        gaps = [NOTREAL if rng.random() < 0.2 else x for x in v]
        d2 = table(metricdata=np.array([np.nan if x == NOTREAL else x / q for x in gaps]))
        down, fn = rng.random() < 0.5, rng.choice(["default", "default", "median", "sum"])
        r3 = []
        if any(x != NOTREAL for x in gaps):
            self.one(r3, "AreaSummary", dict(notreal=NOTREAL, area=a2, down=down, func=fn),
                     lambda: M.AreaSummaryMetric(area=asky, decreasing=down,
                                                 reduce_func=dict(default=None, median=np.median, sum=np.sum)[fn]), d2)
        lo, up = rng.choice([None] + s), rng.choice([None] + s)
        self.one(r3, "AreaThreshold", dict(notreal=NOTREAL, haslow=lo is not None, low=lo or 0, hasup=up is not None, up=up or 0),
                 lambda: M.AreaThresholdMetric(lower_threshold=None if lo is None else lo / q,
                                               upper_threshold=None if up is None else up / q), d2, scale=1 / scale)
        self.put("stats", s=v, q=q, res=res)
        self.put("stats", s=gaps, q=q, res=r3)

    def each(self, s):
        rng, M = self.rng, self.M
        s = shuffled(rng, s)
        q = rng.choice([1, 4])
        d = table(metricdata=np.array(s) / q)
        nv, zp = rng.choice([1, 2, 3]), rng.choice([-2, 0, 1, 5])
        mp = {v: rng.randrange(100) for v in range(12)}
        for m, p, mt in (("Identity", {}, M.IdentityMetric(col="metricdata")), ("Normalize", dict(norm=nv), M.NormalizeMetric(norm_val=nv)),
                         ("Zeropoint", dict(zp=zp), M.ZeropointMetric(zp=zp / q)),
                         ("Mapping", dict(none=True, map=[0]), M.ApplyMappingMetric("metricdata")), ("Pass", {}, M.PassMetric())):
            r, kept = run(mt, d.copy())
            if m == "Pass":
                r = r["metricdata"]
            scalar = np.ndim(r) == 0
            self.put("each", m=m, p=p, s=s, q=q, g=[num(x) for x in np.atleast_1d(r)], kept=kept, scalar=scalar)
            self.ctx.count(m)
        t = [abs(v) for v in s]
        r, kept = run(M.ApplyMappingMetric("n", mapping=mp, metric_dtype=rng.choice(["object", "int"])), table(n=t))
        self.put("each", m="Mapping", p=dict(none=False, map=[mp[k] for k in range(12)]), s=t, q=1, g=[num(x) for x in r], kept=kept, scalar=False)
        r = quiet(M.ApplyMappingMetric("n", mapping=mp).run, {"n": t[0]})
        self.put("each", m="Mapping", p=dict(none=False, map=[mp[k] for k in range(12)]), s=t[:1], q=1, g=[num(r)], kept=True, scalar=True)

    def words(self, n):
        rng, M = self.rng, self.M
        pool = ["r", "g", "", "pairs, 3", "pairs, 12", "pairs, a", "DD, x, 7", "long, ", "pairs", "blob, 15"]
        v = [rng.choice(pool) for _ in range(n)]
        clip, pct = rng.random() < 0.5, rng.random() < 0.4

        def label(x):
            if clip and ", " in x and x.rsplit(", ", 1)[1].isdigit():
                x = x.rsplit(", ", 1)[0]
            return x or "blank"

        d = table(filter=np.array(v, dtype="U20"), obsid=np.arange(n))
        mt = M.StringCountMetric(percent=pct, clip_end=clip)
        r, kept = run(mt, d)
        names = list(r.dtype.names)
        ok = list(mt.reduce_funcs) == names or set(mt.reduce_funcs) >= set(names)
        self.put("strings", want=[label(x) for x in v], percent=pct, names=names, g=[num(r[k][0]) for k in names],
                 red=[num(mt.reduce_funcs[k](r)) for k in names], ok=ok, kept=kept)
        self.ctx.count("StringCount")
        kinds = list(M.UseMetric.start_matches)
        note = rng.choice([rng.choice(kinds) + rng.choice(["", "_33", " x", "s"]), "xpairs", "", "ddf", "pair", "too late", "template"])
        progs = rng.choice([[], ["A"], ["A", "B"]])
        prog = rng.choice("ABC")
        r = quiet(M.UseMetric(science_programs=progs).run, dict(observation_reason=note, science_program=prog))
        self.put("use", p=dict(note=note, program=prog, programs=progs), kinds=kinds, got=r)
        self.ctx.count("Use")
        digits = [rng.randrange(5) for _ in range(rng.randrange(1, 5))]
        r = quiet(M.ChipVendorMetric().run, None, dict(chipNames=[f"R:{k},{rng.randrange(5)} S:1,1"[:2] + f"{k},1 S:0,2" for k in digits]))
        self.put("vendor", digits=digits, g=num(r))
        self.ctx.count("ChipVendor")


def check_t08(ctx):
    big = ctx.pick(4, 6)
    r = ctx.design("SimpleStatsMC", f"Neg = 2\nHigh = 3\nSize = {big}", ["Inv"])
    sets = r.printed
    ctx.extra["enumerated"] = len(sets)
    R = Run(ctx)
    rng = ctx.rng
    for s in sets:
        R.stats([int(v) for v in s], 4, ctx.pick(0.6, 1.0))
        t = [v + 2 for v in s]
        if len(sets) < 400 or rng.random() < 0.4:
            R.special(t)
            R.angles([90 * v % 360 for v in t])
            R.each(s)
    for _ in range(ctx.pick(60, 600)):
        n = rng.randrange(1, 9)
        R.stats([rng.randrange(-30, 60) for _ in range(n)], rng.choice([1, 4]))
        c = rng.randrange(360)
        off = [rng.randrange(0, 61) for _ in range(rng.randrange(1, 4))]
        R.angles([(c + o) % 360 for o in off] + [(c - o) % 360 for o in off] + [c] * rng.randrange(2))
        R.angles([rng.randrange(360) for _ in range(n)])
        R.angles([90 * rng.randrange(4) for _ in range(n)])
        if rng.random() < 0.3:  # nearly evenly spread
            R.angles([90 * k for k in range(4)] * rng.randrange(3, 9) + [90 * rng.randrange(4) for _ in range(rng.randrange(1, 4))])
        R.special([rng.randrange(0, 9) for _ in range(n)])
        R.summaries([rng.randrange(0, 9) for _ in range(5)])
        R.each([rng.randrange(-9, 12) for _ in range(n)])
        R.words(rng.randrange(1, 9))
    for _ in range(ctx.pick(4, 30)):  # many visits
        n = rng.randrange(40, 120)
        R.stats([rng.randrange(-5, 10) for _ in range(n)], 1)
        R.words(n)
    ctx.extra["rounding"] = "results are compared as exact fractions after rounding to 1e-9"
    for b in ctx.oracle("SimpleStatsTrace", R.events, chunks=6, key=lambda b: "+".join(b["clauses"])):
        pass
