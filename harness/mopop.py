"""Summaries of moving object populations: M09 (specification MoPop)."""
import math

import numpy as np

from .metrics import num as number
from .metrics import quiet


def num(x):
    return number(x, limit=200000)


class Checks:
    def __init__(self, ctx):
        import rubin_sim.maf.metrics as M

        self.ctx, self.rng, self.M, self.evs, self.unit = ctx, ctx.rng, M, [], 1

    def base(self, n):
        """How much larger the population is from one magnitude to the next."""
        return self.rng.choice([b for b in (1, 2, 2, 3, 10) if b**n <= 300])

    def masked(self, t, odd=7777.0):
        """The table as metric bundles hold it, with anything where there is no value."""
        data = np.array([[c[0] / self.unit if c else odd for c in row] for row in t])
        return np.ma.MaskedArray(data, mask=[[not c for c in row] for row in t], fill_value=0)

    def whole(self, x):
        return x if x is None else x * self.unit

    def one(self, res, m, fn, arr, **p):
        r = dict(m=m, raised="", kept=True, **p)
        keep = arr.copy()
        try:
            r.update(quiet(fn, arr))
        except Exception as ex:
            r["raised"] = repr(ex)[:160]
        r["kept"] = bool(np.array_equal(np.ma.getmaskarray(keep), np.ma.getmaskarray(arr)) and np.array_equal(keep.compressed(), arr.compressed()))
        self.ctx.count(m)
        res.append(r)

    def cloned(self, t):
        """All objects at each of the magnitudes."""
        rng, M = self.rng, self.M
        n = len(t[0])
        self.unit = rng.choice([1, 1, 4])
        step = rng.choice([1, 2, 4, 8, 24])
        low = rng.randrange(0, 40)
        hs = [low + step * k for k in range(n)]
        H = np.array([16 + h / 8 for h in hs])
        arr = self.masked(t)
        res = []
        vals = lambda s: dict(g=[num(x) for x in s["value"]], names=len(set(s["name"])))
        x = rng.choice([hs[0], hs[-1], rng.randrange(hs[0] - 2, hs[-1] + 3), rng.randrange(hs[0] - 2, hs[-1] + 3)])
        for _ in range(2):
            thr, base = rng.randrange(1, 4), self.base(n)
            hindex = math.log10(base) / (step / 8)
            cum = n > 1 and rng.random() < 0.6
            how = rng.randrange(3)
            kw = [dict(cumulative=cum), dict(metric_name=("CumulativeX" if cum else "DifferentialX")), dict(cumulative=cum, metric_name="FractionPop")][how]
            self.one(res, "completeness", lambda a: vals(M.MoCompletenessMetric(threshold=thr / self.unit, hindex=hindex, **kw).run(a, H)), arr, thr=thr, cumulative=cum, base=base)
            if n > 1:
                self.one(res, "bundle", lambda a: self.bundle(a, H, M.MoCompletenessMetric(threshold=thr / self.unit, hindex=hindex, **kw), 16 + x / 8), arr, thr=thr, cumulative=cum, base=base, x=x)
        if n > 1 and all(row[j] for row in t[:1] for j in range(n)):
            self.one(res, "value", lambda a: dict(g=num(self.whole(M.ValueAtHMetric(h_mark=16 + x / 8).run(a, H)))), self.masked(t[:1]), x=x)
        if n > 1 and all(any(row[j] for row in t) for j in range(n)):
            self.one(res, "mean", lambda a: dict(g=num(self.whole(M.MeanValueAtHMetric(h_mark=16 + x / 8).run(a, H)))), arr, x=x)
            self.one(res, "max", lambda a: dict(g=num(self.whole(M.MeanValueAtHMetric(h_mark=16 + x / 8, reduce_func=np.max).run(a, H)))), arr, x=x)
        if n > 1:
            w = [rng.randrange(1, 9) for _ in hs]
            thr = rng.randrange(1, 4)
            diff = np.array([[sum(1 for row in t if row[j] and row[j][0] >= thr) / len(t) for j in range(n)]])
            self.one(res, "number", lambda a: dict(g=num(M.TotalNumberSSO(h_mark=16 + x / 8, dndh_func=lambda h, **k: np.array(w, float)).run(diff, H))), arr, w=w, thr=thr, x=x)
            a = rng.choice([None, (rng.randrange(1, 50), rng.choice([0, 0, 1]))])
            base = rng.choice([2, 3, 10])
            kw = {} if a is None else dict(no=a[0], ho=H[a[1]])
            first = (10, 0) if a is None else a
            f = [first[0] * step * 1, 8 * base ** first[1]]
            g = math.gcd(*f)
            self.one(res, "population", lambda _: dict(g=[num(v) for v in M.power_law_dndh(H, hindex=math.log10(base) / (step / 8), **kw)]), arr, n=n, a=[f[0] // g, f[1] // g], base=base)
            for fn, y in (("neo_dndh_grav", 110), ("pha_dndh_grav", 23.5)):
                # a tenth of a magnitude holds y objects at H = 18.5, ten times as many 1 / 0.35 magnitudes further
                k = rng.randrange(2, 5)
                self.one(res, "population", lambda _: dict(g=[num(v * 0.035) for v in getattr(M, fn)(np.array([18.5 + i / 0.35 for i in range(k)]))]), arr, n=k, a=[int(2 * y), 2] if int(y) != y else [y, 1], base=10)
            for fn in ("neo_dndh_granvik", "pha_dndh_granvik"):
                def grows(_):
                    v, w2 = getattr(M, fn)(H), getattr(M, fn)(np.append(H, H[-1] + step / 8))
                    return dict(ok=bool(np.all(v > 0) and np.all(np.diff(v) > 0) and np.allclose(v, w2[:-1])))

                self.one(res, "positive", grows, arr)
        # values as times of discovery
        if n > 1 or True:
            times = sorted(rng.sample(range(0, 8), rng.randrange(2, 5)))
            self.unit = 1
            shift = self.masked(t) + 0.5  # never exactly at one of the times
            cum = n > 1 and rng.random() < 0.6
            base = self.base(n)
            at = rng.choice([None, x])
            T2 = [[[2 * c[0] + 1] if c else [] for c in row] for row in t]

            def over(a):
                kw = rng.choice([dict(cumulative=cum), dict(metric_name="Cumulative" if cum else "differential")])
                m = M.MoCompletenessAtTimeMetric(times=[float(q) for q in times] if rng.random() < 0.5 else np.array(times, float), hval=None if at is None else 16 + at / 8, hindex=math.log10(base) / (step / 8), **kw)
                s = m.run(a, H)
                return dict(g=[num(v) for v in s["value"]], h=int(round((m.hval - 16) * 8)))

            r2 = []
            self.one(r2, "over time", over, shift, times=[2 * q for q in times], cumulative=cum, base=base, x=-999 if at is None else at)
            self.evs.append([dict(hs=hs, t=T2, res=r2)])
        self.evs.append([dict(hs=hs, t=t, res=res)])

    def bundle(self, arr, H, metric, mark):
        from rubin_sim.maf.metric_bundles import MoMetricBundle, make_completeness_bundle
        from rubin_sim.maf.slicers import MoObjSlicer

        rng = self.rng
        s = MoObjSlicer(h_range=H, verbose=False)
        s.slice_points = {"H": H}
        s.shape = list(arr.shape)
        b = MoMetricBundle(self.M.NObsMetric(), s, rng.choice([None, "night < 3"]), run_name=rng.choice(["vf", "vg"]), info_label=rng.choice(["x", "some label"]), display_dict=dict(group=rng.choice("AB"), order=rng.randrange(9)))
        b.metric_values = arr
        mb = make_completeness_bundle(b, metric, h_mark=mark)
        same = (mb.constraint, mb.run_name, mb.info_label) == (b.constraint, b.run_name, b.info_label) and all(mb.display_dict[k] == b.display_dict[k] for k in ("group", "order")) and mb.metric is metric and mb.slicer is s
        return dict(same=bool(same), g=[num(v) for v in mb.metric_values[0]], at=num(mb.summary_values["Value At H=%.1f" % mark]))

    def own(self, t):
        """Each object at its own magnitude."""
        import pandas as pd

        rng, M = self.rng, self.M
        t = [row[:1] for row in t]
        self.unit = rng.choice([1, 4])
        if len(t) < 2:
            return
        hs = [rng.randrange(0, 1 + rng.choice([0, 6, 8, 16, 40])) for _ in t]
        n, least = rng.choice([1, 2, 4, 8]), rng.choice([4, 8, 16])
        if rng.random() < 0.5:  # a range that divides exactly
            hs = [h - h % 8 for h in hs]
        r = max(hs) - min(hs)
        w = least if r < least else r
        if (w * 64) % n:
            return
        H = np.array([16 + h / 8 for h in hs])
        H = rng.choice([H, pd.Series(H)])
        arr = self.masked(t)
        thr, base, cum = rng.randrange(1, 4), self.base(n), n > 1 and rng.random() < 0.5
        res = []
        self.one(res, "own completeness", lambda a: dict(g=[num(x) for x in M.MoCompletenessMetric(threshold=thr / self.unit, nbins=n, min_hrange=least / 8, cumulative=cum, hindex=math.log10(base) / (w / 8 / n)).run(a, H)["value"]]),
                 arr, thr=thr, n=n, least=least, cumulative=cum, base=base)
        self.evs.append([dict(hs=hs, t=t, res=res)])


def check_m09(ctx):
    rng = ctx.rng
    r = ctx.design("MoPopMC", f"Objects = {ctx.pick(2, 3)}\nMags = 2\nValues = 2", ["Fractions", "Falling", "Between", "OneBin", "Accumulate"])
    C = Checks(ctx)
    for x in r.printed if len(r.printed) < 1500 else rng.sample(r.printed, 1500):
        C.cloned(x["t"])
    for _ in range(ctx.pick(250, 2500)):
        n, k = rng.randrange(1, 7), rng.randrange(1, 6)
        p = rng.choice([0.1, 0.4, 0.9])
        t = [[[] if rng.random() < p else [rng.randrange(0, 6)] for _ in range(k)] for _ in range(n)]
        C.cloned(t)
        C.own(t)
    ctx.oracle("MoPopTrace", C.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
