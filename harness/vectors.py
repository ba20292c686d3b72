"""Metrics with a value per bin: T07 (Vector)."""
import math

import numpy as np

from .metrics import num, runs, shuffled, table


def seq(bad, f=lambda x: x):
    def enc(r):
        if np.ndim(r) == 0:
            return num(r, bad=bad)
        return dict(k="seq", v=[dict(k="bad") if x == bad else num(f(x)) for x in np.asarray(r).tolist()])

    return enc


def check_t07(ctx):
    import rubin_sim.maf.metrics as M

    rng = ctx.rng
    r = ctx.design("VectorMC", f"Top = {ctx.pick(4, 5)}\nSize = 4", ["Inv"])
    sets = [(p["b"], p["e"]) for p in r.printed]
    sets = rng.sample(sets, min(len(sets), ctx.pick(600, 5000)))
    for _ in range(ctx.pick(150, 1500)):
        top = rng.choice([6, 20, 200])
        sets.append(([rng.randrange(top) for _ in range(rng.randrange(1, 12))], sorted(rng.sample(range(top), rng.randrange(2, 6)))))
    for _ in range(ctx.pick(4, 30)):  # many visits and bins
        sets.append(([rng.randrange(200) for _ in range(rng.randrange(60, 200))], sorted(rng.sample(range(200), rng.randrange(12, 40)))))
    evs = []
    for bs, e in sets:
        bs = shuffled(rng, bs)
        w = [dict(b=b, v=rng.randrange(-3, 8), f=rng.randrange(1, 9)) for b in bs]
        if rng.random() < 0.3:
            for x in w:
                x["v"] = x["b"]
        unit = rng.choice([1, 1, 0.25])
        bc = rng.choice(["night", "mjd"])
        kind = rng.choice([int, float])
        d = table(**{bc: np.array(bs) * unit if unit != 1 else np.array(bs), "obsid": np.arange(len(bs)),
                     "val": np.array([x["v"] for x in w], dtype=kind), "fiveSigmaDepth": 1.25 * np.log10(np.array([float(x["f"]) for x in w])),
                     "observationStartMJD": 60000.0 + np.array(bs) * 1.0})
        arr = np.array(e) * unit
        bins = rng.choice([lambda: arr.copy(), lambda: arr.tolist()])()
        bad = rng.choice([-666, -1.5])
        kw = {} if bad == -666 else dict(badval=bad)
        res = []

        def add(m, p, mk, enc):
            g, same, kept = runs(rng, mk, d, enc)
            res.append(dict(m=m, p=p, g=g, same=bool(same), kept=bool(kept)))
            ctx.count(m)

        st = rng.choice(["count", "sum", "mean", "median", "min", "max"])
        add("Histogram", dict(st=st), lambda: M.HistogramMetric(bins=bins, bin_col=bc, col="val", statistic=st), seq(None))
        add("HistogramM5", {}, lambda: M.HistogramM5Metric(bins=bins, bin_col=bc, **kw), seq(bad, lambda x: 10 ** (0.8 * x)))
        f = rng.choice(["add", "add", "maximum", "minimum", "multiply"])
        # (the value of empty bins is not among the values of visits)
        if f != "multiply" or math.prod([max(1.0, abs(x["v"])) for x in w]) < 1e8:
            add("Accumulate", dict(f=f), lambda: M.AccumulateMetric(bins=bins, bin_col=bc, col="val", function=getattr(np, f), **kw), seq(bad))
        add("Accumulate", dict(f="count"), lambda: M.AccumulateCountMetric(bins=bins, bin_col=bc, **({} if bc == "night" else dict(col=bc)), **kw), seq(bad))
        add("Accumulate", dict(f="m5"), lambda: M.AccumulateM5Metric(bins=bins, bin_col=bc, **kw), seq(bad, lambda x: 10 ** (0.8 * x)))
        if len(e) > 2:
            add("Uniformity", {}, lambda: M.AccumulateUniformityMetric(bins=bins, bin_col=bc), seq(None))
        evs.append([dict(op="vector", vs=w, e=e, res=res)])
    ctx.oracle("VectorTrace", evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
