"""Metrics of the times of visits: T01 (VisitGroups), T02 (StateChanges), T03 (Gaps)."""
import numpy as np

from .metrics import num, run, runs, shuffled, table

MJD0 = 60000.0
U = 1.0 / 1024  # time unit in days: exact in floating point


def oracle(ctx, module, evs):
    return ctx.oracle(module, evs, chunks=6, key=lambda b: "+".join(b["clauses"]))


def one(ctx, res, m, p, make, data, enc=num, bad=-666):
    e = (lambda r: num(r, bad=bad)) if enc is num else enc
    g, same, kept = runs(ctx.rng, make, data, e)
    res.append(dict(m=m, p=p, g=g, same=bool(same), kept=bool(kept)))
    ctx.count(m)


# ------------------------------------------------------------------------------- T01
class Groups:
    def __init__(self, ctx):
        import rubin_sim.maf.metrics as M

        self.ctx, self.rng, self.M, self.events = ctx, ctx.rng, M, []

    def fraction(self, ts, lo, hi):
        rng = self.rng
        d = table(observationStartMJD=MJD0 + np.array(ts) * U, obsid=np.arange(len(ts)))
        mk = lambda: self.M.PairFractionMetric(min_gap=lo * 1.40625, max_gap=hi * 1.40625)
        g, same, kept = runs(rng, mk, d, num)
        self.put("fraction", ts=ts, lo=lo, hi=hi, g=g, same=same, kept=kept)

    def pairs(self, ts, b, nmin, nmax):
        """Times at odd units, bins of an even number of units."""
        d = table(mjd=MJD0 + np.array(ts) * U, obsid=np.arange(len(ts)))
        mk = lambda: self.M.PairMetric(mjd_col="mjd", match_min=nmin * b * 1.40625, match_max=nmax * b * 1.40625, bin_size=b * 1.40625)
        g, same, kept = runs(self.rng, mk, d, lambda r: num(r, bad=-666))
        self.put("pairs", ts=ts, bin=b, nmin=nmin, nmax=nmax, g=g, same=same, kept=kept)

    def groups(self, vs, p):
        """vs: (night, t) with t whole units within the night."""
        rng = self.rng
        d = table(observationStartMJD=np.array([MJD0 + n + t * U for n, t in vs]), night=[n for n, _ in vs])
        mk = lambda: self.M.VisitGroupsMetric(delta_t_min=p["tmin"] * U, delta_t_max=p["tmax"] * U, min_n_visits=p["minvisits"],
                                              window=p["window"], min_n_nights=p["minnights"])

        def enc(r):
            if not isinstance(r, dict):
                return dict(bad=bool(np.size(r) == 1 and r == -666), nights=[], two=[], red={})
            mt = mk()
            red = {k: num(f(r)) for k, f in mt.reduce_funcs.items()}
            two = [2 * float(v) for v in r["visits"]]
            if any(x != int(x) for x in two):
                two = []
            return dict(bad=False, nights=[int(n) for n in r["nights"]], two=[int(x) for x in two], red=red)

        g, same, kept = runs(rng, mk, d, enc)
        if g.get("k") == "raised":
            g = dict(bad=False, nights=[], two=[], red={}, raised=g["r"])
        self.put("groups", vs=[dict(t=t, night=n) for n, t in vs], p=p, same=same, kept=kept, **g)

    def put(self, op, **k):
        self.ctx.count(op)
        k["same"], k["kept"] = bool(k["same"]), bool(k["kept"])
        self.events.append([dict(op=op, **k)])


def check_t01(ctx):
    n = ctx.pick(9, 10)
    r = ctx.design("VisitGroupsMC", f"Slots = {n}\nSize = {ctx.pick(5, 6)}", ["Inv"])
    G, rng = Groups(ctx), ctx.rng
    P = lambda **k: dict(dict(tmin=2, tmax=3, minvisits=rng.choice([1, 2, 2, 3]), window=rng.choice([1, 2, 5, 30]), minnights=rng.choice([1, 2, 3])), **k)
    for ts in r.printed:
        ts = shuffled(rng, ts)
        G.fraction(ts, *rng.choice([(1, 2), (2, 3), (2, 2), (0, 1), (3, 6)]))
        G.groups([(rng.randrange(3), t) for t in ts] if rng.random() < 0.3 else [(0, t) for t in ts], P())
        G.groups([(30 * (t % 3) + t // 3, 2 * k) for t in ts for k in range(1 + rng.randrange(3))], P())
    for _ in range(ctx.pick(150, 1500)):
        k = rng.randrange(1, 10)
        ts = rng.sample(range(60), k)
        G.fraction(ts, rng.randrange(0, 8), rng.randrange(8, 20))
        b = rng.choice([2, 4, 6])
        lo = rng.randrange(1, 5)
        ts = [0] + [2 * x + 1 for x in rng.sample(range(1, 40), k - 1)]
        G.pairs(shuffled(rng, ts), b, lo, lo + rng.randrange(0, 4))
        # several nights and lunations
        nights = sorted(rng.sample(range(rng.choice([5, 40, 150])), rng.randrange(1, 5))) if rng.random() < 0.5 else \
            sorted({rng.randrange(5) + 30 * l + rng.choice([0, 0, 25]) for l in rng.sample(range(6), rng.randrange(1, 6)) for _ in range(rng.randrange(1, 5))})
        vs = []
        for x in nights:
            t = rng.randrange(10)
            for _ in range(rng.choice([1, 2, 2, 2, 3, 4, 5])):
                vs.append((x, t))
                t += rng.choice([1, 5, 6, 8, 20, 20, 21, 40])
        G.groups(shuffled(rng, vs), P(tmin=6, tmax=rng.choice([8, 20])))
    for _ in range(ctx.pick(4, 30)):  # many visits
        k = rng.randrange(40, 120)
        G.fraction(rng.sample(range(400), k), rng.randrange(0, 8), rng.randrange(8, 20))
        lo = rng.randrange(1, 12)
        G.pairs(shuffled(rng, [0] + [2 * x + 1 for x in rng.sample(range(1, 200), k - 1)]), 2, lo, lo + rng.randrange(0, 12))
        G.groups(shuffled(rng, {(rng.randrange(5) + 30 * rng.randrange(14), 3 * rng.randrange(20)) for _ in range(k)}), P(tmin=6, tmax=rng.choice([8, 20])))
    oracle(ctx, "VisitGroupsTrace", G.events)


# ------------------------------------------------------------------------------- T02
def check_t02(ctx):
    import rubin_sim.maf.metrics as M

    rng = ctx.rng
    r = ctx.design("StateChangesMC", f"Size = {ctx.pick(4, 5)}\nGap = 2\nStates = 3", ["Inv"])
    sets = [[(v["t"], v["s"]) for v in vs] for vs in r.printed]
    if not ctx.thorough:
        sets = rng.sample(sets, 500)
    elif len(sets) > 6000:
        sets = rng.sample(sets, 6000)
    for _ in range(ctx.pick(150, 1500)):
        ts = rng.sample(range(rng.choice([12, 40, 400])), rng.randrange(1, 10))
        sets.append([(t, rng.randrange(1, rng.choice([2, 3, 5]))) for t in ts])
    for _ in range(ctx.pick(4, 30)):  # many visits
        sets.append([(t, rng.randrange(1, 6)) for t in rng.sample(range(400), rng.randrange(40, 120))])
    evs = []
    for vs in sets:
        vs = shuffled(rng, vs)
        ex = [dict(exp=rng.choice([15, 30, 38]), visit=rng.choice([30, 34, 40]), slew=rng.choice([0, 2, 5, 120])) for _ in vs]
        kind = rng.choice(["str", "int", "float"])
        st = [{"str": "ugrizy"[s], "int": s, "float": s / 4}[kind] for _, s in vs]
        tc, sc = rng.choice([("observationStartMJD", "band"), ("mjd", "filt")])
        d = table(**{sc: st, tc: np.array([MJD0 + t * U for t, _ in vs]), "obsid": np.arange(len(vs)),
                     "visitExposureTime": np.array([float(e["exp"]) for e in ex]), "visitTime": np.array([float(e["visit"]) for e in ex]),
                     "slewTime": np.array([float(e["slew"]) for e in ex])})
        bad = rng.choice([-666, -1.5])
        res = []
        one(ctx, res, "NChanges", {}, lambda: M.NChangesMetric(col=sc, order_by=tc), d)
        one(ctx, res, "MinTime", {}, lambda: M.MinTimeBetweenStatesMetric(change_col=sc, time_col=tc, badval=bad), d, bad=bad)
        c = rng.randrange(1, 8)
        one(ctx, res, "Faster", dict(cutoff=c), lambda: M.NStateChangesFasterThanMetric(change_col=sc, time_col=tc, cutoff=c * 1.40625), d)
        s = rng.randrange(0, 8)
        one(ctx, res, "MaxWithin", dict(span=s), lambda: M.MaxStateChangesWithinMetric(change_col=sc, time_col=tc, timespan=s * 1.40625), d)
        one(ctx, res, "OpenShutter", {}, lambda: M.OpenShutterFractionMetric(), d)
        mg, fu = rng.randrange(1, 8), rng.choice([0, 0, 4])
        one(ctx, res, "BruteOSF", dict(maxgap=mg, fudge=fu), lambda: M.BruteOSFMetric(mjd_col=tc, maxgap=mg * 1.40625, fudge=float(fu)), d, lambda r: num(r, bad=-666, limit=10**6))
        evs.append([dict(op="states", vs=[dict(t=t, s=s, **e) for (t, s), e in zip(vs, ex)], res=res)])
    oracle(ctx, "StateChangesTrace", evs)


# ------------------------------------------------------------------------------- T03
RED = dict(median=np.median, mean=np.mean, max=np.max, min=np.min, sum=np.sum)


def seq(r):
    """Histograms (or no value)."""
    if np.ndim(r) == 0:
        return num(r, bad=-666)
    return dict(k="seq", v=[int(x) if x == int(x) else -1 for x in r])


def check_t03(ctx):
    import rubin_sim.maf.metrics as M

    rng = ctx.rng
    r = ctx.design("GapsMC", f"Slots = {ctx.pick(9, 11)}\nPerNight = 3\nSize = {ctx.pick(5, 6)}", ["Inv"])
    sets = [[(t // 3, t % 3 * rng.choice([1, 4])) for t in ts] for ts in r.printed]
    for _ in range(ctx.pick(150, 1500)):
        nights = [rng.randrange(rng.choice([3, 10, 30])) for _ in range(rng.randrange(1, 10))]
        sets.append(sorted({(n, rng.randrange(rng.choice([4, 40, 300]))) for n in nights}))
    for _ in range(ctx.pick(4, 30)):  # many visits
        n = rng.choice([2, 12, 25])
        sets.append(sorted({(rng.randrange(n), rng.randrange(300)) for _ in range(rng.randrange(60, 100))}))
    evs = []
    for vs in sets:
        vs = shuffled(rng, set(vs))
        n0 = rng.choice([0, 0, 0, 364, 3640, 3660])
        tc, nc = rng.choice([("observationStartMJD", "night"), ("mjd", "nights")])
        fl = [2 * rng.randrange(1, 6) for _ in vs]
        d = table(**{tc: np.array([MJD0 + n + t * U for n, t in vs]), nc: [n0 + n for n, _ in vs], "obsid": np.arange(len(vs)),
                     "fiveSigmaDepth": 1.25 * np.log10(np.array(fl, dtype=float))})
        W = [dict(t=1024 * n + t, night=n, f=f) for (n, t), f in zip(vs, fl)]
        res = []
        add = lambda m, p, mk, enc=num: one(ctx, res, m, p, mk, d, enc)
        edges = lambda top, k: sorted(rng.sample(range(top), min(k, top)))
        for al in (False, True):
            b = edges(rng.choice([8, 60, 2100]), rng.randrange(2, 6))
            add("Tgaps", dict(all=al, bins=b), lambda: M.TgapsMetric(times_col=tc, all_gaps=al, bins=np.array(b) * U), seq)
            lo = rng.randrange(0, 6)
            hi = lo + rng.choice([0, 1, 10, 1024, 5000])
            add("TgapsPercent", dict(all=al, lo=lo, hi=hi), lambda: M.TgapsPercentMetric(times_col=tc, all_gaps=al, min_time=lo * U, max_time=hi * U))
            c = edges(rng.choice([5, 12]), rng.randrange(2, 5))
            add("Nightgaps", dict(all=al, bins=c), lambda: M.NightgapsMetric(night_col=nc, all_gaps=al, bins=np.array(c)), seq)
        c = edges(7, rng.randrange(2, 6))
        add("NVisitsPerNight", dict(bins=c), lambda: M.NVisitsPerNightMetric(night_col=nc, bins=np.array(c)), seq)
        f = [1 + 2 * x for x in edges(20, rng.randrange(2, 6))]
        add("CoaddM5PerNight", dict(bins=f), lambda: M.CoaddM5PerNightMetric(night_col=nc, bins=1.25 * np.log10(np.array(f, dtype=float))), seq)
        add("MaxGap", {}, lambda: M.MaxGapMetric(mjd_col=tc))
        pc = rng.choice([0, 25, 50, 75, 100])
        add("NightTimespan", dict(percent=pc), lambda: M.NightTimespanMetric(percentile=pc, night_col=nc, mjd_col=tc))
        fn = rng.choice(list(RED))
        add("IntraNight", dict(f=fn), lambda: M.IntraNightGapsMetric(mjd_col=tc, night_col=nc, reduce_func=RED[fn]))
        add("InterNight", dict(f=fn), lambda: M.InterNightGapsMetric(mjd_col=tc, night_col=nc, reduce_func=RED[fn]))
        add("VisitGap", dict(f=fn), lambda: M.VisitGapMetric(mjd_col=tc, night_col=nc, reduce_func=RED[fn]))
        dt, nm = rng.randrange(1, 8) * rng.choice([1, 1, 200]), rng.random() < 0.5
        add("NRevisits", dict(dt=dt, normed=nm), lambda: M.NRevisitsMetric(mjd_col=tc, d_t=dt * 1.40625, normed=nm))
        lo, mid = rng.randrange(0, 3), rng.randrange(3, 6)
        hi, n1, n2 = mid + rng.randrange(1, 30), rng.randrange(0, 3), rng.randrange(0, 4)
        add("RapidRevisit", dict(lo=lo, mid=mid, hi=hi, n1=n1, n2=n2),
            lambda: M.RapidRevisitMetric(mjd_col=tc, d_tmin=lo * U, d_tpairs=mid * U, d_tmax=hi * U, min_n1=n1, min_n2=n2))
        nm = rng.randrange(1, 4)
        add("RapidUniformity", dict(lo=lo, hi=hi, nmin=nm), lambda: M.RapidRevisitUniformityMetric(mjd_col=tc, min_nvisits=nm, d_tmin=lo * U, d_tmax=hi * U))
        evs.append([dict(op="gaps", vs=W, res=res)])
        # the same visits on other time scales: timescales sampled, uniformity
        ts = sorted({2 * (3 * n + t % 3) + 1 for n, t in vs})
        ts[0] -= 1
        ts = shuffled(rng, ts)
        W2 = [dict(t=t, night=0, f=0) for t in ts]
        d2 = table(**{tc: MJD0 + np.array(ts) * U, "obsid": np.arange(len(ts))})
        res = []
        half = rng.choice([2, 4, 8])
        one(ctx, res, "Gaps", dict(half=half), lambda: M.GapsMetric(times_col=tc, time_scale=half * 48 / 1024), d2)
        lo, hi = min(ts) - rng.randrange(0, 5), max(ts) + rng.randrange(0, 5)
        dflt = rng.random() < 0.4
        if dflt:
            lo, hi = min(ts), max(ts)
        if len(ts) == 1 or hi > lo:
            one(ctx, res, "GeneralUniformity", dict(lo=lo, hi=hi),
                lambda: M.GeneralUniformityMetric(col=tc, min_value=None if dflt else MJD0 + lo * U, max_value=None if dflt else MJD0 + hi * U), d2)
        evs.append([dict(op="gaps", vs=W2, res=res)])
        yr = rng.choice([1, 2, 10])
        d3 = table(**{tc: MJD0 + np.array(ts) * 45.65625, "obsid": np.arange(len(ts))})
        res = []
        one(ctx, res, "Uniformity", dict(total=8 * yr), lambda: M.UniformityMetric(mjd_col=tc, survey_length=float(yr)), d3)
        evs.append([dict(op="gaps", vs=W2, res=res)])
    oracle(ctx, "GapsTrace", evs)
