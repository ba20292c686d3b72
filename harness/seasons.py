"""Metrics of seasons and of templates: T06, T04 (specification Seasons)."""
import math

import numpy as np

from .metrics import num, runs, shuffled, table, throughputs

YEAR = 374016  # 365.25 days in units of 1/1024 day
SURVEY0 = 60980.0
BANDS = "ugrizy"
C = 24.0  # a depth of k is C + 1.25 log10(k)


def sun_passes(ra, start):
    """The time after `start` at which the Sun first has this right ascension (degrees), in days."""
    b = 60940.0 + (ra - 178.98403541421598) / 360 * 365.25
    return b - math.floor((b - start) / 365.25) * 365.25


def log6(x):
    return int(round(math.log10(float(x)) * 1e6)) if x > 0 else -(10**9)


class Checks:
    def __init__(self, ctx):
        import rubin_sim.maf.metrics as M
        from rubin_scheduler.utils import SURVEY_START_MJD

        self.ctx, self.rng, self.M, self.evs = ctx, ctx.rng, M, []
        self.start = float(SURVEY_START_MJD)
        throughputs(ctx.scratch)

    def target(self, start=None):
        while True:
            ra = self.rng.choice([0.0, 359.0, self.rng.uniform(0, 360)])
            b = sun_passes(ra, self.start if start is None else start)
            if 1 < b - (self.start if start is None else start) < 364:
                return ra, b

    def add(self, res, m, p, make, d, enc, point):
        g, same, kept = runs(self.rng, make, d, enc, point)
        res.append(dict(m=m, p=p, g=g, same=bool(same), kept=bool(kept)))
        self.ctx.count(m)

    # ------------------------------------------------------------ seasons
    def seasons(self, ts):
        """ts: times in units of 1/1024 day since the start of season 0."""
        rng, M = self.rng, self.M
        ra, b = self.target()
        ebv = rng.choice([0.0, 0.3, 1.2])
        long = rng.choice([1.0, 0.8])
        cuts = {f: 20.0 + k for k, f in enumerate(BANDS)}
        tdc = M.TdcMetric(mag_cuts=cuts)
        os = []
        for t in ts:
            os.append(dict(t=t, night=(t + 500 * YEAR) // 1024 - 500 * YEAR // 1024, exp=30 if rng.random() < long else rng.choice([5, 15, 18]), band=rng.choice(BANDS), deep=int(rng.random() < long)))
        d = table(
            observationStartMJD=np.array([b + o["t"] / 1024 for o in os]), night=np.array([o["night"] for o in os]), visitExposureTime=np.array([float(o["exp"]) for o in os]),
            band=[o["band"] for o in os],
            fiveSigmaDepth=np.array([cuts[o["band"]] + tdc.ax1[o["band"]] * ebv + (rng.choice([0.01, 1.5]) if o["deep"] else rng.choice([-0.01, -1.5])) for o in os]))
        for k in range(len(os)):
            os[k].pop("band")
        perm = shuffled(rng, range(len(os)))
        d = d[perm]
        point = dict(ra=np.radians(ra), dec=0.0, ebv=ebv)
        res = []
        how = rng.choice(["median", "max", "min", "sum", "mean", "size"])
        bad = rng.choice([-666, -999])
        f = {"median": np.median, "max": np.max, "min": np.min, "sum": np.sum, "mean": np.mean, "size": np.size}[how]
        lim = lambda: rng.choice([0, 16, 20])
        e = lim()
        n = lambda r: num(r, bad=bad, limit=10**6)
        self.add(res, "SeasonLength", dict(how=how, exp=e), lambda: M.SeasonLengthMetric(min_exp_time=e, reduce_func=f, badval=bad), d, n, point)
        e = lim()
        self.add(res, "Campaign", dict(exp=e), lambda: M.CampaignLengthMetric(min_exp_time=e, badval=bad), d, n, point)
        e = lim()
        self.add(res, "Frequency", dict(exp=e), lambda: M.MeanCampaignFrequencyMetric(min_exp_time=e, badval=bad), d, n, point)
        dn, sn, cn = rng.choice([3.0, 1.0]), rng.choice([4.0, 2.5]), rng.choice([5.0, 2.0])

        def enc(r):
            if not isinstance(r, dict):
                return num(r, bad=bad)
            m = M.TdcMetric(mag_cuts=cuts)
            v = dict(accuracy=m.reduce_accuracy(r), precision=m.reduce_precision(r), rate=m.reduce_rate(r), cad=m.reduce_cadence(r), sea=m.reduce_season(r), camp=m.reduce_campaign(r),
                     dnorm=dn, snorm=sn, cnorm=cn, c006=0.06, c4=4.0, c30=30.0)
            return dict(k="tdc", sea=num(v["sea"], limit=10**6), cad=num(v["cad"]), camp=num(v["camp"]), l={k: log6(x) for k, x in v.items()})

        self.add(res, "Tdc", dict(exp=0), lambda: M.TdcMetric(mag_cuts=cuts, cad_norm=dn, sea_norm=sn, camp_norm=cn, badval=bad), d, enc, point)
        self.evs.append([dict(op="seasons", os=shuffled(rng, os), res=res)])

    def edges(self, n):
        from rubin_sim.maf.metrics.season_metrics import find_season_edges

        q = sorted(self.rng.randrange(-6, 24) for _ in range(n))
        first, last = find_season_edges(np.array(q) / 4.0)
        self.ctx.count("find_season_edges")
        self.evs.append([dict(op="edges", q=q, first=[int(x) for x in first], last=[int(x) for x in last])])

    # ---------------------------------------------------------- templates
    def templates(self, visits):
        """visits: (t, night, s, k); t in 1/1024 day since the start of season 0."""
        rng, M = self.rng, self.M
        unit = 1 / 16
        start = rng.choice([None, 60000.25, 62345.5])
        ra, b = self.target(start)
        lat = -0.5
        dec = lat + rng.choice([0.0, 0.4, -0.9])
        os = [dict(t=t, night=n, s=s, k=k) for t, n, s, k in visits]
        band = rng.choice(BANDS)
        mag = lambda k: C + 1.25 * math.log10(k)
        d = table(
            observationStartMJD=np.array([b + o["t"] / 1024 for o in os]), night=np.array([o["night"] for o in os]), band=[band] * len(os),
            seeingFwhmEff=np.array([o["s"] * unit for o in os]), seeingFwhmGeom=np.array([o["s"] * unit for o in os]), fiveSigmaDepth=np.array([mag(o["k"]) for o in os]))
        d = d[shuffled(rng, range(len(os)))]
        p = dict(n=rng.choice([1, 2, 2, 3, 4]), sq=rng.choice([0, 25, 50, 75, 100]), mq=rng.choice([0, 25, 50, 75, 100]), sbest2=rng.choice([1, 3, 5, 9, 13]), kbest2=rng.choice([1, 3, 5, 9, 15, 31]))
        probe = M.TemplateTime()
        # thresholds at zenith which are the wanted ones at this declination and band
        x = 1 / math.cos(abs(dec - lat))
        worse = x**0.6 * (500 / probe.eff_wavelens[band]) ** 0.3
        thr = p["sbest2"] / 2 * unit / worse
        m5 = mag(p["kbest2"] / 2) + probe.extinction_coeffs[band] * (1 - x) + 2.5 * math.log10(worse)
        m5thr = rng.choice([m5, {f: m5 if f == band else 5.0 for f in BANDS}])
        make = lambda: M.TemplateTime(n_images_in_template=p["n"], seeing_threshold=thr, m5_threshold=m5thr, seeing_percentile=p["sq"], m5_percentile=p["mq"],
                                      mjd_start=start, site_latitude_rad=lat)
        ofm = lambda m: 10 ** ((m - C) * 0.8)
        ints = lambda a: [int(round(float(v))) if abs(v - round(float(v))) < 1e-6 else -1 for v in np.asarray(a)]

        def enc(r):
            if not isinstance(r, dict):
                return num(r, bad=-666)
            m = M.TemplateTime()
            lc = r["diffim_lc"]
            red = dict(night=m.reduce_night_template_created(r), until=m.reduce_n_images_until_template(r), season=m.reduce_frac_into_season(r), depth=m.reduce_template_m5(r),
                       seeing=m.reduce_template_seeing(r), better=m.reduce_fraction_better_template_seeing(r), alerts=m.reduce_total_alerts(r))
            red["with"] = m.reduce_n_images_with_template(r)
            same = {"night": "night_template_created", "until": "n_images_until_template", "with": "n_images_with_template", "season": "frac_into_season_template_created",
                    "depth": "template_m5", "seeing": "template_seeing", "better": "fraction_better_template_seeing", "alerts": "total_alerts"}
            n = len(lc["mjd"])
            return dict(
                k="t", night=num(r["night_template_created"]), until=num(r["n_images_until_template"]), season=num(r["frac_into_season_template_created"], limit=10**6), bench=num(r["bench_seeing"] / unit),
                depth=num(ofm(r["template_m5"])), seeing2=num((r["template_seeing"] / unit) ** 2), inK=ints(ofm(np.asarray(r["template_input_m5s"]))), inS=ints(np.asarray(r["template_input_seeing"]) / unit),
                better=num(r["fraction_better_template_seeing"], bad=-666),
                sums=bool(np.isclose(r["total_alerts"], np.sum(lc["n_alerts"]), rtol=1e-9)),
                reduced=bool(all(np.array_equal(np.asarray(red[a], dtype=float), np.asarray(r[c], dtype=float), equal_nan=True) for a, c in same.items())
                             and all(len(lc[c]) == n for c in lc) and np.allclose(lc["template_m5"], r["template_m5"]) and np.allclose(lc["template_seeing"], r["template_seeing"])
                             and all(str(f) == band for f in lc["band"])),
                lc=dict(t=ints((np.asarray(lc["mjd"]) - b) * 1024), night=ints(lc["night"]), s=ints(np.asarray(lc["science_seeing"]) / unit), k=ints(ofm(np.asarray(lc["science_m5"]))),
                        alerts=[num((a / 1e4) ** (1 / 0.6 * 0.8) * 10 ** (0.8 * (24.7 - C)), tol=1e-8) for a in lc["n_alerts"]], diff=[num(ofm(a), tol=1e-8) for a in lc["diff_m5"]]),
                **{"with": num(r["n_images_with_template"])})

        def safe(r):
            try:
                return enc(r)
            except (KeyError, TypeError, ValueError) as ex:
                return dict(k="?", r=repr(ex)[:80])

        res = []
        self.add(res, "Template", p, make, d, safe, dict(ra=np.radians(ra), dec=dec))
        self.add(res, "Exists", {}, lambda: M.TemplateExistsMetric(), d, num, None)
        self.evs.append([dict(op="templates", os=shuffled(rng, os), res=res)])

    def judge(self):
        self.ctx.oracle("SeasonsTrace", self.evs, constants=f"Year = {YEAR}", chunks=6, key=lambda b: "+".join(b["clauses"]))


def times(rng, n):
    """Visits over some seasons; some right at the start and the end of seasons."""
    seasons = [rng.randrange(-2, 10) for _ in range(rng.randrange(1, 5))]
    out = []
    for _ in range(n):
        s = rng.choice(seasons) * YEAR
        out.append(s + rng.choice([64, YEAR - 64, 1024 * rng.randrange(1, 365), rng.randrange(64, YEAR - 64), 1024 * 100 + rng.randrange(2000)]))
    return out


def check_t06(ctx):
    rng, K = ctx.rng, Checks(ctx)
    r = ctx.design("SeasonsMC", f"Size = {ctx.pick(3, 4)}\nSlots = {ctx.pick(8, 11)}\nQual = 1\nYear = 4", ["Inv"])
    for v in r.printed:
        K.seasons([q * (YEAR // 4) + rng.choice([64, 300, 1024, 5000]) for q, _, _ in v])
    for _ in range(ctx.pick(500, 6000)):
        K.seasons(times(rng, rng.randrange(1, 12)))
        K.edges(rng.randrange(1, 12))
    for _ in range(ctx.pick(4, 30)):  # many visits
        K.seasons(times(rng, rng.randrange(40, 120)))
        K.edges(rng.randrange(40, 120))
    K.judge()


def check_t04(ctx):
    rng, K = ctx.rng, Checks(ctx)
    r = ctx.design("SeasonsMC", f"Size = {ctx.pick(3, 4)}\nSlots = {ctx.pick(2, 2)}\nQual = 2\nYear = 4", ["Inv"], timeout=800)
    for v in r.printed:
        # two slots to the night, some nights apart
        K.templates([(q * 512 + 1024 * 30, q // 2 + 3, s * 2, k * 2) for q, s, k in v])
    for _ in range(ctx.pick(700, 8000)):
        n, nights = rng.randrange(1, 11), rng.choice([2, 4, 9, 500])
        hi = rng.choice([2, 4, 7])
        ts = sorted(rng.sample([1024 * a + b for a in range(nights) for b in (0, 20, 300)], min(n, nights * 3)))
        K.templates([(t + 1024 * 40, t // 1024, rng.randrange(1, hi + 1), rng.randrange(1, 2 * hi)) for t in ts])
    for _ in range(ctx.pick(4, 30)):  # many visits
        ts = sorted(rng.sample([1024 * a + b for a in range(300) for b in (0, 20, 300)], rng.randrange(40, 100)))
        K.templates([(t + 1024 * 40, t // 1024, rng.randrange(1, 8), rng.randrange(1, 14)) for t in ts])
    K.judge()
