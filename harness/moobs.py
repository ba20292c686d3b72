"""Metrics of the observations of moving objects: T05 (specification MoObs)."""
import numpy as np

from .metrics import num, runs, shuffled, table

MJD0, U = 60000.0, 1.0 / 1024
BANDS = "ugrizy"


class Mo:
    """A moving object metric as something with run(observations)."""

    def __init__(self, metric, orb=None, hval=20.0, children=False, M=None):
        self.m, self.orb, self.hval, self.children, self.M = metric, orb, hval, children, M

    def run(self, obs, point=None):
        r = self.m.run(obs, self.orb, self.hval)
        if not self.children or r is None or r == self.m.badval:
            return r
        kids = dict(self.m.child_metrics)
        kids["Velocity"] = self.M.DiscoveryVelocityMetric(self.m)
        return {k: (c.run(obs, self.orb, self.hval, r), c.badval) for k, c in kids.items()}


def kids(bad):
    def enc(r):
        if r is None or (not isinstance(r, dict) and r == bad):
            return dict(k="bad")
        if not isinstance(r, dict):
            return dict(k="?", r=repr(r)[:60])
        out = {}
        for k, v in r.items():
            v, none = v
            if v is None or (none is not None and not isinstance(v, tuple) and v == none and k not in ("N_Chances", "N_Obs")):
                out[k] = dict(k="bad")
            elif isinstance(v, tuple):
                out[k] = dict(k="ids", v=[int(x) if x == int(x) else -1 for x in v])
            else:
                out[k] = num(v - MJD0 if k == "Time" else v)
        return dict(k="children", v=out)

    return enc


class Checks:
    def __init__(self, ctx):
        import rubin_sim.maf.metrics as M

        self.ctx, self.rng, self.M, self.evs = ctx, ctx.rng, M, []

    def add(self, res, m, p, make, d, enc=num, orb=None, **kw):
        g, same, kept = runs(self.rng, lambda: Mo(make(), orb, M=self.M, **kw), d, enc)
        res.append(dict(m=m, p=p, g=g, same=bool(same), kept=bool(kept)))
        self.ctx.count(m)

    def obs(self, ts):
        """Observations at (night, time)."""
        rng = self.rng
        seen = rng.choice([1.0, 0.9, 0.6])
        band = rng.choice(["ugrizy", "gr", "grz", "g"])
        lo = rng.choice([1, 2])
        return [dict(t=1024 * n + t, night=n, id=k, vis=int(rng.random() < seen), snr=rng.choice([lo, 4, 5, 6, 9, 12]),
                     vel=rng.randrange(0, 6), trail=rng.choice([1, 1, 2]), band=BANDS.index(rng.choice(band)),
                     lon=rng.choice([40, 40 + self.spread]), phase=rng.choice([3, 3, 7, 8]), mag=rng.randrange(15, 26), anom=0, turns=0, elong=0)
                for k, (n, t) in enumerate(ts)]

    def data(self, os, **more):
        a = lambda f: np.array([float(f(o)) for o in os])
        n = lambda k, add=0: a(lambda o: o[k] + add)
        return table(observationStartMJD=a(lambda o: MJD0 + o["t"] * U), night=self.rng.choice([n("night"), n("night").astype(int)]), vis=n("vis"), SNR=n("snr"), velocity=n("vel"),
                     ra=n("id", 200), dec=n("id", 300), ec_lon=n("id", 400), ec_lat=n("id", 500), solar_elong=n("id", 600),
                     geo_dist=n("id", 100), ecLon=n("lon"), phase=n("phase"), appMagV=n("mag"), appMag=n("mag"), fiveSigmaDepth=n("mag"),
                     seeingFwhmGeom=n("trail"), visitExposureTime=np.full(len(os), 24.0), band=[BANDS[o["band"]] for o in os], **more)

    def all(self, ts):
        rng, M = self.rng, self.M
        self.spread = rng.choice([60, 89, 90, 120])
        os = shuffled(rng, self.obs(ts))
        d = self.data(os)
        res = []
        lim = lambda: rng.choice([0, 0, 5])
        snr = lambda l: None if l == 0 else l
        for _ in range(2):
            l, n, tmin = lim(), rng.choice([1, 2, 2, 3]), rng.choice([0, 1, 2, 3])
            tmax, k, w = tmin + rng.choice([0, 1, 2, 3, 30]), rng.choice([1, 2, 3, 3]), rng.choice([1, 2, 3, 9, 15])
            bad = rng.choice([None, None, -99])
            self.add(res, "Discovery", dict(lim=l, nobs=n, tmin=tmin, tmax=tmax, nnights=k, window=w),
                     lambda: M.DiscoveryMetric(n_obs_per_night=n, t_min=tmin * U, t_max=tmax * U, n_nights_per_window=k, t_window=w, snr_limit=snr(l), badval=bad),
                     d, enc=kids(bad), children=True)
        l = lim()
        n, w = rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 10])
        self.add(res, "Magic", dict(lim=l, n=n, len=w), lambda: M.MagicDiscoveryMetric(n_obs=n, t_window=w, snr_limit=snr(l)), d)
        for m, c in (("NObs", M.NObsMetric), ("NNights", M.NNightsMetric), ("NoSingles", M.NObsNoSinglesMetric), ("Arc", M.ObsArcMetric)):
            self.add(res, m, dict(lim=l), lambda: c(snr_limit=snr(l)), d)
        l, f, n = lim(), rng.choice([1, 2]), rng.choice([1, 2, 3])
        self.add(res, "HighVelocity", dict(lim=l, f=f), lambda: M.HighVelocityMetric(psf_factor=float(f), snr_limit=snr(l)), d)
        self.add(res, "HighVelocityNights", dict(lim=l, f=f, n=n), lambda: M.HighVelocityNightsMetric(psf_factor=float(f), n_obs_per_night=n, snr_limit=snr(l)),
                 d, enc=lambda r: num(r if r == 0 else r - MJD0))
        l, a, b = rng.choice([2, 5]), *rng.sample([1, 2, 4], 2)
        lim2, n = 2 * rng.choice([1, 2, 4, 30, 1030]) + 1, rng.choice([1, 1, 2])
        self.add(res, "InstantColor", dict(lim=l, a=a, b=b, limit2=lim2, n=n),
                 lambda: M.InstantaneousColorMetric(n_pairs=n, snr_limit=l, n_hours=lim2 / 2 * 24 / 1024, b_one=BANDS[a], b_two=BANDS[b]), d)
        l, need, top = lim(), rng.choice([1, 1, 2]), rng.choice([4, 5, 8])
        under = lambda l: None if l == 0 else l - 0.5  # strictly above
        self.add(res, "Color", dict(lim=l, need=need, top=top), lambda: M.ColorAsteroidMetric(weight_det=need, snr_max=top, snr_limit=under(l)), d)
        l, bands, full = lim(), rng.choice([[0, 1, 2, 3, 4, 5], [1, 2]]), rng.choice([2, 3, 4])
        sec = rng.randrange(1, full + 1)
        self.add(res, "Outer", dict(lim=l, bands=bands, full=full, second=sec),
                 lambda: M.LightcurveColorOuterMetric(snr_limit=snr(l), num_req=full, num_sec_filt=sec, filterlist=[BANDS[x] for x in bands]), d)
        need = rng.choice([1, 2, 3])
        self.add(res, "Inversion", dict(lim=l, bands=bands, need=need, top=top),
                 lambda: M.LightcurveInversionAsteroidMetric(weight_det=need, snr_limit=under(l), snr_max=top, filterlist=[BANDS[x] for x in bands]), d)
        win, yr = rng.choice([1, 5, 30, 100]), rng.choice([1, 2])
        self.add(res, "Activity", dict(lim=l, win=win, days=365 * yr), lambda: M.ActivityOverTimeMetric(win, snr_limit=snr(l), survey_years=yr), d)
        self.add(res, "Peak", dict(lim=0), lambda: M.PeakVMagMetric(), d)
        self.evs.append([dict(op="mo", os=os, res=res)])

    def orbit(self, k):
        """Where on its orbit the object is seen (anomalies in half degrees, odd)."""
        import pandas as pd

        rng, M = self.rng, self.M
        self.spread = 0
        os = self.obs([(0, x) for x in range(k)])
        size, m0, e = rng.choice([1, 7, 10, 45, 90, 360]), rng.randrange(0, 360, 5), rng.choice([0.0, 0.5])
        a = rng.choice([1.0, 4.0])
        period = a**1.5 * 365.25
        t0 = 60000.0
        peri = rng.random() < 0.5
        mjd = []
        for o in os:
            half = 2 * rng.randrange(-400, 800) + 1
            o["anom"] = half + (0 if peri else 2 * m0)
            mjd.append(t0 + half / 720 * period)
            o["turns"] = int(np.degrees((half / 720) % (2 * np.pi)) // size)
        d = self.data(os)
        d["observationStartMJD"] = mjd
        orb = dict(epoch=t0, H=20.0)
        orb.update(rng.choice([dict(a=a, e=e), dict(q=a * (1 - e), e=e)]))
        orb.update(dict(tPeri=t0) if peri else dict(meanAnomaly=float(m0)))
        res, l = [], rng.choice([0, 5])
        self.add(res, "ActivityPerihelion" if peri else "ActivityOrbit", dict(lim=l, size=size),
                 lambda: M.ActivityOverPeriodMetric(size, snr_limit=None if l == 0 else l), d, orb=pd.Series(orb))
        self.evs.append([dict(op="orbit", os=os, res=res)])

    def known(self, k):
        rng, M = self.rng, self.M
        self.spread = 0
        os = self.obs([(0, x) for x in range(k)])
        for o, t in zip(os, rng.sample(range(40), k)):
            o.update(t=t, elong=rng.choice([90, 100, 110]))
        d = self.data(os, **{"MJD(UTC)": np.array([float(o["t"]) for o in os]), "Elongation": np.array([float(o["elong"]) for o in os])})
        ends, mags, effs = sorted(rng.sample(range(1, 40), 3)), [rng.randrange(14, 27) for _ in range(4)], [rng.choice([0, 1, 1]) for _ in range(4)]
        kw = dict(zip(("t_switch1", "t_switch2", "t_switch3"), ends))
        kw.update({f"v_mag_thresh{i + 1}": m for i, m in enumerate(mags)})
        kw.update({f"eff{i + 1}": float(e) for i, e in enumerate(effs)})
        bad = int(ends[2]) + 365 * 1000
        res = []
        self.add(res, "Known", dict(lim=0, elong=100, mags=mags, ends=ends, effs=effs), lambda: M.KnownObjectsMetric(elong_thresh=100.0, **kw), d,
                 enc=lambda r: num(r, bad=bad))
        self.evs.append([dict(op="known", os=shuffled(rng, os), res=res)])


def check_t05(ctx):
    rng = ctx.rng
    r = ctx.design("MoObsMC", f"Slots = {ctx.pick(9, 12)}\nPerNight = 3\nSize = {ctx.pick(4, 5)}", ["Inv"])
    C = Checks(ctx)
    for ts in r.printed:
        C.all([tuple(x) for x in ts])
    for _ in range(ctx.pick(400, 4000)):
        nights = [rng.randrange(rng.choice([2, 5, 12, 40, 400])) for _ in range(rng.randrange(1, 4))]
        ts = {(rng.choice(nights), rng.randrange(rng.choice([4, 8, 60]))) for _ in range(rng.randrange(1, 14))}
        C.all(sorted(ts))
    for _ in range(ctx.pick(120, 1200)):
        # good nights with lone observations or too long nights in between
        ts = set()
        for n in rng.sample(range(rng.choice([6, 9, 20])), rng.randrange(3, 7)):
            ts |= {(n, x) for x in rng.choice([[0, 2], [0, 2], [1, 4], [3], [0, 50], [0, 1, 3], [0, 40, 42], [5, 90, 200]])}
        C.all(sorted(ts))
    for _ in range(ctx.pick(150, 1500)):
        C.orbit(rng.randrange(1, 7))
        C.known(rng.randrange(1, 8))
    ctx.oracle("MoObsTrace", C.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
