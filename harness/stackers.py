"""Columns derived for each visit: T09 (specification Stackers)."""
import math

import numpy as np

from .metrics import num, quiet, same_visits, shuffled, table

BANDS = "ugrizy"
LAT = -30.2446388
C = 24.0
NOTES = ["", "pair_33, gr, a", "blob", "DD:COSMOS", "DD:ELAISS1, 2", "DDF ELAIS", "blob, DD:x", "a b,c"]


def cell(v):
    """Something two cells can be compared by."""
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, (int, np.integer)):
        return float(v)
    return str(v)


def alike(a, b):
    a, b = cell(a), cell(b)
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-10)
    return a == b


class Checks:
    def __init__(self, ctx):
        import healpy as hp
        import rubin_sim.maf.stackers as S
        from rubin_sim.maf.stackers.general_stackers import Dcr2Stacker, NoteRootStacker

        self.ctx, self.rng, self.S, self.hp, self.evs = ctx, ctx.rng, S, hp, []
        self.Dcr2, self.NoteRoot = Dcr2Stacker, NoteRootStacker

    # ------------------------------------------------------------ visits
    def rows(self, n):
        rng = self.rng
        day0 = rng.choice([60000, 59214, 60368, 58849, rng.randrange(51544, 73000)])
        close = rng.random() < 0.6
        self.weights = [rng.randrange(5) for _ in range(4)]
        out, used = [], set()
        for k in range(n):
            while True:
                day = day0 + (rng.randrange(2) if close else rng.randrange(400))
                s = rng.choice([0, 43199, 43200, 86399, rng.randrange(86400), 40000 + 40 * rng.randrange(200), 80000 + 40 * rng.randrange(100)])
                if (day, s) not in used:
                    break
            used.add((day, s))
            ra = rng.choice([x for x in range(48) if x % 12])
            note = rng.choice(NOTES)
            exp = rng.choice([10, 20, 30])
            ring = rng.randrange(12 * 16 * 16)
            out.append(dict(id=k, day=day, s=s, ra=ra, lst=rng.choice([rng.randrange(48), (ra + 24) % 48, ra]), z=rng.randrange(1, 5), air=rng.randrange(4, 13), far=rng.random() < 0.5,
                            band=rng.randrange(6), q=rng.randrange(1, 6), sky=rng.choice([1, 20, 50, 60, 200]), exp=exp, vt=exp + rng.choice([0, 4]), nexp=rng.choice([1, 2]), k=rng.randrange(1, 9),
                            root=note.split(",")[0], dd=note.split(",")[0] if note.startswith("DD") else "", area=self.weights[ra // 12], ring=ring, nest=int(self.hp.ring2nest(16, ring)), note=note))
        return out

    def visits(self, os, deg):
        a = lambda f: np.array([float(f(o)) for o in os])
        ang = (lambda x: x) if deg else np.radians
        zd = (0.0, 30.0, 45.0, 60.0)
        th, ph = self.hp.pix2ang(16, [o["ring"] for o in os], lonlat=True)
        return table(
            observationStartMJD=a(lambda o: o["day"] + (o["s"] + 0.25) / 86400), night=np.array([o["day"] for o in os]), fieldRA=ang(a(lambda o: 7.5 * o["ra"])),
            fieldDec=ang(a(lambda o: LAT + (60 if o["far"] else 0))), observationStartLST=ang(a(lambda o: 7.5 * o["lst"])), altitude=ang(a(lambda o: 90 - zd[o["z"] - 1])),
            airmass=a(lambda o: o["air"] / 4), band=np.array([BANDS[o["band"]] for o in os]), seeingFwhmEff=a(lambda o: 2.354 * 0.25 * o["q"]),
            skyBrightness=a(lambda o: 28.0 + o["band"] / 4 - 2.5 * math.log10(o["sky"] / 0.25**2)), visitExposureTime=a(lambda o: o["exp"]), visitTime=a(lambda o: o["vt"]),
            numExposures=np.array([o["nexp"] for o in os]), fiveSigmaDepth=a(lambda o: C + o["band"] / 2 + 1.25 * math.log10(o["k"])), scheduler_note=np.array([o["note"] for o in os]),
            moonAlt=a(lambda o: o["lst"] - 20), sunAlt=a(lambda o: -1.0 if o["z"] > 2 else 0.2), hpRA=th, hpDec=ph, **{f"p{j}": a(lambda o: 10 * j + o["ra"] - 20) for j in range(1, 9)})

    # ------------------------------------------------------------ stackers
    def stackers(self, deg):
        """name: (parameters, make, encode one visit, helper columns)."""
        S, rng = self.S, self.rng
        n, i = num, lambda x: int(x) if x == int(x) else -1
        deg_of = (lambda x: n(x)) if deg else (lambda x: n(math.degrees(x)))
        day = np.datetime64("1858-11-17")

        def when(t):
            ns = int((np.datetime64(t.tz_localize(None) if getattr(t, "tzinfo", None) else t, "ns") - day.astype("datetime64[ns]")).astype("int64"))
            return [ns // (86400 * 10**9), ns % (86400 * 10**9) // 10**9]

        base, normed = rng.choice([30, 15]), rng.random() < 0.5
        fid = {f: C + k / 2 for k, f in enumerate(BANDS)}
        weights = np.zeros(12 * 32 * 32)
        lon = self.hp.pix2ang(32, np.arange(len(weights)), lonlat=True)[0]
        for k in range(4):
            weights[(lon // 90).astype(int) == k] = self.weights[k] / 4
        need, name, nodd = rng.choice([1, 4, 6, 8, 10, 16]), rng.choice(["WFD", "lowdust"]), rng.random() < 0.6
        mags = [rng.randrange(1, 90) for _ in BANDS]
        full = rng.choice([1000, 1500, 3000])
        zp, km = {f: 28.0 + k / 4 for k, f in enumerate(BANDS)}, {f: 0.1 + k / 20 for k, f in enumerate(BANDS)}
        north = rng.random() < 0.5
        max2 = rng.choice([0, 0, 2 * rng.choice([10, 60, 600, 4000]) + 1])

        def sat(r):
            if math.isnan(r["saturation_mag"]):
                return dict(rate=dict(k="nan"))
            b = r["band"]
            return dict(rate=num(10 ** (-0.4 * (r["saturation_mag"] - zp[b] + km[b] * (r["airmass"] - 1))) / (2 * math.pi)))

        def dcr2(r):
            v = r["dcr_var"]
            return dict(var=num(v * 1000), sum=bool(math.isclose(r["ra_dcr_var"] + r["dec_dcr_var"], v, rel_tol=1e-9, abs_tol=1e-12)),
                        det=bool(math.isclose(r["ra_dcr_var"] * r["dec_dcr_var"], r["ra_dec_dcr_cov"] ** 2, rel_tol=1e-6, abs_tol=1e-12)))

        over = lambda r: dict(overhead=dict(k="nan") if math.isnan(r["overhead"]) else num(round(float(r["overhead"]), 3)))
        hel = ["zenithDistance", "PA", "HA"]
        st = {
            "HA": ({}, lambda: S.HourAngleStacker(degrees=deg), lambda r: dict(HA=n(r["HA"])), []),
            "ZenithDist": ({}, lambda: S.ZenithDistStacker(degrees=deg), lambda r: dict(zenithDistance=deg_of(r["zenithDistance"])), []),
            "PA": ({}, lambda: S.ParallacticAngleStacker(degrees=deg), lambda r: {}, ["HA"]),
            "NormAirmass": (dict(north=north), lambda: S.NormAirmassStacker(degrees=deg, **({"telescope_lat": LAT + 60} if north else {})), lambda r: dict(normairmass=n(r["normairmass"])), []),
            "DayObs": ({}, lambda: S.DayObsStacker(), lambda r: dict(dayObs=i(r["dayObs"])), []),
            "DayObsMJD": ({}, lambda: S.DayObsMJDStacker(), lambda r: dict(day_obs_mjd=i(r["day_obs_mjd"])), []),
            "DayObsISO": ({}, lambda: S.DayObsISOStacker(), lambda r: dict(day_obs_iso8601=[int(x) for x in str(r["day_obs_iso8601"]).split("-")]), []),
            "Datetime64": ({}, lambda: S.ObservationStartDatetime64Stacker(), lambda r: dict(observationStartDatetime64=when(r["observationStartDatetime64"])), []),
            "Timestamp": ({}, lambda: S.ObservationStartTimestampStacker(), lambda r: dict(start_timestamp=when(r["start_timestamp"])), []),
            "Overhead": (dict(max2=max2), lambda: S.OverheadStacker(**({"max_gap": max2 / 120} if max2 else {})), over, ["day_obs_mjd"]),
            "Teff": (dict(base=base, normed=normed), lambda: S.TeffStacker(fiducial_depth=fid, fiducial_exptime=base, normed=normed), lambda r: dict(t_eff=n(r["t_eff"])), []),
            "NoteRoot": ({}, lambda: self.NoteRoot(), lambda r: dict(scheduler_note_root=str(r["scheduler_note_root"])), []),
            "Healpix": ({}, lambda: S.HealpixStacker(ra_col="hpRA", dec_col="hpDec", nside=16), lambda r: dict(ring_healpix=i(r["ring_healpix"]), nest_healpix=i(r["nest_healpix"])), []),
            "Dcr": (dict(mags=mags), lambda: S.DcrStacker(degrees=deg, dcr_magnitudes={f: m / 1000 for f, m in zip(BANDS, mags)}), lambda r: dict(amp2=n((r["ra_dcr_amp"] ** 2 + r["dec_dcr_amp"] ** 2) * 1e6)), hel),
            "Dcr2": (dict(mags=mags), lambda: self.Dcr2(degrees=deg, dcr2_magnitudes={f: m / 1000 for f, m in zip(BANDS, mags)}), dcr2, hel),
            "Saturation": (dict(full=full), lambda: S.SaturationStacker(saturation_e=float(full), zeropoints=zp, km=km, pixscale=0.25), sat, []),
            "FiveSigma": ({}, lambda: S.FiveSigmaStacker(), lambda r: {}, []),
            "M5Optimal": ({}, lambda: S.M5OptimalStacker(filter_col="band"), lambda r: {}, []),
            "Galactic": ({}, lambda: S.GalacticStacker(degrees=deg), lambda r: {}, []),
            "Ecliptic": ({}, lambda s=rng.random() < 0.5: S.EclipticStacker(degrees=deg, subtract_sun_lon=s), lambda r: {}, []),
            "Parallax": ({}, lambda: S.ParallaxFactorStacker(degrees=deg), lambda r: {}, []),
            "NFollow": ({}, lambda: S.NFollowStacker(min_size=6.0, degrees=deg), lambda r: {}, []),
            "Sdss": ({}, lambda: S.SdssRADecStacker(), lambda r: {}, []),
        }
        if deg:
            st["WFD"] = (dict(need16=need, name=name, nodd=nodd), lambda: S.WFDlabelStacker(footprint=weights, fp_threshold=need / 16, area_id_name=name, exclude_dd=nodd), lambda r: dict(area_id=str(r["area_id"])), [])
        return st

    def units(self, st, s, deg):
        if not isinstance(s.units, (list, tuple)) or len(s.units) != len(s.cols_added):
            return False
        angle = {"Galactic": "rad", "ZenithDist": "deg" if deg else "rad", "PA": "deg" if deg else "rad", "Ecliptic": "deg" if deg else "rad", "HA": "hour", "Teff": None}.get(st)
        if st == "Teff":
            return s.units[0] == ("" if s.normed else "seconds")
        return angle is None or all(str(u).lower().startswith(angle) for u in s.units)

    def history(self, os, names):
        """Run some stackers after one another."""
        rng = self.rng
        deg = rng.random() < 0.6
        d = self.visits(os, deg)
        sts = self.stackers(deg)
        for st in names:
            if st not in sts:
                continue
            p, make, enc, helpers = sts[st]
            sk = make()
            adds = list(sk.cols_added)
            pre = [c for c in adds if c not in d.dtype.names and rng.random() < 0.15]
            if pre and st != "Timestamp":
                kinds = dict(zip(adds, getattr(sk, "cols_added_dtypes", None) or [float] * len(adds)))
                new = np.zeros(len(d), dtype=d.dtype.descr + [(c, kinds[c]) for c in pre])
                for c in d.dtype.names:
                    new[c] = d[c]
                for c in pre:
                    new[c] = "2020" if np.dtype(kinds[c]).kind == "U" else 77
                d = new
            override = rng.random() < 0.3
            e = dict(op="run", st=st, p=p, override=override, always=st in ("WFD", "Sdss"), adds=adds, helpers=helpers, before=list(d.dtype.names), after=[], old={}, own={}, got=[], os=os, kept=True, units=True,
                     local=st != "Overhead", raised="")
            keep = d.copy()
            try:
                r = quiet(sk.run, d, override=override)
                e["kept"] = bool(same_visits(keep, d))
                e["units"] = bool(self.units(st, sk, deg))
                e["after"] = list(r.dtype.names)
                e["old"] = {c: [alike(a, b) for a, b in zip(keep[c], r[c])] if len(r) == len(keep) else [False] for c in keep.dtype.names if c in r.dtype.names}
                if e["local"]:
                    ones = [quiet(make().run, keep[j : j + 1], override=override) for j in range(len(keep))]
                    e["own"] = {c: [alike(o[c][0], x) for o, x in zip(ones, r[c])] for c in adds}
                e["got"] = [enc(x) for x in r]
            except Exception as ex:
                e["raised"] = repr(ex)[:200]
            self.ctx.count(st)
            self.evs.append([e])
            if e["raised"]:
                return
            d = np.asarray(r) if not isinstance(r, np.recarray) else r.view(r.dtype.fields and np.dtype(r.dtype.descr) or r.dtype, np.ndarray)
            if pre or st in ("Timestamp", "Datetime64") or set(d.dtype.names) & set(sum((x[3] for x in sts.values()), [])) and override:
                return

    def frame(self, os):
        """A DataFrame of visits (only the time stamp stacker takes one)."""
        import pandas as pd

        d = pd.DataFrame({"observationStartMJD": [o["day"] + (o["s"] + 0.25) / 86400 for o in os], "x": [o["id"] for o in os]}, index=[7 * o["id"] for o in os])
        keep = d.copy()
        sts = self.stackers(True)
        p, make, enc, helpers = sts["Timestamp"]
        r = quiet(make().run, d)
        e = dict(op="run", st="Timestamp", p=p, override=False, always=False, adds=["start_timestamp"], helpers=[], before=["observationStartMJD", "x"], after=list(r.columns), units=True, local=False, own={}, os=os,
                 kept=bool(keep.equals(d)), old={c: [bool(v) for v in keep[c] == r[c]] for c in keep.columns}, got=[dict(start_timestamp=enc(dict(start_timestamp=t))["start_timestamp"]) for t in r["start_timestamp"]], raised="")
        self.ctx.count("Timestamp of a DataFrame")
        self.evs.append([e])

    def coadd(self, os):
        cols = ["observationStartMJD", "fieldRA", "fieldDec", "fiveSigmaDepth", "band", "night", "numExposures", "visitTime", "visitExposureTime", "seeingFwhmEff"]
        rng = self.rng
        for o in os:  # something to coadd
            if rng.random() < 0.7:
                o.update(ra=rng.choice([1, 5]), far=False, band=rng.choice([1, 2]), day=os[0]["day"])
        d = self.visits(os, True)
        d = table(**{c: d[c] for c in cols})
        keep = d.copy()
        r = quiet(self.S.CoaddStacker().run, d)
        rows = [dict(ra=int(round(x["fieldRA"] / 7.5)), far=bool(x["fieldDec"] > 0), band=BANDS.index(str(x["band"])), day=int(x["night"]), k=num(10 ** (0.8 * (x["fiveSigmaDepth"] - C - BANDS.index(str(x["band"])) / 2))),
                     nexp=int(x["numExposures"]), vt=int(round(x["visitTime"])), exp=int(round(x["visitExposureTime"])), coadd=int(x["coadd"]), q=num(x["seeingFwhmEff"] / (2.354 * 0.25))) for x in r]
        self.ctx.count("Coadd")
        self.evs.append([dict(op="coadd", os=os, rows=rows, kept=bool(same_visits(keep, d)))])


ALL = ["HA", "ZenithDist", "PA", "NormAirmass", "DayObs", "DayObsMJD", "DayObsISO", "Datetime64", "Timestamp", "Overhead", "Teff", "NoteRoot", "Healpix", "Dcr", "Dcr2", "Saturation", "FiveSigma", "M5Optimal",
       "Galactic", "Ecliptic", "Parallax", "NFollow", "Sdss", "WFD"]
SLOW = ["Ecliptic", "Parallax", "NFollow", "Galactic"]


def check_t09(ctx):
    rng = ctx.rng
    ctx.design("StackersMC", f"First = {ctx.pick(58000, 36000)}\nLastDay = {ctx.pick(62000, 90000)}\nRows = 1", ["Calendar"], init="CInit", next_="CNext")
    ctx.design("StackersMC", f"First = 0\nLastDay = 0\nRows = {ctx.pick(2, 3)}", ["Tables"], init="TInit", next_="TNext")
    K = Checks(ctx)
    for k in range(ctx.pick(14, 120)):
        for st in ALL:
            n = rng.randrange(1, 4 if st in SLOW else 9)
            K.history(shuffled(rng, K.rows(n)), [st] + rng.sample([x for x in ALL if x not in SLOW], rng.randrange(0, 3)))
    for _ in range(ctx.pick(60, 600)):
        K.history(shuffled(rng, K.rows(rng.randrange(2, 12))), ["Overhead"])
        K.coadd(K.rows(rng.randrange(1, 9)))
        K.frame(K.rows(rng.randrange(1, 6)))
    ctx.oracle("StackersTrace", K.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
