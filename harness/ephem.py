"""Ephemerides of moving objects: C02 (specification Ephem)."""
import os

import numpy as np

from .metrics import num, quiet

T0 = 59000.0
COLS = ("ra", "dec", "geo_dist", "vmag", "elongation")


class Given:
    """What ChebyValues takes coefficients from."""

    def __init__(self, coeffs):
        self.coeffs = coeffs


class Lookup:
    def __init__(self, ctx):
        from rubin_sim.moving_objects import ChebyFits, ChebyValues

        self.ctx, self.rng, self.CF, self.CV, self.evs = ctx, ctx.rng, ChebyFits, ChebyValues, []

    def one(self, segs):
        ctx, rng = self.ctx, self.rng
        n = dict(zip(COLS, (rng.randrange(2, 5),) * 2 + tuple(rng.randrange(2, 5) for _ in range(3))))
        # series as long as those kept in practice, asked for where they can be added up exactly
        many = rng.random() < 0.25
        if many:
            n = dict(zip(COLS, (rng.choice([14, 12]),) * 2 + tuple(rng.choice([9, 11, 5]) for _ in range(3))))
            ctx.count("long series")
        some = lambda c: [rng.randrange(-4, 5) if not many or k in few else 0 for few in [rng.sample(range(n[c]), 2)] for k in range(n[c])]
        segs = [dict(s, c={c: some(c) for c in COLS}) for s in segs]
        kind = rng.choice(["int", "str", "long"])
        name = {"int": lambda o: o * 7 - 3, "str": lambda o: "S%dx" % o, "long": lambda o: "obj" + "abc"[o % 3] * o}[kind]
        back = {name(o): o for o in range(1, 20)}
        order = rng.choice(["time", "object", "shuffled"])
        if order == "time":
            segs.sort(key=lambda s: (s["a"], s["o"]))
        elif order == "shuffled":
            rng.shuffle(segs)
        t = lambda x: T0 + x / 8
        coeffs = dict(obj_id=[name(s["o"]) for s in segs], t_start=[t(s["a"]) for s in segs], t_end=[t(s["b"]) for s in segs])
        for c in COLS:
            coeffs[c] = [np.array(s["c"][c], float) for s in segs]
        ev = dict(segs=segs, queries=[], kept=True, raised="")
        keep = {k: list(v) for k, v in coeffs.items()}
        given = Given(coeffs)
        val = self.CV()
        try:
            if rng.random() < 0.5:
                ctx.count("taken from a fit")
                val.set_coefficients(given)
            else:
                ctx.count("written and read")
                fits = self.CF.__new__(self.CF)
                fits.coeffs, fits.failed = coeffs, []
                fits.resids = {k: [0.0] * len(segs) for k in ("pos", "geo_dist", "vmag", "elongation")}
                fits.resids.update({k: coeffs[k] for k in ("obj_id", "t_start", "t_end")})
                fits.n_coeff = dict(position=n["ra"], geo_dist=n["geo_dist"], vmag=n["vmag"], elongation=n["elongation"])
                fits.n_decimal = rng.choice([3, 10, 13])
                p = [os.path.join(ctx.scratch, x) for x in ("coeff", "resid", "failed")]
                for f in p:
                    if os.path.exists(f):
                        os.remove(f)
                cut = rng.choice([0, 0, rng.randrange(len(segs) + 1)])
                if cut:  # in two goes
                    part = lambda d, s: {k: v[s] for k, v in d.items()}
                    both = coeffs, fits.resids
                    fits.coeffs, fits.resids = part(both[0], slice(None, cut)), part(both[1], slice(None, cut))
                    quiet(fits.write, *p, append=rng.random() < 0.5)
                    fits.coeffs, fits.resids = part(both[0], slice(cut, None)), part(both[1], slice(cut, None))
                    quiet(fits.write, *p, append=True)
                else:
                    quiet(fits.write, *p)
                val.read_coefficients(p[0])
        except Exception as ex:
            ev["raised"] = repr(ex)[:160]
            self.evs.append([ev])
            return
        same = lambda: list(given.coeffs) == list(keep) and all(
            isinstance(given.coeffs[k], list) and len(given.coeffs[k]) == len(keep[k]) and all(np.array_equal(x, y) for x, y in zip(given.coeffs[k], keep[k])) for k in keep)
        top = max(s["b"] for s in segs)
        objs = sorted({s["o"] for s in segs})
        for _ in range(rng.randrange(2, 5)):
            times = [rng.choice([rng.randrange(-6, top + 7), rng.choice(segs)["a"], rng.choice(segs)["b"]]) for _ in range(rng.randrange(1, 7))]
            if many:
                at = lambda s: s["a"] + rng.choice([j for j in range(5) if (s["b"] - s["a"]) * j % 4 == 0]) * (s["b"] - s["a"]) // 4
                exact = lambda x: all((x - s["a"]) * 4 % (s["b"] - s["a"]) == 0 for s in segs if s["a"] <= x <= s["b"])
                times = [x for x in (rng.choice([at(rng.choice(segs)), rng.randrange(-6, top + 7)]) for _ in range(12)) if exact(x)][:6] or [-1]
            full = rng.random() < 0.35
            ids = rng.sample(objs, rng.randrange(1, len(objs) + 1))
            if rng.random() < 0.1:
                ids.append(rng.choice(ids))
            if rng.random() < 0.12:
                ids.insert(rng.randrange(len(ids) + 1), 17)
            q = dict(times=times, all=full, ids=ids, extrapolate=rng.random() < 0.4 and not many, raised="", rows=[], kept=True)
            ta = np.array([t(x) for x in times])
            if len(times) == 1 and rng.random() < 0.6:
                ta = rng.choice([float, np.float64])(ta[0])
                if float(ta) == int(ta) and rng.random() < 0.5:
                    ta = int(ta)
            elif rng.random() < 0.3:
                ta = list(ta)
            ia = None if full else np.array([name(o) for o in ids])
            if not full and len(ids) == 1 and rng.random() < 0.5:
                ia = name(ids[0])
            elif not full and rng.random() < 0.3:
                ia = [name(o) for o in ids]
            k1, k2 = np.copy(ta), None if full else np.copy(ia)
            try:
                e = quiet(val.get_ephemerides, ta, ia, extrapolate=q["extrapolate"])
                for i, o in enumerate(e["obj_id"]):
                    o = o.item() if hasattr(o, "item") else o
                    row = dict(o=back.get(o, 99), times=[int(round((x - T0) * 8)) for x in e["time"][i]], v=[])
                    for j in range(len(times)):
                        v = {c: num(e[c][i][j]) for c in COLS + ("ddecdt",)}
                        d = e["dradt"][i][j]
                        v["dradt"] = num(d / np.cos(np.radians(e["dec"][i][j])), tol=1e-7)
                        row["v"].append(v)
                    q["rows"].append(row)
            except Exception as ex:
                q["raised"] = type(ex).__name__
                q["why"] = repr(ex)[:160]
            q["kept"] = bool(np.array_equal(k1, np.copy(ta)) and (full or np.array_equal(k2, np.copy(ia))) and same())
            ctx.count("query")
            ev["queries"].append(q)
        ev["kept"] = same()
        self.evs.append([ev])


def check_c02(ctx):
    rng = ctx.rng
    r = ctx.design("EphemMC", f"NObj = 2\nCells = {ctx.pick(3, 4)}", ["Single", "Own", "Ends"])
    L = Lookup(ctx)
    for x in r.printed if len(r.printed) < 2500 else rng.sample(r.printed, 2500):
        L.one(x["segs"])
    for _ in range(ctx.pick(200, 2500)):
        segs = []
        for o in rng.sample(range(1, 9), rng.randrange(1, 5)):
            whole = rng.random() < 0.5  # everything covered, as documented
            a, end = 0, 32
            while a < end:
                ln = rng.choice([x for x in (1, 2, 4, 8, 16) if a + x <= end])
                if whole or rng.random() < 0.75:
                    segs.append(dict(o=o, a=a, b=a + ln))
                a += ln
        if segs:
            L.one(segs)
    ctx.oracle("EphemTrace", L.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))


# ---------------------------------------------------------------------- C01
class FakeOorb:
    """Stands in for the orbit integrator: object k (its first element) follows self.paths[k]."""

    def __init__(self):
        self.paths, self.calls, self.pyoorb, self.fails = {}, 0, self, None

    def oorb_init(self, ephemeris_fname=None):
        return 0

    def oorb_ephemeris_basic(self, in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        self.calls += 1
        t = in_date_ephems[:, 0]
        if len(t) > 400000 or self.calls > 4000:
            raise RuntimeError("does not end")
        out = np.zeros((len(in_orbits), len(t), 11))
        for i, orb in enumerate(in_orbits):
            p = self.paths[int(round(orb[1]))]
            out[i, :, 0] = t
            v = p(t, in_obscode, int(in_date_ephems[0, 1]))
            dec = v["dec"]
            out[i, :, 1], out[i, :, 2] = v["ra"] % 360, dec
            out[i, :, 3], out[i, :, 4] = v["dradt"] * np.cos(np.radians(dec)), v["ddecdt"]
            out[i, :, 6], out[i, :, 8], out[i, :, 9] = v["elongation"], v["geo_dist"], v["vmag"]
        return out, 0 if self.fails is None or self.calls < self.fails else 7


class Path:
    """Straight motion with a kink in some of the cells, and without values in others."""

    def __init__(self, rng, t0, width, kinds, tol):
        self.t0, self.width, self.kinds = t0, width, kinds
        self.r = (rng.choice([10.0, 359.99, 200.0, 0.002]), rng.choice([-0.01, 0.004, 0.02]))
        self.d = (rng.choice([-60.0, 5.0, 30.0]), rng.choice([-0.02, 0.01]))
        if rng.random() < 0.3:  # far across the sky
            self.d = (-20.0, 85.0 / (width * len(kinds)))
        self.obscode, self.scale = "I11", 4
        self.m = [rng.choice([0.0, 0.02, -0.05]) for _ in range(3)]
        self.at = [t0 + (k + rng.choice([1 / 3, 0.41, 0.77])) * width for k in range(len(kinds))]
        self.which = rng.choice(["ra", "dec", "both"])
        # the size of a kink that may be fitted with the required tolerance over about this much time
        self.slope = [tol / 3.6e6 * rng.choice([4, 8]) / (rng.choice([0.03, 0.1, 0.3, 0.6]) * width) if k == "kink" else 0 for k in kinds]

    def __call__(self, t, obscode=None, scale=None):
        """Seen from the place and at the times asked for."""
        u = t - self.t0
        v = dict(ra=self.r[0] + self.r[1] * u, dec=self.d[0] + self.d[1] * u)
        v["dradt"], v["ddecdt"] = np.full(len(t), self.r[1]), np.full(len(t), self.d[1])
        f, df = np.zeros(len(t)), np.zeros(len(t))
        for c, s, k in zip(self.at, self.slope, self.kinds):
            if k == "kink":
                f += s * np.abs(t - c)
                df += s * np.sign(t - c)
            elif k == "jump":
                f += np.where(t > c, 0.5, 0)
        if self.which != "dec":
            v["ra"], v["dradt"] = v["ra"] + f, v["dradt"] + df
        if self.which != "ra":
            v["dec"], v["ddecdt"] = v["dec"] + f, v["ddecdt"] + df
        if obscode is not None and (obscode != self.obscode or scale != self.scale):
            v["ra"] = v["ra"] + 0.01
        v["geo_dist"] = 1.5 + 0.01 * u + self.m[0] * np.sin(5 * u)
        v["vmag"] = 20 + 0.03 * u + self.m[1] * np.cos(3 * u)
        v["elongation"] = 90 - 0.5 * u + self.m[2] * np.sin(2 * u + 1)
        for i, k in enumerate(self.kinds):
            lo, hi = self.t0 + i * self.width, self.t0 + (i + 1) * self.width
            inside = (t > lo + self.width * 1e-7) & (t < hi - self.width * 1e-7)
            for what, cols in (("nan mag", ("vmag",)), ("nan dist", ("geo_dist",)), ("nan elon", ("elongation",)), ("nan pos", ("ra", "dec")), ("nan dec", ("dec",))):
                if k == what:
                    for c in cols:
                        v[c] = np.where(inside, np.nan, v[c])
        return v


MICRO = 10**6


class Fitting:
    def __init__(self, ctx):
        import rubin_sim.moving_objects.ooephemerides as oe
        from rubin_sim.moving_objects import ChebyFits, Orbits

        self.ctx, self.rng, self.CF, self.Orbits, self.oe, self.evs = ctx, ctx.rng, ChebyFits, Orbits, oe, []
        oe.PYOORB_PRESENT = True

    def one(self, patterns, first, width, n_decimal=10):
        """patterns: what each cell (of width days) of each object is like; first: the first length of segments in cells, or None."""
        import pandas as pd

        ctx, rng = self.ctx, self.rng
        tol = rng.choice([2.5, 2.5, 1.0, 10.0, 300.0])
        ngran = rng.choice([64, 32, 16])
        npos = rng.choice([x for x in (14, 8, 6) if x < ngran])
        n = [min(x, ngran) for x in (rng.choice([9, 5]), rng.choice([5, 3]), rng.choice([6, 4]))]
        t0 = rng.choice([59000, 59000.0, 59853.5 if n_decimal else 59853.0, np.float64(60000)])
        cells = len(patterns[0])
        span = rng.choice([float, float, np.float64])(cells * width)
        if span == int(span) and rng.random() < 0.3:
            span = int(span)
        fake, everything = FakeOorb(), False
        self.oe.oo = fake
        scale, obscode = rng.choice(["TAI", "utc", "TT"]), rng.choice(["I11", "I11", "807", "568"])
        names = [rng.choice(["obj%d", "S%d"]) % k for k in range(len(patterns))] if rng.random() < 0.7 else [100 + k for k in range(len(patterns))]
        for k, kinds in enumerate(patterns):
            fake.paths[k + 1] = Path(rng, float(t0), width, kinds, tol)
            fake.paths[k + 1].obscode, fake.paths[k + 1].scale = obscode, dict(TAI=4, utc=1, TT=3)[scale]
        orb = self.Orbits()
        orb.set_orbits(pd.DataFrame(dict(obj_id=names, a=[float(k + 1) for k in range(len(patterns))], e=0.1, inc=1.0, Omega=2.0, argPeri=3.0, meanAnomaly=4.0, epoch=59000.0, H=20.0, g=0.15)))
        ev = dict(fails=False, raised="", span=int(round(float(span) * MICRO)), len=0, first=0, objects=[], others=0,
                  about=dict(patterns=patterns, first=first or 0, width=width, n_decimal=n_decimal, ngran=ngran, npos=npos, n=n, tol=tol, t0=float(t0), scale=scale, obscode=obscode))
        try:
            cf = self.CF(orb, t0, span, sky_tolerance=tol, n_coeff_position=npos, n_coeff_vmag=n[0], n_coeff_delta=n[1], n_coeff_elongation=n[2], ngran=ngran,
                         eph_file="none", n_decimal=n_decimal, time_scale=scale, obscode=obscode)
            try:
                if first is None:
                    ev["first"] = 60 * MICRO
                    quiet(cf.calc_segment_length)
                else:
                    ev["first"] = int(round((first * width + 0.5 * 10.0**-n_decimal) * MICRO)) + 1
                    quiet(cf.calc_segment_length, length=first * width)
                ev["len"] = int(round(cf.length * MICRO))
                quiet(cf.calc_segments)
            except ValueError as ex:
                # no length with so few decimal places makes up the span: everything is reported as failed
                if n_decimal > 4 or hasattr(cf, "length"):
                    raise
                ctx.count("no suitable length")
                ev["about"]["gave up"] = str(ex)[:160]
                ev["len"], ev["first"] = ev["span"], ev["span"]
                everything = True
            mic = lambda x: int(round((float(x) - float(t0)) * MICRO))
            rows = [{k: cf.coeffs[k][j] for k in cf.coeffs} for j in range(len(cf.coeffs["obj_id"]))]
            res = {}
            for j in range(len(cf.resids["obj_id"])):
                res[(cf.resids["obj_id"][j], mic(cf.resids["t_start"][j]))] = {k: cf.resids[k][j] for k in cf.resids}
            seen = 0
            for k, kinds in enumerate(patterns):
                x = dict(kept=[], failed=[], hopeless=[], never=[])
                for c, kind in enumerate(kinds):
                    piece = dict(a=int(round(c * width * MICRO)), b=int(round((c + 1) * width * MICRO)))
                    if kind[:3] == "nan":
                        x["never"].append(piece)
                    if kind[:3] in ("nan", "jum") or everything:
                        x["hopeless"].append(piece)
                for r in rows:
                    if r["obj_id"] == names[k]:
                        seen += 1
                        x["kept"].append(self.kept(fake.paths[k + 1], r, res.get((names[k], mic(r["t_start"]))), mic, tol, ngran, npos, n))
                for f in cf.failed:
                    if isinstance(f[0], (str, int, np.integer)) and f[0] == names[k]:
                        seen += 1
                        x["failed"].append(dict(a=mic(f[1]), b=mic(f[2])))
                x["kept"].sort(key=lambda p: p["a"])
                ev["objects"].append(x)
                ctx.count("object")
            ev["others"] = len(rows) + len(cf.failed) - seen
        except Exception as ex:
            ev["raised"] = repr(ex)[:200]
        self.evs.append([ev])

    def failing(self, call):
        """The integrator reports an error, at the n-th call: no fit may come out of that."""
        import pandas as pd

        fake = self.oe.oo = FakeOorb()
        fake.paths[1] = Path(self.rng, 59000.0, 2.0, ["smooth"] * 3, 2.5)
        fake.fails = call
        orb = self.Orbits()
        orb.set_orbits(pd.DataFrame(dict(obj_id=["a"], a=[1.0], e=0.1, inc=1.0, Omega=2.0, argPeri=3.0, meanAnomaly=4.0, epoch=59000.0, H=20.0, g=0.15)))
        ev = dict(fails=True, raised="")
        try:
            cf = self.CF(orb, 59000.0, 6.0, eph_file="none")
            quiet(cf.calc_segment_length, length=2.0)
            quiet(cf.calc_segments)
            if fake.calls < call:
                return
        except RuntimeError as ex:
            ev["raised"] = repr(ex)[:100]
        self.ctx.count("failing integrator")
        self.evs.append([ev])

    def kept(self, path, r, res, mic, tol, ngran, npos, n):
        a, b = float(r["t_start"]), float(r["t_end"])
        t = np.linspace(a, b, ngran + 1)
        v = path(t)
        x = np.linspace(-1, 1, ngran + 1)
        val = lambda c: np.polynomial.chebyshev.chebval(x, np.asarray(r[c], float))
        dra = (val("ra") - v["ra"] + 180) % 360 - 180
        ddec = val("dec") - v["dec"]
        pos = np.sqrt(ddec**2 + (dra * np.cos(np.radians(v["dec"]))) ** 2)
        pos = np.max(pos) * 3.6e6
        # times at the present day are known to about 1e-11 days
        noise = 1e-3 * tol + 1e-3
        other = {c: np.max(np.abs(val(c) - v[c])) for c in ("geo_dist", "vmag", "elongation")}
        ends = max(np.max(np.abs(dra[[0, -1]])), np.max(np.abs(ddec[[0, -1]]))) < 1e-7 and all(abs(val(c)[j] - v[c][j]) < 1e-6 for c in other for j in (0, -1))
        same = res is not None and abs(res["pos"] - pos) <= noise + 0.02 * abs(pos) and all(abs(res[c] - other[c]) <= 1e-6 + 0.02 * other[c] for c in other) and mic(res["t_end"]) == mic(b)
        return dict(a=mic(a), b=mic(b), close=bool(pos <= tol + noise), ends=bool(ends), residuals=bool(same),
                    terms=[len(r[c]) for c in COLS] == [npos, npos, n[1], n[0], n[2]])


def check_c01(ctx):
    rng = ctx.rng
    r = ctx.design("FitsMC", f"Cells = {ctx.pick(3, 4)}\nUnit = 4", ["Covered", "Inside", "Honest"], properties=["Ends"])
    F = Fitting(ctx)
    kind = {0: lambda: rng.choice(["nan mag", "nan pos", "nan dist", "nan elon", "nan dec"]), 1: lambda: "kink", 4: lambda: "kink"}
    todo = {repr(x): x for x in r.printed}
    todo = [todo[k] for k in sorted(todo)]
    for x in todo if len(todo) <= ctx.pick(200, 1500) else rng.sample(todo, ctx.pick(200, 1500)):
        pats = [[kind.get(v, lambda: "smooth")() for v in x["need"]]]
        for _ in range(rng.choice([0, 0, 1, 2])):
            pats.append([kind.get(v, lambda: "smooth")() for v in rng.choice(todo)["need"]])
        first = rng.choice([x["len"] // 4, x["len"] // 4, None])
        F.one(pats, first, rng.choice([1.0, 2.0, 0.5, 5.0]))
    for _ in range(ctx.pick(150, 1500)):
        nd = rng.choice([0, 1, 2, 3, 4, 10, 10, 13])
        jumps = nd in (2, 3, 4) and rng.random() < 0.5
        cells = rng.randrange(1, 6)
        width = rng.choice([1.0, 2.0, 3.0, 5.0] + ([0.5, 0.75, 1.75] if nd > 1 else []) + ([0.125, 1.001] if nd > 2 else []))
        every = ["smooth"] * 4 + ["kink"] * 3 * (nd > 5) + ["nan mag", "nan pos"] + ["jump"] * jumps
        pats = [[rng.choice(every) for _ in range(cells)] for _ in range(rng.choice([1, 1, 2]))]
        first = rng.choice([None, cells, 1, 0.5, 0.38, cells / 2, cells / 3, cells / 7])
        F.one(pats, first, width, nd)
    for call in range(1, ctx.pick(6, 12)):
        F.failing(call)
    ctx.oracle("FitsTrace", F.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
