"""Self-calibration: S01 (specification SelfCal)."""
import math

import numpy as np

from .metrics import quiet

MILLI = 10000


class Cal:
    def __init__(self, ctx):
        self.ctx, self.rng, self.evs = ctx, ctx.rng, []
        ev = dict(q="import", raised="", kept=True)
        try:
            import rubin_sim.selfcal as S

            self.S = S
        except ImportError as ex:  # it must be usable without importing anything else first
            ev["raised"] = repr(ex)[:160]
            import rubin_sim.maf  # noqa: F401
            import rubin_sim.selfcal as S

            self.S = S
        self.evs.append([ev])

    def solve(self, obs):
        """obs: [star, patch] pairs, or more than one of the same."""
        ctx, rng = self.ctx, self.rng
        sid = {s: rng.choice([s, s * 1000 + 7, s - 2]) for s in {o["s"] for o in obs}}
        big = rng.choice([0, 0, 10**6])
        for k, s in enumerate(sorted(sid)):
            sid[s] = big + rng.choice([s, s * 13]) if k == 0 else max(sid.values()) + s
        pid = {p: rng.choice([16, 3]) * p + big for p in {o["p"] for o in obs}}
        if len(set(sid.values())) < len(sid) or len(set(pid.values())) < len(pid):
            sid, pid = {s: s for s in sid}, {p: p for p in pid}
        mag = {s: rng.randrange(14 * 8, 25 * 8) / 8 for s in sid}
        zp = {p: rng.randrange(-24, 25) / 8 for p in pid}
        rows = [dict(s=sid[o["s"]], p=pid[o["p"]], m=int(round((mag[o["s"]] + zp[o["p"]]) * MILLI))) for o in obs]
        rng.shuffle(rows)
        names = ["id", "patch_id", "observed_mag", "mag_uncert", "rmag", "ra", "decl"]
        arr = np.zeros(len(rows), dtype=list(zip(names, [int, int, float, float, float, float, float])))
        arr["id"], arr["patch_id"] = [r["s"] for r in rows], [r["p"] for r in rows]
        arr["observed_mag"] = [r["m"] / MILLI for r in rows]
        arr["mag_uncert"] = [rng.choice([0.005, 0.01, 0.02]) for _ in rows]
        keep = arr.copy()
        ev = dict(q="solve", obs=rows, raised="", stars=[], patches=[], zp=[], mag=[], kept=True)
        try:
            sol = self.S.LsqrSolver(arr, **rng.choice([{}, dict(atol=1e-12, btol=1e-12)]))
            quiet(sol.run)
            p, s = sol.return_solution()
            ev.update(patches=[int(x) for x in p["patch_id"]], stars=[int(x) for x in s["id"]], zp=[int(round(x * MILLI)) for x in p["zp"]], mag=[int(round(x * MILLI)) for x in s["fit_mag"]])
        except Exception as ex:
            ev["raised"] = repr(ex)[:160]
        ev["kept"] = bool(np.array_equal(keep, arr))
        ctx.count("solved")
        self.evs.append([ev])

    def catalogue(self):
        ctx, rng, S = self.ctx, self.rng, self.S
        fov = rng.choice([1.8, 1.0])
        n = rng.choice([1, 2, 4, 5, 8, 10])
        unit = math.tan(math.radians(fov)) / 80
        band = rng.choice("rg")

        def place():
            """Not on the edge of a patch or of the field."""
            while True:
                x, y = rng.randrange(-95, 96), rng.randrange(-95, 96)
                if rng.random() < 0.4:  # close to the edge of the field
                    r, a = rng.choice([78, 79, 81, 82]), rng.random() * 7
                    x, y = int(round(r * math.cos(a))), int(round(r * math.sin(a)))
                if all((v + 80) % (160 // n) for v in (x, y)) and abs(x * x + y * y - 6400) > 20:
                    return x, y
        # stars and pointings on the equator, at whole numbers of a unit in the plane of each pointing: pointings far
        # apart so that the same star has such a position for one of them
        stars, visits = [], []
        groups = rng.sample([0, 40, 90, 200, 310], rng.randrange(1, 4))
        star, cols = [], dict(id=[], ra=[], decl=[], rmag=[], gmag=[])
        for g, ra0 in enumerate(groups):
            for _ in range(rng.randrange(1, 5)):
                x, y = place()
                ra = math.atan(x * unit)
                dec = math.atan(y * unit * math.cos(ra))
                k = len(stars) * rng.choice([1, 1, 3]) + 1
                while any(s["id"] == k for s in stars):
                    k += 1
                m = rng.randrange(15 * 8, 22 * 8)
                stars.append(dict(id=k, x=x + 1000 * g, y=y, m=m))
                cols["id"].append(k)
                cols["ra"].append((math.degrees(ra) + ra0) % 360)
                cols["decl"].append(math.degrees(dec))
                for c in "rg":
                    cols[c + "mag"].append(m / 8 + (c != band) * rng.choice([0.5, 3.25]))
        ids = rng.sample(range(0, 60), 3 * len(groups))
        vis = []
        for g, ra0 in enumerate(groups):
            for _ in range(rng.randrange(1, 4)):
                q = rng.choice([0, 0, 1, 2, 3])
                visits.append(dict(id=ids.pop(), x=1000 * g, quarter=q))
                deep = rng.choice([20, 22, 24])
                visits[-1]["deep"] = deep * 8
                vis.append((visits[-1]["id"], float(ra0), 0.0, float(deep), 90.0 * q))
        sa = np.zeros(len(stars), dtype=[("id", int), ("ra", float), ("decl", float), ("rmag", float), ("gmag", float)])
        for c in cols:
            sa[c] = cols[c]
        perm = list(range(len(stars)))
        rng.shuffle(perm)
        sa = sa[perm]
        va = np.array(vis, dtype=[("observationId", int), ("ra", float), ("dec", float), ("fiveSigmaDepth", float), ("rotSkyPos", float)])

        class Fixed(S.BaseOffset):
            def __init__(self, k):
                self.k, self.newkey = k, "dmag_%d" % k

            def __call__(self, st, visit, **kw):
                return np.zeros(st.size) + self.k / 8

        class Again(S.BaseOffset):
            """As much as everything before it."""

            newkey = "again"

            def __init__(self):
                pass

            def __call__(self, st, visit, dmags=None, **kw):
                return np.zeros(st.size) + sum(dmags.values())

        offs = rng.sample([1, 2, -3, 5], rng.randrange(0, 3))
        off = [Fixed(k) for k in offs] + ([S.NoOffset()] if rng.random() < 0.4 else [])
        rng.shuffle(off)
        if rng.random() < 0.4:
            at = rng.randrange(len(off) + 1)
            offs.append(sum(o.k for o in off[:at] if isinstance(o, Fixed)))
            off.insert(at, Again())
        floor = rng.choice([0, 0.005, 0.02, 0.1])
        ks, kv = sa.copy(), va.copy()
        ev = dict(q="make", stars=stars, visits=visits, n=n, offset=sum(offs), floor=int(round(floor * 10**5)), rows=[], errors=[], raised="", kept=True)
        try:
            kw = dict() if floor == 0.005 else dict(uncert_floor=floor)
            out = quiet(S.generate_catalog, va, sa, offsets=off, lsst_filter=band, n_patches=n * n, radius_fov=fov, verbose=False, **kw)
            ev["rows"] = [dict(s=int(r["id"]), p=int(r["patch_id"]), m=int(round(float(r["observed_mag"]) * 8)), true=int(round(float(r[band + "mag"]) * 8))) for r in out]
            for j, r in enumerate(out):
                u = float(r["mag_uncert"]) * 10**5
                if abs((ev["rows"][j]["m"] - 8 * 15) % 4) == 0 and np.isfinite(u) and u < 40000:
                    ev["errors"].append(dict(m=ev["rows"][j]["m"], p=ev["rows"][j]["p"], u=int(round(u))))
        except Exception as ex:
            ev["raised"] = repr(ex)[:160]
        ev["kept"] = bool(np.array_equal(ks, sa) and np.array_equal(kv, va))
        ctx.count("catalogue")
        self.evs.append([ev])

    def noise(self):
        """The noise of a star is a multiple of its uncertainty, with everything before it taken into account."""
        rng, S = self.rng, self.S
        band = rng.choice("rgi")
        sa = np.zeros(6, dtype=[("id", int), ("ra", float), ("decl", float)] + [(b + "mag", float) for b in "rgi"])
        sa["id"], sa["ra"] = np.arange(6), np.arange(6) * 0.1 + 10
        for b in "rgi":
            sa[b + "mag"] = 18.0 if b == band else rng.choice([16.0, 25.0])
        va = np.array([(3, 10.25, 0.0, 20.5, 0.0)], dtype=[("observationId", int), ("ra", float), ("dec", float), ("fiveSigmaDepth", float), ("rotSkyPos", float)])

        class Shift(S.BaseOffset):
            newkey = "shift"

            def __init__(self, d):
                self.d = d

            def __call__(self, st, visit, **kw):
                return np.zeros(st.size) + self.d

        seed = rng.randrange(10**6)
        ev = dict(q="noise", ratios=[], raised="", kept=True)
        try:
            # 18.0 with a depth of 20.5: as bright as 10 times the limit; 2.5 more: as bright as the limit
            res = []
            for shift, how in ((0.0, 0), (2.5, 1), (2.5, 2)):
                st = sa.copy()
                off = [S.OffsetSNR(lsst_filter=band)]
                if how == 1:
                    st[band + "mag"] += shift
                elif how == 2:
                    off.insert(0, Shift(shift))
                out = quiet(S.generate_catalog, va, st, offsets=off, lsst_filter=band, seed=seed, verbose=False)
                out = np.sort(out, order="id")
                res.append(out["observed_mag"] - 18.0 - shift)
            for a, b in ((0, 1), (0, 2)):
                ev["ratios"] += [int(round(min(max(x, -9), 9) * 10**5)) for x in res[a] / res[b]]
        except Exception as ex:
            ev["raised"] = repr(ex)[:160]
        self.ctx.count("noise")
        self.evs.append([ev])


def check_s01(ctx):
    rng = ctx.rng
    r = ctx.design("SelfCalMC", f"NStars = 3\nNPatches = {ctx.pick(3, 4)}", ["Right", "Largest", "Order"])
    C = Cal(ctx)
    for x in r.printed if len(r.printed) < 3000 else rng.sample(r.printed, 3000):
        if x["obs"]:
            C.solve(x["obs"])
    for _ in range(ctx.pick(300, 3000)):
        ns, npt = rng.randrange(2, 12), rng.randrange(2, 10)
        p = rng.choice([0.15, 0.25, 0.5])
        obs = [dict(s=s, p=q) for s in range(1, ns) for q in range(1, npt) if rng.random() < p]
        if rng.random() < 0.2 and obs:
            obs += [dict(rng.choice(obs)) for _ in range(2)]
        if obs:
            C.solve(obs)
    for n in range(3, ctx.pick(20, 40)):
        # one after the other
        chain = [dict(s=k + d, p=k) for k in range(1, n) for d in (0, 1)]
        rest = [dict(s=100 + a, p=100 + b) for a in range(2) for b in range(3)] if n % 2 else []
        C.solve(chain + rest)
        C.solve(chain + [dict(s=1, p=n - 1)])
    for _ in range(ctx.pick(150, 1500)):
        C.catalogue()
    for _ in range(ctx.pick(10, 60)):
        C.noise()
    ctx.oracle("SelfCalTrace", C.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
