"""The orbit integrator's interface (C04, specification Oorb) and observations of moving objects (C05, Sightings)."""
import os

import numpy as np

from .metrics import num, quiet

T0 = 60000.0
NAMES = dict(KEP=["a", "e", "inc", "Omega", "argPeri", "meanAnomaly"], COM=["q", "e", "inc", "Omega", "argPeri", "tPeri"], CAR=["x", "y", "z", "xdot", "ydot", "zdot"])
CODES = dict(CAR=1, COM=2, KEP=3)
ANGLES = ("inc", "Omega", "argPeri", "meanAnomaly")


def scaled(name, k):
    """The element that the whole number k stands for, in the user's units."""
    return k / 64 if name == "e" else 59900 + k / 8 if name == "tPeri" else k / 8


def whole(name, x):
    y = x * 64 if name == "e" else (x - 59900) * 8 if name == "tPeri" else x * 8
    return int(round(y)) if np.isfinite(y) and abs(y - round(y)) < 1e-6 else -99999


class StandIn:
    """The orbit integrator: it records what it is given, and computes with the whole numbers that stand for the elements."""

    def __init__(self):
        self.pyoorb, self.calls, self.fails = self, [], 0

    def oorb_init(self, ephemeris_fname=None):
        return 0

    def decode(self, raw):
        raw = np.asarray(raw, float)
        out = []
        for r in raw:
            fmt = {v: k for k, v in CODES.items()}.get(int(r[7]), "CAR")
            el = [whole(n, np.degrees(r[1 + k]) if n in ANGLES else r[1 + k]) for k, n in enumerate(NAMES[fmt])]
            out.append(dict(el=el, epoch=int(round((r[8] - T0) * 8)), h=int(round(r[10] * 8)), g=int(round(r[11] * 8)), code=int(r[7]), scale=int(r[9]), number=int(r[0])))
        return out

    def encode(self, objs, fmt):
        raw = np.zeros((len(objs), 12), order="F")
        for r, o in zip(raw, objs):
            r[0], r[7], r[8], r[9], r[10], r[11] = o["number"], CODES[fmt], T0 + o["epoch"] / 8, o["scale"], o["h"] / 8, o["g"] / 8
            for k, n in enumerate(NAMES[fmt]):
                r[1 + k] = np.radians(scaled(n, o["el"][k])) if n in ANGLES else scaled(n, o["el"][k])
        return raw

    def times(self, t):
        t = np.asarray(t, float).reshape(-1, 2)
        return [dict(t=int(round((x[0] - T0) * 8)), scale=int(x[1])) for x in t]

    def oorb_element_transformation(self, in_orbits, in_element_type):
        objs = self.decode(in_orbits)
        self.calls.append(dict(call="convert", objs=objs, to=int(in_element_type)))
        fmt = {v: k for k, v in CODES.items()}[int(in_element_type)]
        out = self.encode([dict(o, el=[x + 1 for x in o["el"]]) for o in objs], fmt)
        return (out if not self.fails else out * 0), self.fails

    def oorb_propagation(self, in_orbits, in_dynmodel, in_epoch):
        objs = self.decode(in_orbits)
        t = self.times(in_epoch)
        self.calls.append(dict(call="propagate", objs=objs, mode=str(in_dynmodel), times=t))
        fmt = {v: k for k, v in CODES.items()}[int(np.asarray(in_orbits)[0, 7])]
        out = self.encode([dict(o, el=[x + 2 for x in o["el"]], epoch=t[0]["t"]) for o in objs], fmt)
        return (out if not self.fails else out * 0), self.fails

    def ephemeris(self, call, n, in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        objs, t = self.decode(in_orbits), self.times(in_date_ephems)
        self.calls.append(dict(call=call, objs=objs, mode=str(in_dynmodel), obscode=str(in_obscode), times=t))
        out = np.zeros((len(objs), len(t), n), order="F")
        for i, o in enumerate(objs):
            for j, x in enumerate(t):
                for c in range(1, n + 1):
                    e = o["el"][0]
                    out[i, j, c - 1] = {1: T0 + x["t"] / 8, 4: 3 * e, 5: 4 * e}.get(c, 64 * e + 8 * x["t"] + c)
        return out, self.fails

    def oorb_ephemeris_basic(self, in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        return self.ephemeris("basic", 11, in_orbits, in_obscode, in_date_ephems, in_dynmodel)

    def oorb_ephemeris_full(self, in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        return self.ephemeris("full", 34, in_orbits, in_obscode, in_date_ephems, in_dynmodel)


class Interface:
    def __init__(self, ctx):
        import rubin_sim.moving_objects.ooephemerides as oe
        from rubin_sim.moving_objects import Orbits, PyOrbEphemerides

        self.ctx, self.rng, self.PE, self.Orbits, self.oe, self.evs = ctx, ctx.rng, PyOrbEphemerides, Orbits, oe, []
        oe.PYOORB_PRESENT = True

    def orbits(self, fmt, objs):
        import pandas as pd

        orb = self.Orbits()
        if not objs:
            orb.orbits = pd.DataFrame(dict(obj_id=[]))
            orb.orb_format = fmt
            return orb
        d = dict(obj_id=["o%d" % k for k in range(len(objs))])
        for k, n in enumerate(NAMES[fmt]):
            d[n] = [scaled(n, o["el"][k]) for o in objs]
        d.update(epoch=[T0 + o["epoch"] / 8 for o in objs], H=[o["h"] / 8 for o in objs], g=[o["g"] / 8 for o in objs])
        df = pd.DataFrame(d)
        if self.rng.random() < 0.5:
            df = df[self.rng.sample(list(df.columns), len(df.columns))]
        if self.rng.random() < 0.5:
            df.index = [7 + 3 * k for k in range(len(df))][::-1]
        orb.set_orbits(df)
        return orb

    def history(self, hist):
        ctx, rng = self.ctx, self.rng
        oo = self.oe.oo = StandIn()
        pe, evs = self.PE(ephfile="none"), []
        for h in hist:
            ev = dict(h, raised="", sent=[], kept=True, first=not evs)
            oo.calls, oo.fails = [], h.get("fails", 0)
            try:
                if h["op"] == "set":
                    orb = self.orbits(h["fmt"], h["objs"])
                    before = orb.orbits.copy()
                    try:
                        pe.set_orbits(orb)
                    finally:
                        ev["kept"] = bool(before.equals(orb.orbits))
                elif h["op"] == "convert":
                    pe.convert_orbit_format(h["fmt"])
                elif h["op"] == "propagate":
                    pe.propagate_orbits(T0 + h["epoch"] / 8, eph_mode=h["mode"])
                elif h["op"] == "read":
                    df = pe.convert_from_oorb_elem()
                    ev["columns"] = sorted(df.columns)
                    rows = []
                    for _, r in df.iterrows():
                        rows.append({n: int(round((r[n] - T0) * 8)) if n == "epoch" else whole(n, r[n]) for n in df.columns})
                    ev["objs"] = rows
                    df.iloc[:, 0] = -1.0  # the returned table is the caller's
                elif h["op"] == "ephemerides":
                    ev["obscode"] = rng.choice(["I11", "807"])
                    ev["byobject"] = rng.random() < 0.5
                    ev["rows"] = []
                    times = [T0 + t / 8 for t in h["times"]]
                    given = np.array(times) if len(times) != 1 or rng.random() < 0.5 else times[0]
                    if rng.random() < 0.2 and len(times) > 1:
                        given = list(times)
                    before = np.array(given)
                    out = pe.generate_ephemerides(given, time_scale=h["scale"], obscode=ev["obscode"], by_object=ev["byobject"], eph_mode=h["mode"], eph_type=h["type"])
                    ev["kept"] = bool(np.array_equal(before, np.array(given)))
                    # in eighths of a day for the time; everything else is a whole number
                    cell = lambda x: {n: int(round((x[n] - T0) * 8)) if n == "time" else int(round(float(x[n]))) if float(x[n]) == round(float(x[n])) else -99999 for n in out.dtype.names}
                    ev["rows"] = [[cell(out[a][b]) for b in range(out.shape[1])] for a in range(out.shape[0])]
            except Exception as ex:
                ev["raised"] = repr(ex)[:120]
            ev["sent"] = oo.calls
            ctx.count(h["op"])
            evs.append(ev)
        self.evs.append(evs)


    def datadir(self, oorb, conda, share):
        """Where the data files are looked for: $OORB_DATA, else those of the conda environment, else nowhere (with a warning)."""
        import warnings

        d = self.ctx.subdir("conda")
        if share:
            os.makedirs(os.path.join(d, "share", "openorb"))
        keep = {k: os.environ.get(k) for k in ("OORB_DATA", "CONDA_PREFIX")}
        where = dict(oorb="/somewhere/oorb", conda=os.path.join(d, "share/openorb"))
        ev = dict(op="data", oorb=oorb, conda=conda, share=share, raised="", sent=[], kept=True, first=True, found="", warned=False)
        try:
            for k, v in (("OORB_DATA", where["oorb"] if oorb else None), ("CONDA_PREFIX", str(d) if conda else None)):
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                got = self.oe.get_oorb_data_dir()
            ev["warned"] = bool(w)
            ev["found"] = {None: "none", where["oorb"]: "oorb", where["conda"]: "conda"}.get(got, "other")
        except Exception as ex:
            ev["raised"] = repr(ex)[:120]
        finally:
            for k, v in keep.items():
                os.environ.pop(k, None)
                if v is not None:
                    os.environ[k] = v
        self.ctx.count("data directory")
        self.evs.append([ev])


def check_c04(ctx):
    rng = ctx.rng
    r = ctx.design("OorbMC", f"Depth = {ctx.pick(3, 4)}", ["Whole"], properties=["Safe", "Kept"])
    I = Interface(ctx)
    todo = [x["h"] for x in r.printed]
    for h in todo if len(todo) <= ctx.pick(400, 4000) else rng.sample(todo, ctx.pick(400, 4000)):
        I.history(h + [dict(op="read")])

    def objs():
        return [dict(el=[rng.randrange(1, 40) for _ in range(6)], epoch=0, h=rng.randrange(80, 200), g=rng.choice([1, 2])) for _ in range(rng.choice([0, 1, 2, 3, 5]))]

    def op(start=False):
        k = "set" if start else rng.choice(["set", "convert", "propagate", "ephemerides", "ephemerides", "read"])
        fails = rng.choice([0, 0, 0, 0, 1, 35])
        if k == "set":
            o = objs()
            while start and not o:
                o = objs()
            return dict(op=k, fmt=rng.choice(list(NAMES)), objs=o)
        if k == "convert":
            return dict(op=k, fmt=rng.choice(list(NAMES)), fails=fails)
        if k == "propagate":
            return dict(op=k, epoch=rng.randrange(-80, 80), mode=rng.choice(["nbody", "2body", "N", "2", "NBODY", "kepler"]), fails=fails)
        if k == "read":
            return dict(op=k)
        return dict(op=k, mode=rng.choice(["nbody", "2body", "N", "n", "2", "2BODY", "", "two"]) if rng.random() < 0.6 else "nbody", type=rng.choice(["basic", "full", "Basic", "FULL", "basic", "full", "most"]),
                    times=[rng.randrange(-50, 50) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))], scale=rng.choice(["UTC", "UT1", "TT", "TAI", "TAI", "TDB"]), fails=fails)

    for _ in range(ctx.pick(150, 1500)):
        I.history([op(True)] + [op() for _ in range(rng.randrange(2, 9))])
    for k in range(8):
        I.datadir(bool(k & 1), bool(k & 2), bool(k & 4))
    ctx.oracle("OorbTrace", I.evs, chunks=6, key=lambda b: b["event"]["op"] + ":" + "+".join(b["clauses"]))


class Mover:
    """The orbit integrator for C05: the objects move as the specification says; the quick mode is a little off."""

    def __init__(self, scale, exact, off):
        self.pyoorb, self.paths, self.scale, self.exact, self.off = self, {}, scale, exact, off

    def oorb_init(self, ephemeris_fname=None):
        return 0

    def ephemeris(self, n, in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        when = np.asarray(in_date_ephems, float)
        t = (when[:, 0] - T0) * 8
        out = np.zeros((len(in_orbits), len(t), n))
        for i, orb in enumerate(np.asarray(in_orbits)):
            o = self.paths[int(round(orb[1] * 8))]
            off = 0.0 if str(in_dynmodel) == self.exact else self.off
            off = off if np.all(when[:, 1] == self.scale) else off + 400.0 * 32
            ra = o["ra"] + (o["v"] * t if o["kind"] == "ra" else 0 * t)
            dec = o["dec"] + (o["v"] * t if o["kind"] == "dec" else 0 * t)
            out[i, :, 0] = when[:, 0]
            out[i, :, 1], out[i, :, 2] = ((ra + off) / 32) % 360, dec / 32
            out[i, :, 3 if o["kind"] == "ra" else 4] = o["v"] / 4
            out[i, :, 8] = 1.0
        return out, 0

    def oorb_ephemeris_basic(self, **k):
        return self.ephemeris(11, **k)

    def oorb_ephemeris_full(self, **k):
        return self.ephemeris(34, **k)


BANDS = ["g", "r", "i"]


class Sighting:
    def __init__(self, ctx):
        import rubin_sim.moving_objects.ooephemerides as oe
        from rubin_sim.moving_objects import DirectObs, Orbits

        self.ctx, self.rng, self.DO, self.Orbits, self.oe, self.evs = ctx, ctx.rng, DirectObs, Orbits, oe, []
        oe.PYOORB_PRESENT = True
        # a camera with chips up to 1.0625 and 1.5625 degrees from its centre
        d = ctx.scratch / "data" / "utils"
        d.mkdir(parents=True, exist_ok=True)
        x = np.linspace(-2, 2, 4 * 64 + 1)
        image = (np.abs(x)[:, None] <= 34 / 32) & (np.abs(x)[None, :] <= 50 / 32)
        np.savez(d / "fov_map.npz", image=image, x=x)
        os.environ["RUBIN_SIM_DATA_DIR"] = str(ctx.scratch / "data")

    def one(self, objects, visits, fov):
        import pandas as pd

        ctx, rng = self.ctx, self.rng
        codes = dict(UTC=1, TAI=4, TT=3)
        scale = rng.choice(["TAI", "TAI", "UTC"])
        mode, prelim = rng.choice(["nbody", "2body"]), rng.choice(["nbody", "2body"])
        off = rng.choice([0, 3, -8]) if mode != prelim else 0
        oo = self.oe.oo = Mover(codes[scale], "N" if mode == "nbody" else "2", off)
        seds = ["C.dat", "S.dat"]
        kind = rng.choice(["int", "int", "str"])
        for k, o in enumerate(objects):
            o.update(id=(k * 3 + 5) if kind == "int" else "S%03d" % k, sed=rng.choice([1, 2]))
            oo.paths[k + 8] = o
        for k, v in enumerate(visits):
            v.update(rng.choice([dict(texp=24, seeing=100), dict(texp=30, seeing=125), dict(texp=24, seeing=50), dict(texp=12, seeing=100)]))
            v.update(id=k * 7 + rng.randrange(7), m5=rng.randrange(20 * 8, 25 * 8), night=v["t"] // 8, band=rng.randrange(1, 4), quarter=rng.randrange(4))
        rng.shuffle(visits)
        orb = self.Orbits()
        orb.set_orbits(pd.DataFrame(dict(obj_id=[o["id"] for o in objects], a=[(k + 8) / 8 for k in range(len(objects))], e=0.1, inc=1.0, Omega=2.0, argPeri=3.0, meanAnomaly=4.0,
                                         epoch=T0, H=20.0, g=0.15, sed_filename=[seds[o["sed"] - 1] for o in objects])))
        deg = rng.random() < 0.6
        ang = (lambda x: x) if deg else np.radians
        names = dict(mjd=rng.choice(["observationStartMJD", "mjd"]), ra=rng.choice(["fieldRA", "ra"]), dec="fieldDec", rot="rotSkyPos", texp="visitExposureTime", seeing="seeingFwhmGeom", m5="fiveSigmaDepth",
                     night="night", band=rng.choice(["band", "filter"]), id="observationId")
        cols = {names["mjd"]: [T0 + v["t"] / 8 for v in visits], names["ra"]: [ang(v["ra"] / 32) for v in visits], names["dec"]: [ang(v["dec"] / 32) for v in visits],
                names["rot"]: [ang(90.0 * v["quarter"]) for v in visits], names["texp"]: [float(v["texp"]) for v in visits], names["seeing"]: [v["seeing"] / 100 for v in visits],
                names["m5"]: [v["m5"] / 8 for v in visits], names["night"]: [v["night"] for v in visits], names["band"]: [BANDS[v["band"] - 1] for v in visits], names["id"]: [v["id"] for v in visits]}
        obs = pd.DataFrame(cols).to_records(index=False)
        obs = np.array(obs.tolist(), dtype=[(n, "<U2" if n == names["band"] else int if n in (names["night"], names["id"]) else float) for n in cols])
        tstep = rng.choice([1.0, 1.0, 0.5, 2.0])
        speed = max(abs(o["v"]) for o in objects) * 8 * tstep
        reach = dict(circle=fov["r"], rectangle=2 * fov["x"] + fov["y"], camera=fov["x"] + fov["y"])[fov["shape"]]
        rough = max(10.0, (reach + speed + 9) / 32) if rng.random() < 0.5 else (reach + speed + 9) / 32
        etype = rng.choice(["basic", "basic", "full"])
        kw = dict(footprint=rng.choice([fov["shape"], fov["shape"].upper()]), eph_mode=mode, prelim_eph_mode=prelim, eph_type=etype, eph_file="none", obs_time_col=names["mjd"], obs_time_scale=scale, obs_ra=names["ra"],
                  obs_degrees=deg, tstep=tstep, rough_tol=rough, filter_col=names["band"], verbose=rng.random() < 0.2)
        if fov["shape"] == "circle":
            kw["r_fov"] = fov["r"] / 32
        if fov["shape"] == "rectangle":
            kw.update(x_tol=fov["x"] / 32, y_tol=fov["y"] / 32, r_fov=reach / 32)
        colors = [[rng.randrange(-8, 8) for _ in BANDS] for _ in seds]
        ev = dict(objects=[dict(o, id=str(o["id"])) for o in objects], visits=visits, fov=fov, colors=colors, rows=[], raised="", kept=True,
                  about=dict(scale=scale, mode=mode, prelim=prelim, off=off, tstep=tstep, rough=rough, type=etype, degrees=deg, grid="none"))
        pos, mjds = None, None
        if rng.random() < 0.4:
            lo, hi = min(v["t"] for v in visits), max(v["t"] for v in visits)
            ev["about"]["grid"] = rng.choice(["covers", "covers", "short"])
            start = rng.choice([lo, lo, lo - 8, lo - 3])
            grid = [t for t in range(start, hi + 8, 8)]
            if ev["about"]["grid"] == "short":
                grid = grid[1:]
            if len(grid) > 1:
                mjds = np.array([T0 + t / 8 for t in grid])
                pos = np.zeros((len(objects), len(grid)), dtype=[("ra", float), ("dec", float)])
                for k, o in enumerate(objects):
                    pos["ra"][k] = [((o["ra"] + o["v"] * t * (o["kind"] == "ra")) / 32) % 360 for t in grid]
                    pos["dec"][k] = [(o["dec"] + o["v"] * t * (o["kind"] == "dec")) / 32 for t in grid]
            else:
                ev["about"]["grid"] = "none"
        before = [x.copy() if x is not None else None for x in (obs, pos, mjds)] + [orb.orbits.copy()]
        try:
            do = self.DO(**kw)
            # the spectra are not installed: colours as they are kept once calculated
            do.filterlist = BANDS
            do.colors = {s: {b: colors[i][j] / 8 for j, b in enumerate(BANDS)} for i, s in enumerate(seds)}
            out = quiet(do.run, orb, obs, object_positions=pos, object_mjds=mjds)
            ids, vids = {o["id"]: k + 1 for k, o in enumerate(objects)}, {v["id"]: k + 1 for k, v in enumerate(visits)}
            w = lambda x, m: int(round(float(x) * m)) if abs(float(x) * m - round(float(x) * m)) < 1e-5 else -99999
            for r in out if len(out) else []:
                oid = r["obj_id"].item() if isinstance(r["obj_id"], np.generic) else r["obj_id"]
                ev["rows"].append(dict(o=ids.get(oid, 0), v=vids.get(int(r[names["id"]]), 0), ra=w(r["ra"], 32) % 11520, dec=w(r["dec"], 32), t=w(r["time"] - T0, 8), when=w(r[names["mjd"]] - T0, 8),
                                       velocity=w(r["velocity"], 4), texp=w(r[names["texp"]], 1), seeing=w(r[names["seeing"]], 100), m5=w(r[names["m5"]], 8), night=int(r[names["night"]]),
                                       band=BANDS.index(str(r[names["band"]])) + 1, sed=seds.index(str(r["sedname"])) + 1, color=w(r["dmag_color"], 8),
                                       trail=num(10 ** (r["dmag_trail"] / 1.25) - 1, limit=60000), detect=num(10 ** (r["dmag_detect"] / 1.25) - 1, limit=60000)))
            ctx.count("rows", len(ev["rows"]))
        except Exception as ex:
            ev["raised"] = repr(ex)[:200]
        for a, b in zip(before, (obs, pos, mjds, orb.orbits)):
            if a is not None and not (a.equals(b) if hasattr(a, "equals") else np.array_equal(a, b)):
                ev["kept"] = False
        ctx.count(fov["shape"])
        self.evs.append([ev])


def check_c05(ctx):
    rng = ctx.rng
    r = ctx.design("SightingsMC", f"NVisits = {ctx.pick(2, 2)}\nStep = {ctx.pick(4, 8)}", ["Complete", "Short"])
    S = Sighting(ctx)
    for x in rng.sample(r.printed, min(len(r.printed), ctx.pick(150, 1500))):
        o = dict(x["o"])
        o.pop("err")
        visits = [dict(v, id=0) for v in x["visits"]]
        S.one([o], visits, dict(shape="circle", r=x["r"], x=0, y=0))
    for _ in range(ctx.pick(350, 3500)):
        shape = rng.choice(["circle", "circle", "rectangle", "camera"])
        fov = dict(shape=shape, r=rng.choice([57, 33, 55]), x=rng.choice([161, 33]), y=rng.choice([97, 65]))
        if shape == "camera":
            fov.update(x=35, y=51)
        objects, visits = [], []
        for _ in range(rng.randrange(1, 5)):
            kind = rng.choice(["ra", "dec", "still"])
            o = dict(kind=kind, ra=rng.choice([0, 4, 11516, 11500, 90 * 32, 180 * 32, 40 * 32]), dec=0 if kind == "ra" else rng.choice([0, 0, 4, -60 * 32, 60 * 32, -30 * 32, 85 * 32]), v=0 if kind == "still" else rng.choice([-12, -8, -4, 4, 8, 0]))
            if kind == "dec" and abs(o["dec"]) > 61 * 32:
                o["v"] = 0
            elif kind == "ra" or (kind == "dec" and abs(o["dec"]) < 5 * 32):
                o["v"] = rng.choice([o["v"], o["v"], 24, -24, 40])
            objects.append(o)
        t0 = rng.randrange(0, 24)
        for _ in range(rng.randrange(1, 9)):
            t = t0 + rng.randrange(0, rng.choice([8, 40]))
            o = rng.choice(objects)
            ra = (o["ra"] + o["v"] * t * (o["kind"] == "ra")) % 11520
            dec = o["dec"] + o["v"] * t * (o["kind"] == "dec")
            d = rng.choice([0, 4, 28, 32, 36, 48, 52, 56, 60, 64, 68, 96, 100, 160, 164, 320, 324, 328, 640]) * rng.choice([1, -1])
            if rng.random() < 0.5:
                ra = (ra + d) % 11520
                d2 = rng.choice([0, 0, 0, 4, 32])
            else:
                d2 = d
                ra = (ra + rng.choice([0, 0, 0, 4, 32])) % 11520
            dec += d2
            if shape == "rectangle":
                dec = min([0, 60 * 32, -60 * 32], key=lambda z: abs(z - dec))
            if abs(dec) > 89 * 32:
                dec, ra = (180 * 32 - abs(dec)) * (1 if dec > 0 else -1), (ra + 180 * 32) % 11520
            visits.append(dict(t=t, ra=ra, dec=dec, id=0))
        S.one(objects, visits, fov)
    ctx.oracle("SightingsTrace", S.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
