"""Tables of orbits: C03 (specification OrbitSets)."""
import os

import numpy as np

from .metrics import quiet

U = 40
EL = dict(COM=["q", "e", "inc", "Omega", "argPeri", "tPeri", "epoch"], KEP=["a", "e", "inc", "Omega", "argPeri", "meanAnomaly", "epoch"],
          CAR=["x", "y", "z", "xdot", "ydot", "zdot", "epoch"])
OPT = ["obj_id", "H", "g", "sed_filename"]
ALIAS = dict(obj_id=["obj_id", "objid", "!!ObjID", "!!OID", "!!S3MID", "OID", "S3MID", "objid(int)", "full_name", "#name"], e=["e", "ecc"],
             inc=["inc", "i", "i(deg)", "incl"], Omega=["Omega", "omega", "node", "om", "node(deg)", "BigOmega", "Omega/node", "longNode"],
             argPeri=["argPeri", "argperi", "omega/argperi", "w", "argperi(deg)", "peri"], tPeri=["tPeri", "t_p", "timeperi", "t_peri", "T_peri"],
             epoch=["epoch", "t_0", "Epoch", "epoch_mjd"], H=["H", "magH", "magHv", "Hv", "H_v"], g=["g", "phaseV", "phase", "gV", "phase_g", "G"],
             meanAnomaly=["meanAnomaly", "meanAnom", "M", "ma"], sed_filename=["sed_filename", "sed"], xdot=["xdot", "xDot"], ydot=["ydot", "yDot"], zdot=["zdot", "zDot"])


class Orb:
    def __init__(self, ctx):
        from rubin_sim.moving_objects import Orbits

        self.ctx, self.rng, self.Orbits, self.evs = ctx, ctx.rng, Orbits, []

    def values(self, n, cols, ids):
        rng = self.rng
        rows = []
        for k in range(n):
            row = {}
            for c in cols:
                if c == "epoch":
                    row[c] = U * rng.choice([54800, 49353, 59000])
                elif c == "sed_filename":
                    row[c] = rng.choice(["C.dat", "S.dat", "D.dat"])
                elif c == "obj_id":
                    row[c] = 3 + 5 * k if rng.random() < 0.95 else 3
                elif c == "e":
                    row[c] = rng.randrange(0, 40)
                elif c in ("a", "q"):
                    row[c] = rng.choice([rng.randrange(20, 80), rng.randrange(81, 400)])
                elif c in ("x", "y", "z", "xdot", "ydot", "zdot"):
                    row[c] = rng.randrange(-80, 80)
                elif c in ("H", "g"):
                    row[c] = rng.randrange(0, 1000)
                else:
                    row[c] = rng.randrange(0, 360 * U)
            rows.append(row)
        return rows

    def real(self, c, v, ids):
        if c in ("sed_filename", "FORMAT", "sed"):
            return v
        if c == "obj_id":
            return ids(v)
        return v / U

    def rows(self, frame, ids):
        out = []
        for j in range(len(frame)):
            row = {}
            for c in frame.columns:
                v = frame[c].iloc[j]
                if c in ("sed_filename", "FORMAT"):
                    row[c] = str(v)
                elif c == "obj_id":
                    row[c] = self.back(v)
                else:
                    x = float(v) * U
                    row[c] = int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-6 * max(1, abs(x)) else -987654
            out.append(row)
        return out

    def back(self, v):
        if isinstance(v, str):
            return int(v[1:]) if v[:1] == "S" and v[1:].isdigit() else -5
        try:
            return int(v) if float(v) == int(v) else -6
        except (TypeError, ValueError):
            return -7

    def frame(self, rows, cols, stated, ids):
        import pandas as pd

        d = {c: [self.real(c, r[c], ids) for r in rows] for c in cols}
        if stated != [""]:
            d["FORMAT"] = [stated[k % len(stated)] for k in range(len(rows))]
        names = list(d)
        self.rng.shuffle(names)
        return pd.DataFrame({c: d[c] for c in names})

    def table(self, cols, stated, n, odd=None):
        """A table held in memory."""
        ctx, rng = self.ctx, self.rng
        ids = rng.choice([lambda v: "S%d" % v, lambda v: v])
        cols = sorted(cols) + (["extra"] if rng.random() < 0.2 else [])
        stated = sorted(stated)
        if len(stated) > 1 and n < 2:
            n = 2
        rows = self.values(n, cols, ids)
        if odd is not None and "epoch" in cols and n:
            rows[rng.randrange(n) if odd else 0]["epoch"] = U * rng.choice([2454800, 124595, -30000])
        df = self.frame(rows, cols, stated, ids)
        how = rng.choice(["frame", "frame", "labels", "records", "series", "record"]) if n == 1 else rng.choice(["frame", "frame", "labels", "records"])
        if n == 0:
            how = "frame"
        arg = df
        if how == "labels":
            arg = df.set_index(np.array([7 + 3 * k for k in range(n)][::-1]))
        elif how == "records":
            arg = df.to_records(index=False)
        elif how == "series":
            arg = df.iloc[0]
        elif how == "record":
            arg = df.to_records(index=False)[0]
        keep = arg.copy()
        ev = dict(file=False, cols=cols, stated=stated, rows=rows, raised="", out=[], len=-1, format="", kept=True, found=[], about=how)
        o = self.Orbits()
        try:
            quiet(o.set_orbits, arg)
            ev.update(out=self.rows(o.orbits, ids), len=len(o), format=str(o.orb_format))
        except Exception as ex:
            ev["raised"] = repr(ex)[:160]
        if how in ("records", "record"):
            ev["kept"] = bool(np.all(keep == arg)) and keep.dtype == arg.dtype
        else:
            ev["kept"] = bool(keep.equals(arg)) and list(keep.index) == list(arg.index)
        ctx.count("table " + how)
        if not ev["raised"] and odd is None:
            self.explore(ev, o, ids)
        self.evs.append([ev])

    def explore(self, ev, o, ids):
        """What the accepted set of orbits says about itself."""
        rng, n = self.rng, len(o)

        def ask(q, fn, **p):
            x = dict(q=q, raised="", **p)
            try:
                x.update(quiet(fn))
            except Exception as ex:
                x["raised"] = repr(ex)[:160]
            ev["found"].append(x)

        if n == 0:
            return
        k = rng.randrange(n)
        ask("item", lambda: (lambda s: dict(out=self.rows(s.orbits, ids), format=str(s.orb_format)))(o[k]), k=k + 1)
        a, b, s = rng.randrange(n), rng.randrange(1, n + 1), rng.randrange(1, 3)
        ks = list(range(n))[a:b:s]
        if ks:
            ask("slice", lambda: (lambda s_: dict(out=self.rows(s_.orbits, ids), format=str(s_.orb_format)))(o[a:b:s]), ks=[j + 1 for j in ks])

        def walk():
            every = list(o)
            return dict(out=[r for w in every for r in self.rows(w.orbits, ids)], formats=[str(w.orb_format) for w in every])

        ask("walk", walk)

        def equal(change, cut):
            def f():
                d = o.orbits.copy()
                if change == "sed_filename":
                    d.loc[d.index[k], change] = "X.dat"
                elif change == "obj_id":
                    d[change] = [ids(999) if j == k else v for j, v in enumerate(d[change])]
                elif change:
                    d.loc[d.index[k], change] = d[change].iloc[k] + 1 / U
                d["FORMAT"] = o.orb_format
                p = self.Orbits()
                p.set_orbits(d[:cut] if cut else d)
                out = self.rows(p.orbits, ids)
                if rng.random() < 0.5:
                    return dict(eq=bool(o == p), ne=bool(o != p), out=out, format=str(p.orb_format))
                return dict(eq=bool(p == o), ne=bool(p != o), out=out, format=str(p.orb_format))

            return f

        ask("equal", equal(None, 0))
        for g in EL:
            if g != o.orb_format and set(EL[g]) <= set(o.orbits.columns):

                def otherwise(g=g):
                    p = self.Orbits()
                    p.set_orbits(o.orbits.assign(FORMAT=g))
                    return dict(eq=bool(o == p), ne=bool(o != p), out=self.rows(p.orbits, ids), format=str(p.orb_format))

                ask("equal", otherwise)
                self.ctx.count("elements of two formats")
        for c in rng.sample(EL[o.orb_format] + OPT, 3) + (["extra"] if "extra" in o.orbits else []):
            ask("equal", equal(c, 0))
        if n > 1:
            ask("equal", equal(None, rng.randrange(1, n)))
        ask("other", lambda: dict(eq=bool(o == rng.choice([3, "x", None]))))
        to = rng.choice(list(EL))

        def update(whole):
            def f():
                import pandas as pd

                p = o if whole else o[k]
                cols = EL[to] + ["H", "g"]
                new = self.values(len(p), cols, ids)
                d = pd.DataFrame({c: [r[c] / U for r in new] for c in cols})
                q = self.Orbits()
                src = p.orbits.copy()
                q.set_orbits(src.assign(FORMAT=p.orb_format))
                q.orbits.index = p.orbits.index
                if rng.random() < 0.4:
                    d.index = [5 + 2 * j for j in range(len(d))][::-1]
                q.update_orbits(d)
                return dict(out=self.rows(q.orbits, ids), format=str(q.orb_format), new=new, to=to)

            return f

        if rng.random() < 0.4:
            ask("update", update(True))
        if n == 1 and rng.random() < 0.8:
            ask("update", update(False))
        elif n > 1 and rng.random() < 0.3:
            # one of several, with the label it has among them
            one = o[k]
            ids_ = ids

            def single():
                import pandas as pd

                cols = EL[to] + ["H", "g"]
                new = self.values(1, cols, ids_)
                one.update_orbits(pd.DataFrame({c: [r[c] / U for r in new] for c in cols}))
                return dict(out=self.rows(one.orbits, ids_), format=str(one.orb_format), new=new, to=to)

            e2 = dict(ev, out=[ev["out"][k]], rows=[ev["rows"][k]] if ev["rows"] else [], len=1, found=[])
            if "obj_id" in ev["cols"] or k == 0:
                x = dict(q="update", raised="")
                try:
                    x.update(quiet(single))
                except Exception as ex:
                    x["raised"] = repr(ex)[:160]
                e2["found"] = [x]
                if not e2["file"] and len(set(e2["stated"])) == 1:
                    self.evs.append([e2])

    def file(self, fmt, n, opt, twist=None):
        """A table in a file."""
        ctx, rng = self.ctx, self.rng
        path = os.path.join(ctx.scratch, "orbits.txt")
        cols = EL[fmt] + sorted(opt)
        if twist == "missing":
            cols.remove(rng.choice([c for c in EL[fmt]]))
        ids = rng.choice([lambda v: "S%d" % v, lambda v: v])
        rows = self.values(n, cols, ids)
        for r in rows:
            for c in r:
                if c == "inc" and twist == "negative" and rng.random() < 0.5:
                    r[c] = -r[c] - 1
        stated = rng.choice([[""], [fmt]])
        form = rng.choice(["header", "header", "comment", "hash", "bang", "skip", "comma", "des"])
        if form == "des":
            if twist or not {"obj_id", "H"} <= set(opt):
                form = "header"
            else:
                cols = ["obj_id", "FORMAT"] + EL[fmt][:6] + ["H", "epoch", "INDEX", "N_PAR", "MOID", "COMPCODE"]
                stated = [fmt]
        cell = lambda r, c: {"FORMAT": fmt, "INDEX": "1", "N_PAR": "6", "MOID": "-1", "COMPCODE": "PANSTARRS"}.get(c) or (
            "%.6f" % self.real(c, r[c], ids) if c not in ("obj_id", "sed_filename") else str(self.real(c, r[c], ids)))
        sep = "," if form == "comma" else rng.choice([" ", "  "])
        lines, kw = [], {}
        if form != "des":
            if stated != [""]:
                cols.append("FORMAT")
            # the fourth value of a row tells rows from headers
            while True:
                rng.shuffle(cols)
                if len(cols) < 4 or cols[3] not in ("FORMAT", "sed_filename") and not (cols[3] == "obj_id" and rows and isinstance(ids(1), str)):
                    break
            used = {}
            names = []
            for c in cols:
                a = rng.choice(ALIAS.get(c, [c]))
                if form in ("hash", "bang") and cols.index(c) == 0 and a[0] in "#!":
                    a = c
                names.append(a)
                used[c] = a
            if twist == "ambiguous":
                c = rng.choice([c for c in cols if c in ("inc", "Omega", "argPeri", "epoch")] or ["epoch"])
                a = rng.choice([x for x in ALIAS[c] if x not in names])
                for r in rows:
                    r["@" + a] = r.get(c, 0)
                cols = cols + ["@" + a]
                names.append(a)
            head = sep.join(names)
            if form == "comment":
                lines += ["# orbits of something", "!! more about it"][: rng.randrange(1, 3)]
            if form == "skip":
                k = rng.randrange(0, 3)
                lines += ["1 2 3 4 5 6"] * k
                kw["skiprows"] = k
            if form == "comma":
                kw["delim"] = ","
                if rng.random() < 0.4:
                    kw["skiprows"] = 0
            if form == "hash":
                head = rng.choice(["# ", "## "]) + head
            if form == "bang":
                head = "!! " + head
            lines.append(head)
        for r in rows:
            lines.append(sep.join(cell(r, c) if c[0] != "@" else "%.6f" % (r[c] / U) for c in cols))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        data = [c for c in cols if c not in ("FORMAT", "INDEX", "N_PAR", "MOID", "COMPCODE")]
        name = (lambda c: c[1:] if c[0] == "@" else c) if form == "des" else (lambda c: c[1:] if c[0] == "@" else used[c])
        ev = dict(file=True, cols=[name(c) for c in data], stated=stated, rows=[{name(c): r[c] for c in data} for r in rows], raised="", out=[], len=-1, format="", kept=True,
                  found=[], about=form, text=lines[:4])
        o = self.Orbits()
        try:
            quiet(o.read_orbits, path, **kw)
            ev.update(out=self.rows(o.orbits, ids), len=len(o), format=str(o.orb_format))
        except Exception as ex:
            ev["raised"] = repr(ex)[:160]
        ctx.count("file " + form)
        if not ev["raised"]:
            self.explore(ev, o, ids)
        self.evs.append([ev])


def check_c03(ctx):
    rng = ctx.rng
    r = ctx.design("OrbitSetsMC", "NRows = 2", ["Again", "Telling", "Sharp"])
    C = Orb(ctx)
    for x in rng.sample(r.printed, min(len(r.printed), ctx.pick(500, 4000))):
        C.table(x["cols"], x["stated"], rng.choice([1, 2, 3]))
    for _ in range(ctx.pick(120, 1000)):
        f = rng.choice(list(EL))
        g = rng.choice(list(EL) if rng.random() < 0.4 else [f])
        C.table(sorted(set(EL[f] + EL[g])) + [c for c in OPT if rng.random() < 0.6], rng.choice([[""], [f]]) if f == g else [f], rng.choice([0, 1, 2, 4, 7]), odd=rng.choice([None, None, None, 0, 1]))
    for _ in range(ctx.pick(300, 2500)):
        C.file(rng.choice(list(EL)), rng.choice([1, 2, 5]), [c for c in OPT if rng.random() < 0.6], rng.choice([None, None, None, "missing", "negative", "ambiguous"]))
    ctx.oracle("OrbitSetsTrace", C.evs, chunks=6, key=lambda b: "+".join(b["clauses"]))
