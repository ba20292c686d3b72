"""The results database of an analysis: properties B01, B02, B03 (specification ResultsDb)."""
import contextlib
import gc
import os
import sqlite3
import warnings

import numpy as np

from .archive import maximal
from .core import MachineryError
from .vsvisits import tok

OLD = {
    "metrics": ["metricId", "metricName", "slicerName", "simDataName", "sqlConstraint", "metricInfoLabel", "metricDataFile"],
    "displays": ["displayId", "metricId", "displayGroup", "displaySubgroup", "displayOrder", "displayCaption"],
    "plots": ["plotId", "metricId", "plotType", "plotFile"],
    "summarystats": ["statId", "metricId", "summaryName", "summaryValue"],
    "version": ["verId", "version", "rundate"],
}
NEW = {
    "metrics": ["metric_id", "metric_name", "slicer_name", "run_name", "sql_constraint", "metric_info_label", "metric_datafile"],
    "displays": ["display_id", "metric_id", "display_group", "display_subgroup", "display_order", "display_caption"],
    "plots": ["plot_id", "metric_id", "plot_type", "plot_file"],
    "summarystats": ["stat_id", "metric_id", "summary_name", "summary_value"],
    "version": ["version_id", "version", "run_date"],
}


class Crash(BaseException):
    """The process ends here."""


@contextlib.contextmanager
def statements(before, used=None):
    """Have before(sql) called ahead of everything sent to any database, and before("commit"); used collects the connections."""
    from sqlalchemy import event
    from sqlalchemy.engine import Engine

    def stmt(conn, cursor, statement, parameters, context, executemany):
        note(conn)
        before(statement)

    def note(conn):
        if used is not None:
            used.append(conn.connection.dbapi_connection)

    def commit(conn):
        note(conn)
        before("commit")

    event.listen(Engine, "before_cursor_execute", stmt)
    event.listen(Engine, "commit", commit)
    try:
        yield
    finally:
        event.remove(Engine, "before_cursor_execute", stmt)
        event.remove(Engine, "commit", commit)


KEYF = ("name", "slicer", "run", "con", "label")


class Results:
    def __init__(self, ctx):
        from rubin_sim.maf.db import ResultsDb

        self.ctx, self.R = ctx, ResultsDb
        self.crash_at = None

    def reset(self, how=0):
        self.dir = self.ctx.subdir("res")
        self.file = self.dir / "resultsDb_sqlite.db"
        self.how = how
        self.handles = []
        e = dict(op="reset", ok=True)
        try:
            self.open()
        except Exception as x:
            e.update(ok=False, msg=str(x)[:200])
        self.version = self.rows("version")
        e["obs"] = self.observe()
        return e

    def open(self):
        for h in self.handles:
            h.close()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mk = [lambda: self.R(out_dir=str(self.dir), timeout=2), lambda: self.R(database=str(self.file), timeout=2),
                  lambda: self.R(out_dir=str(self.dir), database="resultsDb_sqlite.db", timeout=2)]
            self.handles = [mk[self.how % 3]()]
            if self.how % 2:
                self.handles.append(mk[(self.how + 1) % 3]())

    @property
    def db(self):
        return self.ctx.rng.choice(self.handles)

    # ------------------------------------------------------------ direct observation
    def rows(self, table):
        con = sqlite3.connect(f"file:{self.file}?mode=ro", uri=True)
        c = con.execute(f"SELECT * FROM {table} ORDER BY 1")
        cols = [x[0] for x in c.description]
        r = c.fetchall()
        con.close()
        return cols, r

    def observe(self):
        schema = set()
        d = {}
        for t in NEW:
            cols, r = self.rows(t)
            schema.add("new" if cols == NEW[t] else "old" if cols == OLD[t] else "?" + str(cols))
            d[t] = r
        if hasattr(self, "version") and d["version"] != self.version[1]:
            schema.add("?version record " + str(d["version"]))
        o = dict(schema=schema.pop() if len(schema) == 1 else "mixed " + str(sorted(schema)))
        o["metrics"] = [dict(id=r[0], key=dict(name=r[1], slicer=r[2], run=r[3], con=r[4], label=r[5]), file=r[6]) for r in d["metrics"]]
        o["displays"] = [dict(mid=r[1], group=r[2], subgroup=r[3], order=tok(r[4]), caption=r[5]) for r in d["displays"]]
        o["plots"] = [dict(mid=r[1], type=r[2], file=r[3]) for r in d["plots"]]
        o["stats"] = [dict(mid=r[1], name=r[2], val=tok(r[3])) for r in d["summarystats"]]
        return o

    def ev(self, op, fn, **k):
        e = dict(op=op, **k)
        at, self.crash_at = self.crash_at, None
        n, used = [0], []

        def before(sql):
            n[0] += 1
            if n[0] == at:
                raise Crash()

        try:
            with warnings.catch_warnings(), (statements(before, used) if at else contextlib.nullcontext()):
                warnings.simplefilter("ignore")
                e.update(fn() or {})
            e["ok"] = True
        except Crash:
            # what the process had open is gone with it
            e.update(op="interrupt", what=op, ok=True)
            for raw in used:
                raw.close()
            gc.collect()
            if op == "metric":
                e["id"] = self.mid(k["key"])
            self.ctx.count("interrupted " + op)
        except MachineryError:
            raise
        except Exception as x:
            e["ok"] = False
            e["msg"] = f"{type(x).__name__}: {x}"[:200]
            for f in ("got", "rows"):
                e.setdefault(f, [])
            e.setdefault("id", -1)
        if not e["ok"]:
            # as if the process had ended with the error
            for h in self.handles:
                h.session.rollback()
            gc.collect()
        e["obs"] = self.observe()
        self.ctx.count(op)
        return e

    def mid(self, key):
        for r in self.rows("metrics")[1]:
            if list(r[1:6]) == [key[f] for f in KEYF]:
                return r[0]
        return 9999

    # ------------------------------------------------------------ operations
    def metric(self, key, file):
        n = lambda v: None if v == "NULL" and self.ctx.rng.random() < 0.8 else v
        return self.ev("metric", lambda: dict(id=int(self.db.update_metric(
            key["name"], key["slicer"], n(key["run"]), n(key["con"]), n(key["label"]), n(file)))), key=key, file=file)

    def display(self, mid, given, overwrite):
        full = {k: ("NULL" if given.get(k) is None else given[k]) for k in ("group", "subgroup", "order", "caption")}
        if full["order"] == "NULL":
            full["order"] = 0
        if full["caption"].endswith("(auto)"):
            full["caption"] = full["caption"][: -len("(auto)")]
        d = dict(mid=mid, group=full["group"], subgroup=full["subgroup"], order=tok(full["order"]), caption=full["caption"])
        before = sorted(map(str, given.items()))
        kw = {} if overwrite and self.ctx.rng.random() < 0.5 else dict(overwrite=overwrite)
        e = self.ev("display", lambda: self.db.update_display(mid, given, **kw), d=d, overwrite=overwrite, before=before)
        e["after"] = sorted(map(str, given.items()))
        return e

    def plot(self, mid, typ, file, overwrite):
        kw = {} if not overwrite and self.ctx.rng.random() < 0.5 else dict(overwrite=overwrite)
        return self.ev("plot", lambda: self.db.update_plot(mid, typ, file, **kw), p=dict(mid=mid, type=typ, file=file), overwrite=overwrite)

    def stat(self, mid, name, value):
        ss = []
        if isinstance(value, np.ndarray) and value.dtype.names:
            if {"name", "value"} <= set(value.dtype.names):
                for v in value:
                    s = v["name"].decode() if isinstance(v["name"], bytes) else str(v["name"])
                    ss.append(dict(mid=mid, name=f"{name} {s}", val=tok(v["value"])))
        elif isinstance(value, (float, int)):
            ss = [dict(mid=mid, name=name, val=tok(value))]
        return self.ev("stat", lambda: self.db.update_summary_stat(mid, name, value, pause_time=0), ss=ss)

    def reopen(self):
        self.how += 1
        return self.ev("reopen", self.open)

    def downgrade(self):
        return self.ev("downgrade", lambda: (self.handles[0].downgrade_database(), None)[1])

    def locked(self, mid, name, value, free):
        """Record a set of statistics while another process keeps the database locked (up to the given attempt)."""
        ss = [dict(mid=mid, name=f"{name} {v['name']}", val=tok(v["value"])) for v in value]
        con = sqlite3.connect(self.file, isolation_level=None)
        n = [0]

        def before(sql):
            if sql.lower().startswith("insert"):
                n[0] += 1
                if n[0] == free:
                    con.execute("commit")

        def go():
            db = self.R(database=str(self.file), timeout=0.02)
            con.execute("begin immediate")
            with statements(before):
                db.update_summary_stat(mid, name, value, ntry=3, pause_time=0)

        def end():
            if con.in_transaction:
                con.execute("rollback")
            con.close()

        def both():
            try:
                go()
            finally:
                end()

        return self.ev("locked", both, ss=ss, free=free)

    def stop_in(self, what, at):
        """The next operation ends at the given database statement; the database is opened again after that."""
        self.crash_at = at
        e = what()
        self.crash_at = None
        return [e, self.reopen()]

    # ------------------------------------------------------------ queries
    def ids_arg(self, ids):
        """The same identifiers in the forms the interface takes."""
        if len(ids) == 1 and self.ctx.rng.random() < 0.5:
            return ids[0]
        return self.ctx.rng.choice([list, tuple])(ids)

    def query(self, keys):
        rng = self.ctx.rng
        allids = [r[0] for r in self.rows("metrics")[1]]
        ids = rng.sample(allids + [777], rng.randrange(1, min(4, len(allids) + 1) + 1))
        everything = rng.random() < 0.4
        arg = None if everything else self.ids_arg(ids)
        k = dict(ids=ids, all=everything)
        kw = {} if everything and rng.random() < 0.5 else dict(metric_id=arg)
        key = rng.choice(keys)
        w = rng.random() < 0.5
        m = lambda r, run=None: dict(id=int(r["metric_id"]), key=dict(name=str(r["metric_name"]), slicer=str(r["slicer_name"]), run=run,
                                     con=str(r["sql_constraint"]), label=str(r["metric_info_label"])), file=str(r["metric_datafile"]))
        c = rng.choice(["ids", "like", "all", "runs", "getstats", "getstats", "getplots", "getfiles", "getinfo", "getdisplays"])
        if c == "ids":
            q = dict(name=rng.choice([key["name"], "never"]), slicer=rng.choice(["any", key["slicer"]]), label=rng.choice(["any", key["label"], "never"]),
                     run=rng.choice(["any", key["run"]]))
            a = {f: v for f, v in (("slicer_name", q["slicer"]), ("metric_info_label", q["label"]), ("run_name", q["run"])) if v != "any"}
            return self.ev(c, lambda: dict(got=[int(x) for x in self.db.get_metric_id(q["name"], **a)]), q=q)
        if c == "like":
            pick = lambda s: [] if rng.random() < 0.4 or not s else list(s[(j := rng.randrange(len(s))): j + rng.randrange(1, 5)])
            q = dict(name=pick(key["name"]), slicer=pick(key["slicer"]), label=pick(key["label"]))
            for f in q:  # underscore and percent are wildcards there, and letter case is not told apart
                q[f] = plain(q[f], [x[f] for x in keys])
            run = rng.choice(["any", "any", key["run"]])
            a = {f"{g}_like": "".join(q[f]) for f, g in (("name", "metric_name"), ("slicer", "slicer_name"), ("label", "metric_info_label")) if q[f]}
            if run != "any":
                a["run_name"] = run
            return self.ev(c, lambda: dict(got=[int(x) for x in self.db.get_metric_id_like(**a)]), q=q, run=run,
                           chars={s: list(s) for x in keys for s in (x["name"], x["slicer"], x["label"])})
        if c == "all":
            return self.ev(c, lambda: dict(got=[int(x) for x in self.db.get_all_metric_ids()]))
        if c == "runs":
            return self.ev(c, lambda: dict(got=[str(x) for x in self.db.get_run_name()]))
        if c == "getstats":
            names = sorted({r[2] for r in self.rows("summarystats")[1]}) or ["Mean"]
            nm = rng.choice(names)
            q = dict(name=rng.choice(["any", "any", nm, "never"]), part=rng.choice([[], [], list(nm[:3])]),
                     notparts=rng.choice([[], [], [list(rng.choice(names)[:2])], [list("Med"), list(rng.choice(names)[:4])]]))
            q["part"], q["notparts"] = plain(q["part"], names), [plain(x, names) or list("zzz") for x in q["notparts"]]
            a = dict(kw)
            if q["name"] != "any":
                a["summary_name"] = q["name"]
            if q["part"]:
                a["summary_name_like"] = "".join(q["part"])
            if q["notparts"]:
                n = ["".join(p) for p in q["notparts"]]
                a["summary_name_notlike"] = n[0] if len(n) == 1 and rng.random() < 0.5 else n
            runs = {r[0]: r[3] for r in self.rows("metrics")[1]}

            def f():
                r = self.db.get_summary_stats(with_sim_name=w, **a)
                rows = []
                for x in r:
                    row = dict(mid=int(x["metric_id"]), name=str(x["summary_metric"]), val=tok(float(x["summary_value"])),
                               key=dict(name=str(x["metric_name"]), slicer=str(x["slicer_name"]), label=str(x["metric_info_label"])),
                               run=str(x["run_name"]) if w else runs.get(int(x["metric_id"]), "?"))
                    want = " ".join([("" if row["name"] in ("Identity", "Id", "Count") else row["name"]), row["key"]["name"],
                                     row["key"]["label"], "" if row["key"]["slicer"] == "UniSlicer" else row["key"]["slicer"]]).strip(" ")
                    if str(x["summary_name"]) != want:
                        row["name"] += f"?long name {x['summary_name']}"
                    rows.append(row)
                return dict(rows=rows)

            return self.ev(c, f, chars={s: list(s) for s in names}, **k, **q)
        if c == "getplots":
            runs = {r[0]: r[3] for r in self.rows("metrics")[1]}

            def f():
                rows = []
                for x in self.db.get_plot_files(with_sim_name=w, **kw):
                    fn = str(x["plot_file"])
                    rows.append(dict(mid=int(x["metric_id"]), type=str(x["plot_type"]), name=str(x["metric_name"]), label=str(x["metric_info_label"]),
                                     file=fn if str(x["thumb_file"]) == "thumb." + fn.rsplit(".", 1)[0] + ".png" else "?thumb",
                                     run=str(x["run_name"]) if w else runs.get(int(x["metric_id"]), "?")))
                return dict(rows=rows)

            return self.ev(c, f, **k)
        if c == "getfiles":
            return self.ev(c, lambda: dict(rows=[str(x) for x in self.db.get_metric_data_files(**kw)]), **k)
        if c == "getinfo":
            runs = {r[0]: r[3] for r in self.rows("metrics")[1]}

            def f():
                rows = []
                for x in self.db.get_metric_info(with_sim_name=w, **kw):
                    r = m(x, str(x["run_name"]) if w else runs.get(int(x["metric_id"]), "?"))
                    if str(x["base_metric_names"]) != r["key"]["name"].split("_")[0]:
                        r["file"] += "?base name"
                    rows.append(r)
                return dict(rows=rows)

            return self.ev(c, f, **k)
        runs = {r[0]: r[3] for r in self.rows("metrics")[1]}

        def f():
            rows = []
            for x in self.db.get_metric_display_info(**kw):
                r = m(x, runs.get(int(x["metric_id"]), "?"))
                rows.append(dict(m=r, d=dict(mid=r["id"], group=str(x["display_group"]), subgroup=str(x["display_subgroup"]),
                                             order=tok(float(x["display_order"])), caption=str(x["display_caption"]))))
            return dict(rows=rows)

        return self.ev("getdisplays", f, **k)


def keypool(rng):
    names = ["Count", "Count_N", "Mean airmass", "it's 50%", "Count observationStartMJD"]
    out = []
    for _ in range(4):
        out.append(dict(name=rng.choice(names), slicer=rng.choice(["UniSlicer", "HealpixSlicer", "OneDSlicer"]), run=rng.choice(["run_a", "b", "NULL"]),
                        con=rng.choice(["", "band = 'r'", "NULL"]), label=rng.choice(["", "r", "r band", "NULL"])))
    base = out[0]
    out.append(dict(base, **{rng.choice(KEYF): "varied"}))
    return out


def plain(part, strings):
    """The part to search for, if every reading of 'like' agrees on what contains it."""
    p = "".join(part)
    if set(p) & set("_%") or any(p.lower() in s.lower() and p not in s for s in strings):
        return []
    return list(part)


FILES = ["NULL", "a.npz", "b.npz"]


def rand_value(rng):
    k = rng.random()
    if k < 0.6:
        return rng.choice([0, 1, -5, 2.5, 1 / 3, 1e300, float("nan"), float("inf"), -float("inf"), np.float64(7.25), True, 2**40])
    if k < 0.85:
        n = rng.randrange(1, 4)
        a = np.zeros(n, dtype=[("name", rng.choice(["S12", "U12"])), ("value", float)])
        for j in range(n):
            a["name"][j] = rng.choice(["p90", "x y", f"b{j}"])
            a["value"][j] = rng.choice([1.5, np.nan, np.inf, -2])
        return a
    return rng.choice([np.zeros(2, dtype=[("col", "S4"), ("value", float)]), "text", None, np.arange(3)])


def rand_display(rng):
    d = {}
    for f, vs in (("group", ["g", "h", None]), ("subgroup", ["s", None]), ("order", [1, 2.5, None, 0]), ("caption", ["c", "cap (auto)", None, "(auto) b"])):
        if rng.random() < 0.75:
            d[f] = rng.choice(vs)
    return d


def step(rs, rng, keys, migrate=False):
    ids = [r[0] for r in rs.rows("metrics")[1]]
    k = rng.random()
    if not ids or k < 0.35:
        return rs.metric(rng.choice(keys), rng.choice(FILES))
    mid = rng.choice(ids)
    if k < 0.55:
        return rs.display(mid, rand_display(rng), rng.random() < 0.7)
    if k < 0.7:
        return rs.plot(mid, rng.choice(["SkyMap", "Histogram"]), rng.choice(["p.1_a.pdf", "q.pdf"]), rng.random() < 0.5)
    if k < 0.9:
        return rs.stat(mid, rng.choice(["Mean", "Median", "Count", "Identity", "Mean 3Sigma"]), rand_value(rng))
    return rs.reopen()


def replay(rs, rng, h):
    tr = [rs.reset(rng.randrange(6))]
    for e in h:
        if e["op"] == "metric":
            tr.append(rs.metric(e["key"], e["file"]))
        elif e["op"] == "display":
            tr.append(rs.display(rs.mid(e["key"]), dict(group=e["group"], caption="c"), e["overwrite"]))
        elif e["op"] == "plot":
            tr.append(rs.plot(rs.mid(e["key"]), e["type"], f"p{len(tr)}.pdf", e["overwrite"]))
        elif e["op"] == "stat":
            tr.append(rs.stat(rs.mid(e["key"]), "Mean", rng.choice([1, 2.5])))
        elif e["op"] == "downgrade":
            tr.append(rs.downgrade())
        elif e["op"] == "interrupted":
            # an older form or a later statement leaves more done; the statement at which it ends is drawn
            rs.crash_at = rng.randrange(2, 30)
            tr.append(rs.downgrade() if e["what"] == "downgrade" else rs.reopen())
            rs.crash_at = None
        else:
            tr.append(rs.reopen())
    return tr


def spec_histories(ctx, n, migrate, limit):
    r = ctx.design("ResultsDbMC", constants=f" MaxOps = {n}\n Migrate = {'TRUE' if migrate else 'FALSE'}", invariants=["Inv"], properties=["NoLoss"],
                   view="View", workers=1)
    hs = maximal(r.printed)
    if migrate:
        hs = [h for h in hs if any(e["op"] in ("downgrade", "interrupted") for e in h)]
    ctx.rng.shuffle(hs)
    ctx.extra["spec_generated_behaviours"] = len(hs[:limit])
    return hs[:limit]


def check_b01(ctx):
    rs, rng = Results(ctx), ctx.rng
    traces = [replay(rs, rng, h) for h in spec_histories(ctx, ctx.pick(4, 5), False, ctx.pick(90, 1000))]
    for _ in range(ctx.pick(35, 400)):
        keys = keypool(rng)
        tr = [rs.reset(rng.randrange(6))]
        for _ in range(rng.randrange(10, 30)):
            ids = [r[0] for r in rs.rows("metrics")[1]]
            k = rng.random()
            if k < 0.15:
                tr += rs.stop_in(lambda: step(rs, rng, keys), rng.randrange(1, 6))
            elif k < 0.2 and ids:
                v = np.array([(f"n{j}", float(j)) for j in range(rng.randrange(1, 4))], dtype=[("name", "U5"), ("value", float)])
                tr.append(rs.locked(rng.choice(ids), "Many", v, rng.choice([1, 2, 3, 99])))
            else:
                tr.append(step(rs, rng, keys))
        traces.append(tr)
    ctx.oracle("ResultsDbTrace", traces, chunks=6)


def check_b02(ctx):
    rs, rng = Results(ctx), ctx.rng
    traces = []
    ctx.design("ResultsDbMC", constants=f" MaxOps = {ctx.pick(3, 5)}\n Migrate = FALSE", invariants=["Inv"], properties=["NoLoss"], view="View")
    for _ in range(ctx.pick(60, 700)):
        keys = keypool(rng)
        tr = [rs.reset(rng.randrange(6))]
        tr += [rs.query(keys) for _ in range(2)]
        for _ in range(rng.choice([1, 4, 10])):
            tr += [step(rs, rng, keys) for _ in range(2)]
        tr += [rs.query(keys) for _ in range(14)]
        traces.append(tr)
    ctx.oracle("ResultsDbTrace", traces, chunks=6)


def older(rs, rng):
    """Turn the old schema on file into one of its other historical forms."""
    con = sqlite3.connect(rs.file)
    k = rng.choice(["metricMetadata", "metric_id", "both", "none"])
    if any(rs.rows(t)[0] != OLD[t] for t in OLD):
        k = "none"  # reported already
    if k in ("metricMetadata", "both"):
        con.execute("alter table metrics rename column metricInfoLabel to metricMetadata")
    if k in ("metric_id", "both"):
        for t in ("metrics", "summarystats", "plots", "displays"):
            con.execute(f"alter table {t} rename column metricId to metric_id")
    con.commit()
    con.close()
    return k


def check_b03(ctx):
    rs, rng = Results(ctx), ctx.rng
    traces = [replay(rs, rng, h) for h in spec_histories(ctx, ctx.pick(4, 5), True, ctx.pick(60, 600))]
    for _ in range(ctx.pick(45, 500)):
        keys = keypool(rng)
        tr = [rs.reset(rng.randrange(6))]
        for _ in range(rng.randrange(1, 4)):
            tr += [step(rs, rng, keys) for _ in range(rng.choice([0, 1, 5, 12]))]
            if rng.random() < 0.3:
                tr += rs.stop_in(rs.downgrade, rng.randrange(1, 32))
            if tr[-1]["obs"]["schema"] == "new":
                tr.append(rs.downgrade())
            kind = older(rs, rng)
            ctx.count("schema " + kind)
            if rng.random() < 0.5:
                tr += rs.stop_in(rs.reopen, rng.randrange(1, 36))
            tr.append(rs.reopen())
            tr += [rs.query(keys) for _ in range(3)]
            if rng.random() < 0.4:
                tr.append(rs.reopen())
        traces.append(tr)
    ctx.oracle("ResultsDbTrace", traces, chunks=6)
