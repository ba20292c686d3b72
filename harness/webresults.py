"""The pages that show the results of analyses: property B07 (specification WebResults)."""
import html.parser
import json
import os
import socket
import sqlite3
import subprocess
import sys
import time
import urllib.parse
import urllib.request

import numpy as np

from .archive import maximal
from .core import MachineryError
from .mafstore import Store
from .runs import quiet
from .vsvisits import tok

SKY = ["SkyMap", "TwoD", "neoxyPlotter"]
# what a plot type was called before
FORMER = {"SkyMap": "skymapPlot", "Histogram": "histogramPlot", "HistogramPlot": "Histogram", "SkyMapPlot": "SkyMap", "TwoDPlot": "TwoD", "TwoD": "twodPlot"}
STATS = ["Mean", "Median", "Rms", "Count", "Identity", "Id", "Min", "Max", "N(+3Sigma)", "25th%ile", "Area", "fONv", "b p90", "RobustRms",
         "TableFraction 0 == P", "TableFraction 1 == P", "TableFraction 1 < P", "TableFraction 0.1 < P < 0.2", "TableFraction 0.5 < P < 1", "Zed",
         "Completeness@Time x", "Completeness H <= 20", "FractionPop 3", "Completeness"]


def random_db(rng, size, served=False):
    groups = rng.sample(["A area", "B & C", "z_last", "Ab", "a"], rng.randrange(1, 4))
    subs = rng.sample(["1: all", "2", "Nvisits per", "x_y", ""][: 4 if served else 5], rng.randrange(1, 4))
    names = ["CoaddM5", "Count_expMJD", "Count_night", "Count", "fO", "Mean airmass", "Count_expMJD x"]
    labels = ["r", "g band", "", "all bands", "R"] if not served else ["r", "g band", "all bands", "R"]
    ms, seen = [], set()
    k = 0
    while len(ms) < size and k < 10 * size:
        k += 1
        t = (rng.choice(names), rng.choice(["HealpixSlicer", "UniSlicer", "OneDSlicer"]), rng.choice(labels))
        if t in seen:
            continue
        seen.add(t)
        ms.append(dict(name=t[0], slicer=t[1], label=t[2], con="", group=rng.choice(groups), subgroup=rng.choice(subs), order=rng.choice([0, 1, 2, 10]),
                       caption=rng.choice(["A caption.", "NULL", "b & c"]), file=rng.choice(["NULL", f"f{len(ms)}.npz"])))
    stats, plots = [], []
    dense, kinds = rng.random(), rng.choice([STATS, STATS, STATS[:4], STATS[:1], ["Zed"]])
    v = 0
    for j, m in enumerate(ms):
        for n in rng.sample(kinds, int(dense * len(kinds) + 0.5)) if rng.random() < 0.8 else []:
            v += 1
            stats.append(dict(m=j, name=n, val=v if served else rng.choice([v, v + 0.25, -v / 3, float("nan") if n != "Count" else v])))
        bands = rng.choice(["ugrizy", "ugrizy", "r", "xq"])
        pre = f"run_{m['name'].replace(' ', '_').replace('_y', '')}{j}"
        for t in rng.sample(["SkyMap", "Histogram", "PowerSpectrum", "Combo", "ComboHistogram", "Hourglass", "Binned", "TwoD", "neoxyPlotter"] + ([] if served else ["skymapPlot", "histogramPlot"]),
                            rng.choice([0, 1, 2, 4])):
            if served and t in SKY and any(p["m"] == j and p["type"] in SKY for p in plots):
                continue
            for k in range(1 if served or rng.random() < 0.8 else 2):
                plots.append(dict(m=j, type=t, file=f"{pre}_{rng.choice(bands)}_{t}{k or ''}.{rng.choice(['pdf', 'pdf', 'png'])}"))
    return dict(metrics=ms, stats=stats, plots=plots)


def spec_db(kinds):
    """A small database of the specification."""
    d = dict(metrics=[], stats=[], plots=[])
    for j, k in enumerate(kinds):
        d["metrics"].append(dict(name=k["name"], slicer="S", label="l", con=str(j), group=k["group"], subgroup="S", order=k["order"], caption="NULL", file="NULL"))
        if k["stat"]:
            d["stats"].append(dict(m=j, name=k["stat"], val=j + 1))
        if k["plot"]:
            d["plots"].append(dict(m=j, type="SkyMap", file=f"{k['plot']}.{j}.pdf"))
    return d


class Web:
    def __init__(self, ctx):
        from rubin_sim.maf.db import ResultsDb
        from rubin_sim.maf.web import MafRunResults

        self.ctx, self.rng, self.R, self.M = ctx, ctx.rng, ResultsDb, MafRunResults

    def store(self, d, out):
        """Put a database into a directory; the event that tells of it."""
        rng = self.rng
        with quiet():
            db = self.R(out_dir=str(out))
            ids = []
            for m in d["metrics"]:
                ids.append(int(db.update_metric(m["name"], m["slicer"], "run", m["con"], m["label"], m["file"])))
                db.update_display(ids[-1], dict(group=m["group"], subgroup=m["subgroup"], order=m["order"], caption=m["caption"]))
            for s in d["stats"]:
                db.update_summary_stat(ids[s["m"]], s["name"], s["val"])
            for p in d["plots"]:
                db.update_plot(ids[p["m"]], p["type"], p["file"])
            db.close()
        t = dict(metrics=[dict(id=i, **{k: m[k] for k in ("name", "slicer", "label", "group", "subgroup", "order", "caption", "file")}) for i, m in zip(ids, d["metrics"])],
                 stats=[dict(id=ids[s["m"]], name=s["name"], val=tok(float(s["val"]))) for s in d["stats"]],
                 plots=[dict(id=ids[p["m"]], type=p["type"], file=p["file"], thumb="thumb." + p["file"].rsplit(".", 1)[0] + ".png") for p in d["plots"]])
        strings = {x[f] for x in t["metrics"] for f in ("name", "slicer", "label", "group", "subgroup")} | {x["name"].split("_")[0] for x in t["metrics"]}
        strings |= {x["name"] for x in t["stats"]} | {x["type"] for x in t["plots"]} | set(STATS)
        rank = {s: k for k, s in enumerate(sorted(strings))}
        self.db, self.out = t, out
        return dict(op="db", db=t, rank=rank)

    # ------------------------------------------------------------ the results object
    def methods(self, n):
        rng, ctx = self.rng, self.ctx
        home = os.getcwd()
        if rng.random() < 0.5:
            os.chdir(rng.choice([self.out, self.out.parent]))
        try:
            r = self.M(*(([rng.choice([str(self.out), os.path.relpath(self.out)])]) if rng.random() < 0.7 else [str(self.out), "a run", str(self.out / "resultsDb_sqlite.db")]))
            ids = lambda a: [int(x) for x in a["metric_id"]]
            evs = [dict(op="all", got=ids(r.metrics), groups=[dict(g=str(g), sgs=[str(x) for x in s]) for g, s in r.groups.items()])]
            for _ in range(n):
                evs.append(self.method(r, ids))
                ctx.count(evs[-1]["op"])
            return evs
        finally:
            os.chdir(home)

    def method(self, r, ids):
        rng, t = self.rng, self.db
        allids = [m["id"] for m in t["metrics"]]
        every = rng.random() < 0.5
        some = allids if every else rng.sample(allids, rng.randrange(0, len(allids) + 1))
        sub = r.metrics if every else r.metrics[np.isin(r.metrics["metric_id"], some)]
        if rng.random() < 0.4:
            sub = sub[np.array(rng.sample(range(len(sub)), len(sub)), int)]
        a = () if every and rng.random() < 0.6 else (sub,)
        kw = {} if not a else dict(metrics=sub)
        m = rng.choice(t["metrics"])
        one = r.metrics[r.metrics["metric_id"] == m["id"]][0]
        types = [p["type"] for p in t["plots"]] or ["SkyMap"]
        names = [s["name"] for s in t["stats"]] or ["Mean"]
        pl = lambda ps: [dict(id=int(p["metric_id"]), type=str(p["plot_type"]), file=str(p["plot_file"]), thumb=str(p["thumb_file"])) for p in ps]
        strip = lambda f: os.path.relpath(f, self.out) if os.path.abspath(f).startswith(str(self.out.resolve())) or os.path.abspath(f).startswith(str(self.out)) else "?" + f
        dic = lambda d: [dict(type=str(k), files=[[strip(f), strip(g)] for f, g in zip(v["plot_file"], v["thumb_file"])]) for k, v in d.items()]
        op = rng.choice(["group", "subgroup", "subgroups", "type", "stat", "stats", "slicer", "label", "name", "ids", "select", "select", "unique", "info", "plots", "sky",
                         "grid", "grid", "statsof", "statdict", "statdict"])
        e = dict(op=op, subset=some)
        if op == "group":
            sort = rng.random() < 0.6
            e.update(group=m["group"], sort=sort, got=ids(r.metrics_in_group(m["group"], sort=sort, **kw) if not sort or rng.random() < 0.5 else r.metrics_in_group(m["group"], **kw)))
        elif op == "subgroup":
            g, s = m["group"], rng.choice(t["metrics"])["subgroup"]
            if not every or rng.random() < 0.5:
                got = ids(r.metrics_in_subgroup(g, s, **kw))
            else:
                got = [int(x) for x in r.metric_ids_in_subgroup(g, s)]
                e["subset"] = allids
            e.update(group=g, subgroup=s, got=got)
        elif op == "subgroups":
            e.update(got=[dict(g=str(g), sgs=[str(x) for x in s]) for g, s in r.metrics_to_subgroups(sub).items()])
        elif op == "type":
            ty = rng.choice([["SkyMap"], SKY, [rng.choice(types)], rng.sample(sorted(set(types)), rng.randrange(1, len(set(types)) + 1)), ["None"],
                             [rng.choice(["SkyMapPlot", "HistogramPlot", "TwoDPlot", "Histogram"])]])
            if ty == ["SkyMap"] and rng.random() < 0.5:
                got = r.metrics_with_plot_type(*(), **kw)
            else:
                got = r.metrics_with_plot_type(ty[0] if len(ty) == 1 and rng.random() < 0.5 else list(ty), **kw)
            e.update(types=ty + [FORMER[x] for x in ty if x in FORMER], got=ids(got))
        elif op == "stat":
            n = [rng.choice(names + ["Identity"])]
            if rng.random() < 0.3:
                n = rng.sample(sorted(set(names)), rng.randrange(1, len(set(names)) + 1))
            e.update(stat=n, got=ids(r.metrics_with_summary_stat(*(() if n == ["Identity"] and rng.random() < 0.5 else (n if len(n) > 1 else n[0],)), **kw)))
        elif op == "stats":
            e.update(got=ids(r.metrics_with_stats(*a)))
        elif op == "slicer":
            e.update(slicer=m["slicer"], got=ids(r.metrics_with_slicer(m["slicer"], *a)))
        elif op == "label":
            e.update(label=m["label"], got=ids(r.metrics_with_info_label(m["label"], *a)))
        elif op == "name":
            b = rng.random() < 0.5
            nm = rng.choice([m["name"], m["name"].split("_")[0]])
            e.update(name=nm, baseonly=b, got=ids(r.metrics_with_metric_name(nm, baseonly=b, **kw) if not b or rng.random() < 0.5 else r.metrics_with_metric_name(nm, **kw)))
        elif op == "ids":
            q = rng.sample(allids + [7777], rng.randrange(0, len(allids) + 1))
            back = r.metric_ids_to_metrics(list(q), *a)
            e.update(ids=q, got=[int(x) for x in r.metrics_to_metric_ids(back)])
        elif op == "select":
            ps = [(x["group"], x["subgroup"]) for x in rng.sample(t["metrics"], rng.randrange(0, min(3, len(allids)) + 1))]
            q = rng.sample(allids, rng.randrange(0, min(3, len(allids)) + 1))
            by = lambda s: s.encode() if rng.random() < 0.6 else s
            got = r.convert_select_to_metrics([by(f"{g}__{s}") for g, s in ps], [by(str(x)) if rng.random() < 0.7 else x for x in q])
            e.update(pairs=[list(p) for p in ps], ids=q, got=ids(got))
        elif op == "unique":
            w = rng.choice(["base", "name", "slicer", "label", "both"])
            f = dict(base=r.unique_metric_names, name=lambda *x: r.unique_metric_names(*x, baseonly=False), slicer=r.unique_slicer_names, label=r.unique_metric_info_label,
                     both=r.unique_metric_name_and_info_label)[w]
            e.update(what=w, got=[str(x) for x in f(*a)])
        elif op == "info":
            k = dict(with_data_link=rng.random() < 0.5, with_slicer_name=rng.random() < 0.5)
            kk = {x: y for x, y in k.items() if y != (x == "with_slicer_name") or rng.random() < 0.5}
            i, b = r.metric_info(one, **kk), r.metric_info(**kk)
            e.update(id=m["id"], link=k["with_data_link"], slicer=k["with_slicer_name"], keys=list(i), blank=list(b), name=str(i.get("Metric Name")), label=str(i.get("Info Label")),
                     slicername=str(i.get("Slicer", "")), file="", caption=str(r.caption_for_metric(one)))
            if "Data" in i:
                f, path = i["Data"]
                e["file"] = str(f) if strip(str(path)) == str(f) else "?" + str(path)
        elif op == "plots":
            ps = r.plots_for_metric(one)
            e.update(id=m["id"], got=pl(ps), dict=dic(r.plot_dict(ps)))
        elif op in ("sky", "grid"):
            ty = rng.choice([["SkyMap"], SKY, [rng.choice(types)]])
            sk = r.get_sky_maps(*a, **({} if ty == ["SkyMap"] and rng.random() < 0.5 else dict(plot_type=ty if len(ty) > 1 or rng.random() < 0.5 else ty[0])))
            e.update(types=ty)
            if op == "sky":
                e["got"] = pl(sk)
            else:
                e["got"] = [sorted((strip(f) for v in d.values() for f in v["plot_file"]), key=lambda f: [p["file"] for p in t["plots"]].index(f)) for d in r.order_plots(sk)]
        elif op == "statsof":
            row = rng.random() < 0.6
            q = [m["id"]] if row else some
            n = rng.choice(["", "", rng.choice(names)])
            arr = one if row else r.metrics[np.isin(r.metrics["metric_id"], q)]
            got = r.stats_for_metric(arr, *((n,) if n else ()))
            e.update(ids=q, stat=n, got=[dict(id=int(s["metric_id"]), name=str(s["summary_metric"]), val=tok(float(s["summary_value"]))) for s in got])
        elif op == "statdict":
            d = r.stat_dict(r.stats_for_metric(one))
            nn = r.all_stat_names(sub) if rng.random() < 0.5 else r.order_stat_names(r.stats_for_metric(sub))
            e.update(id=m["id"], got=[[str(k), tok(float(v))] for k, v in d.items()], names=[str(x) for x in nn])
        return e


# ---------------------------------------------------------------- served pages
class Page(html.parser.HTMLParser):
    """Pages as a flat list of tokens: (tag, attributes), text."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.toks = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.toks.append((tag, dict(attrs)))

    def handle_endtag(self, tag):
        self.toks.append(("/" + tag, {}))

    def handle_data(self, data):
        if data.strip():
            self.toks.append(("", " ".join(data.split())))


def cells(toks):
    """The rows of a table, as texts."""
    rows = []
    for t, a in toks:
        if t == "tr":
            rows.append([])
        elif t in ("td", "th"):
            if not rows:
                rows.append([])
            rows[-1].append("")
        elif t == "" and rows and rows[-1]:
            rows[-1][-1] = (rows[-1][-1] + " " + a).strip()
    return [r for r in rows if r]


def tables_of(toks):
    out, cur = [], None
    for k, (t, a) in enumerate(toks):
        if t == "table":
            cur = k
        elif t == "/table" and cur is not None:
            out.append(toks[cur:k])
            cur = None
    return out


def stat_tables(toks, db, key):
    """The statistics tables of a page: section and cells."""
    out = []
    val = lambda s: tok(float(s))
    for tb in tables_of(toks):
        rows = cells(tb)
        if not rows or not rows[0][0].startswith("Group:"):
            continue
        head = rows[0][0]
        g, rest = head[len("Group:"):].split("; Subgroup:")
        sg, sl = rest.split("; Slicer:")
        sec = [g.strip(), sg.strip(), sl.strip()]
        cs = []
        if rows[1][0] == "Metric Name":
            for r in rows[2:]:
                cs += [dict(name=r[0], label=r[1], stat=st, val=val(c)) for st, c in zip(rows[1][2:], r[2:]) if c != "--"]
        elif len(rows) > 2 and rows[2][0] == "" and len(rows[1]) == len(rows[2]):
            for r in rows[3:]:
                cs += [dict(name=n, label=la, stat=r[0], val=val(c)) for n, la, c in zip(rows[1][1:], rows[2][1:], r[1:]) if c != "--"]
        else:
            for r in rows[2:]:
                cs += [dict(name=n, label=r[0], stat="", val=val(c)) for n, c in zip(rows[1][1:], r[1:]) if c != "--"]
        out.append(dict(sec=sec, cells=cs))
    return out


class Server:
    def __init__(self, ctx, root):
        self.ctx, self.root = ctx, root
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
        env = dict(os.environ)
        self.log = open(root / "server.log", "wb")
        code = "import sys; from rubin_sim.maf.show_maf import show_maf; sys.argv[0] = 'show_maf'; show_maf()"
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code, "--no_browser", "-p", str(self.port)], cwd=root, env=env, stdout=self.log, stderr=self.log)

    def wait(self):
        for _ in range(240):
            try:
                urllib.request.urlopen(f"http://127.0.0.1:{self.port}/favicon.ico", timeout=5)
                return True
            except urllib.error.HTTPError:
                return True
            except OSError:
                if self.p.poll() is not None:
                    return False
                time.sleep(0.25)
        raise MachineryError("the server did not start: " + (self.root / "server.log").read_text()[-500:])

    def get(self, path, args=()):
        q = urllib.parse.urlencode(list(args))
        try:
            with urllib.request.urlopen(f"http://127.0.0.1:{self.port}/{path}?{q}", timeout=60) as f:
                return f.status, f.read()
        except urllib.error.HTTPError as x:
            return x.code, x.read()

    def close(self):
        self.p.kill()
        self.p.wait()
        self.log.close()


class Pages:
    def __init__(self, ctx, server, run, db, where):
        self.ctx, self.rng, self.s, self.run, self.db, self.where = ctx, ctx.rng, server, run, db, where
        self.ids = {}
        norm = lambda m: " ".join(f"{m['name']} {m['slicer']} {m['label']}".split())
        for m in db["metrics"]:
            self.ids.setdefault(norm(m), []).append(m["id"])
        self.unique = all(len(v) == 1 for v in self.ids.values())

    def fetch(self, page, args=()):
        code, body = self.s.get(page, [("runId", self.run), *args])
        self.ctx.count("page " + page)
        if code != 200:
            raise Broken(page, code)
        return Page(body.decode())

    def strip(self, f):
        return f[len(self.where) + 1:] if f and f.startswith(self.where + "/") else "?" + str(f)

    def sections(self, toks):
        """The metrics of a page: their information in bold, pictures, captions and values."""
        out, cur, k, pending, bold = [], None, 0, None, None
        rowcells = []
        intable = False
        for t, a in toks:
            if t == "b":
                bold = []
            elif t == "/b" and bold is not None:
                key = " ".join(" ".join(bold).split())
                if key in self.ids:
                    cur = dict(id=self.ids[key][0], plots=[], caption="", stats=[])
                    out.append(cur)
                elif not intable:
                    cur = dict(id=-1, plots=[], caption="", stats=[])
                    out.append(cur)
                bold = None
            elif t == "table":
                intable = True
            elif t == "/table":
                intable = False
            elif t == "" and bold is not None:
                bold.append(a)
            elif cur is not None:
                if t == "a" and "href" in a:
                    pending = a["href"]
                elif t == "img":
                    cur["plots"].append([self.strip(pending), self.strip(a.get("src"))])
                elif t == "p":
                    cur["_p"] = True
                elif t == "/p":
                    cur["_p"] = False
                    cur["_done"] = True
                elif t == "" and cur.get("_p") and not cur.get("_done"):
                    cur["caption"] += a
                elif t == "" and cur.get("_done") and intable:
                    cur.setdefault("_cells", []).append(a)
        for c in out:
            x = c.pop("_cells", [])
            if x and x[0].endswith(":") and x[0] != "Group:":
                c["stats"] = [[n[:-1], tok(float(v))] for n, v in zip(x[::2], x[1::2])]
            c.pop("_p", None), c.pop("_done", None)
        return out

    def events(self):
        rng, db = self.rng, self.db
        todo = [self.select, self.stats, self.sky]
        if self.unique:
            todo += [self.everything] + [self.results] * 4
        evs = []
        for f in todo:
            try:
                evs.append(f())
            except Broken as x:
                self.ctx.violation("served", f"page {x.args[0]} of a database gave status {x.args[1]}", dict(db=db, log=self.log()))
        return evs

    def log(self):
        return (self.s.root / "server.log").read_text()[-2500:]

    def select(self):
        p = self.fetch("metricSelect")
        groups = {}
        ids = []
        self.boxes = []
        for t, a in p.toks:
            if t == "input" and a.get("name") == "Group_subgroup":
                self.boxes.append(a["value"])
                g, sg = a["value"].split("__")
                groups.setdefault(g, []).append(sg)
            elif t == "input" and a.get("name") == "metric_id":
                ids.append(int(a["value"]))
        return dict(op="select-page", ids=ids, groups=[dict(g=g, sgs=s) for g, s in groups.items()])

    def results(self):
        rng = self.rng
        b = rng.sample(self.boxes, rng.randrange(0, min(3, len(self.boxes)) + 1))
        q = rng.sample([m["id"] for m in self.db["metrics"]], min(len(self.db["metrics"]), rng.randrange(0, 3)))
        p = self.fetch("metricResults", [("Group_subgroup", x) for x in b] + [("metric_id", x) for x in q])
        s = self.sections(p.toks)
        return dict(op="results", pairs=[x.split("__") for x in b], asked=q, ids=[x["id"] for x in s], plots=[x["plots"] for x in s], stats=[x["stats"] for x in s],
                    captions=[x["caption"] for x in s])

    def everything(self):
        p = self.fetch("allMetricResults")
        s = self.sections(p.toks)
        return dict(op="all-page", ids=[x["id"] for x in s], plots=[x["plots"] for x in s], captions=[x["caption"] for x in s], tables=stat_tables(p.toks, self.db, None))

    def stats(self):
        p = self.fetch("summaryStats")
        return dict(op="stats-page", tables=stat_tables(p.toks, self.db, None))

    def sky(self):
        p = self.fetch("multiColor")
        grids, others, sec, g, pending, last = [], [], None, None, None, None
        intable = False
        for k, (t, a) in enumerate(p.toks):
            if t == "b" and p.toks[k + 1][0] == "" and " : " in p.toks[k + 1][1] or (t == "b" and p.toks[k + 1][0] == "" and p.toks[k + 1][1].endswith(" :")):
                if not intable:
                    sec = [x.strip() for x in (p.toks[k + 1][1] + " ").split(" : ")]
            elif t == "a" and (a.get("href") or "").startswith("metricResults"):
                q = urllib.parse.parse_qs(a["href"].split("?")[1])
                g = dict(group=sec[0], subgroup=sec[1], name=p.toks[k + 1][1], places=[], linked=[int(x) for x in q["metric_id"]])
                grids.append(g)
            elif t == "table":
                intable = True
            elif t == "/table":
                intable = False
                g = None
            elif t == "td" and g is not None:
                g["places"].append("")
            elif t == "a" and "href" in a:
                pending = a["href"]
            elif t == "img":
                f = [self.strip(pending), self.strip(a.get("src"))]
                if g is not None:
                    g["places"][-1] = f[0] if f[1] == "thumb." + f[0].rsplit(".", 1)[0] + ".png" else "?thumb"
                else:
                    others.append(f)
        return dict(op="sky-page", grids=grids, others=others, tables=stat_tables(p.toks, self.db, None))


class Broken(Exception):
    pass


def serve(ctx, traces):
    """Pages of several runs, from one server."""
    from rubin_sim.maf.db import TrackingDb
    from rubin_sim.maf.web import MafTracking

    rng = ctx.rng
    root = ctx.subdir("served")
    web = Web(ctx)
    with quiet():
        t = TrackingDb(database=str(root / "trackingDb_sqlite.db"))
    runs = []
    n = ctx.pick(14, 60)

    def add(k):
        out = root / f"out{k}" if k == 0 or rng.random() < 0.7 else root / "deep" / f"out{k}"
        out.mkdir(parents=True)
        d = random_db(rng, rng.choice([1, 3, 8, 14]), served=True)
        if rng.random() < 0.2:
            for m in d["metrics"][1:]:
                if rng.random() < 0.5:
                    m.update(name=d["metrics"][0]["name"], slicer=d["metrics"][0]["slicer"], label=d["metrics"][0]["label"], con=str(rng.random()))
        e = web.store(d, out)
        for p in d["plots"]:
            (out / p["file"]).write_text(p["file"])
        f = dict(run_group=rng.choice(["fbs", "NULL"]), run_name=f"run {k % 9}", run_comment=rng.choice(["c", "it's"]), run_version=rng.choice(["v1", "NULL"]), run_date="2026-01-02",
                 maf_comment=rng.choice(["m", "n n"]), maf_version="2", maf_date="2026-03-04", db_file=rng.choice([str(out / "sim.db"), "sim.db"]))
        with quiet():
            i = int(t.add_run(maf_dir=str(out), **f))
        runs.append((i, e, out, f))

    for k in range(n - 1):
        add(k)
    s = Server(ctx, root)
    try:
        # data of one run, written by bundles
        st = Store(ctx)
        if not s.wait():
            ctx.violation("served", "the server ended when it was started", dict(log=(root / "server.log").read_text()[-2500:]))
            return
        for k, (i, e, out, f) in enumerate(runs):
            if k == n // 2:
                add(n - 1)  # while the server runs
                os.utime(root / "trackingDb_sqlite.db", (time.time() + 5, time.time() + 5))
            web.db = e["db"]
            evs = Pages(ctx, s, i, e["db"], os.path.relpath(out, root)).events()
            for m in [x for x in e["db"]["metrics"] if x["file"] == "NULL"][:1]:
                for ty in ("npz", "json"):
                    code, body = s.get("getData", [("runId", i), ("metric_id", m["id"]), ("datatype", ty)])
                    evs.append(dict(op="nodata", said=code == 200 and body.decode().startswith("No ") and "available" in body.decode()))
            for p in rng.sample(e["db"]["plots"], min(2, len(e["db"]["plots"]))):
                code, body = s.get(f"{os.path.relpath(out, root)}/{p['file']}")
                evs.append(dict(op="plotfile", same=code == 200 and body.decode() == p["file"]))
            traces.append([e] + evs)
        traces.append(data(ctx, s, st, t, root))
        traces.append([tracked(ctx, s, t, root, MafTracking)])
        traces.append(renewed(ctx, t, root, MafTracking))
    finally:
        s.close()
        t.close()


def data(ctx, s, st, t, root):
    from rubin_sim.maf.db import ResultsDb

    rng = ctx.rng
    out = root / "data"
    out.mkdir()
    import numpy.ma as ma

    evs = []
    with quiet():
        db = ResultsDb(out_dir=str(out))
        bs = []
        for k in range(ctx.pick(5, 20)):
            vs = st.visits(5)
            sl = st.setup(st.make(rng.choice([("HealpixSlicer", dict(nside=1, use_camera=False, verbose=False)), ("UniSlicer", {}),
                                              ("OneDSlicer", dict(slice_col_name="night", bins=[0, 1, 4, 7]))])), vs)
            n = int(sl.shape)
            b = st.bundle(sl, run="r", name=f"m{k}", label=rng.choice(["r", ""]), plot_dict={"units": "mag"})
            b.display_dict.update(group="g", subgroup="s")
            b.metric_values = ma.MaskedArray([rng.choice([0.5, 1 / 3, -7.0]) for _ in range(n)], mask=[rng.random() < 0.3 for _ in range(n)], fill_value=-666)
            b.write(out_dir=str(out), results_db=db)
            bs.append((b, json.loads(b.output_json().getvalue())))
        ids = {str(r["metric_name"]): int(r["metric_id"]) for r in db.get_metric_info()}
        files = {str(r["metric_name"]): str(r["metric_datafile"]) for r in db.get_metric_info()}
        db.close()
        run = int(t.add_run(maf_dir=str(out), run_name="data"))
    os.utime(root / "trackingDb_sqlite.db", (time.time() + 50, time.time() + 50))
    for b, js in bs:
        name = b.metric.name
        q = [("runId", run), ("metric_id", ids[name])]
        c1, npz = s.get("getData", q + ([("datatype", rng.choice(["npz", "NPZ"]))] if rng.random() < 0.6 else []))
        c2, j = s.get("getData", q + [("datatype", rng.choice(["json", "JSON"]))])
        ctx.count("data")
        try:
            same = json.loads(j) == js
        except ValueError:
            same = False
        evs.append(dict(op="data", npz=c1 == 200 and npz == (out / files[name]).read_bytes(), json=c2 == 200 and same))
    return evs


COLS = ["run_name", "run_group", "maf_comment", "run_comment", "run_version", "run_date", "maf_version", "maf_date"]


def renewed(ctx, t, root, MafTracking):
    """Runs added while the tracking object is in use."""
    evs = []
    f = root / "trackingDb_sqlite.db"
    home = os.getcwd()
    os.chdir(root)
    m = MafTracking(str(f))
    for k, step in enumerate([0.25, -3.0, 40.0]):
        was = os.stat(f).st_mtime
        with quiet():
            i = int(t.add_run(maf_dir=str(root / "out0"), run_name=f"later {k}", run_group="g", run_comment="c", run_version="v", run_date="d", maf_comment="m",
                              maf_version="2", maf_date="e", db_file="x.db"))
        os.utime(f, (was + step, was + step))
        try:
            ok = os.path.abspath(m.get_run(i).out_dir) == str(root / "out0")
        except Exception:
            ok = False
        evs.append(dict(op="renewed", ok=ok, shown=[str(x["run_name"]) for x in m.runs if int(x["maf_run_id"]) == i], name=f"later {k}"))
        ctx.count("renewed")
    os.chdir(home)
    return evs


def tracked(ctx, s, t, root, MafTracking):
    """The list of runs, by the tracking object and on its page."""
    con = sqlite3.connect(f"file:{root}/trackingDb_sqlite.db?mode=ro", uri=True)
    con.row_factory = sqlite3.Row
    given = [dict(id=str(r["maf_run_id"]), dir=r["maf_dir"], db=os.path.basename(r["db_file"] or "None"), **{c: str(r[c]) for c in COLS})
             for r in con.execute("select * from runs order by maf_run_id")]
    con.close()
    home = os.getcwd()
    os.chdir(root)
    try:
        m = MafTracking(*(() if ctx.rng.random() < 0.5 else (str(root / "trackingDb_sqlite.db"),)))
        got = []
        for r in m.runs:
            i = m.run_info(r)
            names = {"run_name": "Run Name", "run_group": "Group", "maf_comment": "Maf Comment", "run_comment": "Run Comment", "run_version": "sched_version",
                     "run_date": "sched_date", "maf_version": "maf_version", "maf_date": "maf_date"}
            g = dict(id=str(r["maf_run_id"]), dir=i["maf_dir"], db=i["RunDb File"][1], **{c: str(i[names[c]]) for c in COLS})
            one = m.get_run(ctx.rng.choice([int(r["maf_run_id"]), [str(int(r["maf_run_id"]))]]))
            if os.path.abspath(one.out_dir) != os.path.abspath(root / i["maf_dir"]) or i["ResultsDb"] != os.path.join(i["maf_dir"], "resultsDb_sqlite.db"):
                g["dir"] = f"?{one.out_dir} {i['ResultsDb']}"
            got.append(g)
    finally:
        os.chdir(home)
    code, body = s.get("")
    page = []
    if code == 200:
        p = Page(body.decode())
        tb = tables_of(p.toks)[0]
        rows, cur, links = [], None, []
        for k, (tg, a) in enumerate(tb):
            if tg == "tr":
                rows.append([])
                links.append([])
            elif tg == "td":
                rows[-1].append("")
            elif tg == "a":
                links[-1].append(a.get("href"))
            elif tg == "" and rows[-1]:
                rows[-1][-1] = a
        for r, l in zip(rows, links):
            if r:
                page.append(dict(id=l[0].split("runId=")[1], dir=r[6], db=r[4], run_name=r[0], run_group=r[1], maf_comment=r[2], run_comment=r[3], run_version=r[7], run_date=r[8],
                                 maf_version=r[9], maf_date=r[10]))
    return dict(op="runs", given=given, got=got, page=page)


def check_b07(ctx):
    rng = ctx.rng
    r = ctx.design("WebResultsMC", "N = 2", ["OneSection", "GridHolds", "TableHolds", "TypesHold"], workers=1)
    small = r.printed
    rng.shuffle(small)
    web = Web(ctx)
    traces = []
    for k in small[: ctx.pick(60, 600)]:
        e = web.store(spec_db(k), ctx.subdir("w"))
        traces.append([e] + web.methods(20))
    ctx.extra["spec_generated_behaviours"] = len(traces)
    for _ in range(ctx.pick(40, 500)):
        e = web.store(random_db(rng, rng.choice([1, 2, 4, 9, 15])), ctx.subdir("w"))
        traces.append([e] + web.methods(45))
    serve(ctx, traces)
    ctx.oracle("WebResultsTrace", traces, chunks=6, key=lambda b: f"{b['event']['op']}:{'+'.join(b['clauses'])}")
