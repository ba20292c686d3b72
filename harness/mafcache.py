"""Reuse of cached metric values: property M02 (specification MafCache)."""
import shutil
import warnings

import numpy as np

from . import mafgroup
from .mafgroup import K, define, observe, records, where, chosen

SL = {}


def custom():
    """A slicer whose slices are given as lists of visit identifiers."""
    if SL:
        return SL["cls"]
    from rubin_sim.maf.slicers import BaseSlicer

    class VfListSlicer(BaseSlicer):
        def __init__(self, lists, cache_size, order=None, kind=0):
            super().__init__(verbose=False, badval=-999)
            self.lists, self.cache_size, self.order, self.kind = lists, cache_size, order, kind
            self.nslice = self.shape = len(lists)
            self.slice_points["sid"] = np.arange(self.nslice)

        def setup_slicer(self, sim_data, maps=None):
            at = {int(v): k for k, v in enumerate(sim_data["id"])}

            def _slice_sim_data(i):
                idxs = [at[v] for v in self.lists[i] if v in at]
                if self.kind == 1:
                    idxs = np.array(idxs, int)
                if self.kind == 2:
                    idxs = idxs[::-1] if i % 2 else idxs
                return {"idxs": idxs, "slice_point": {"sid": i}}

            self._slice_sim_data = _slice_sim_data

        def __next__(self):
            if self.islice >= self.nslice:
                raise StopIteration
            k = self.islice
            self.islice += 1
            return self._slice_sim_data(self.order[k] if self.order else k)

        def __eq__(self, other):
            return isinstance(other, VfListSlicer) and self.lists == other.lists and self.cache_size == other.cache_size

    SL["cls"] = VfListSlicer
    return VfListSlicer


METRICS = ["sum", "count", "bad", "pair", "vec", "max", "median", "unique", "range"]


def check_m02(ctx):
    rng = ctx.rng
    define()
    maf = K["maf"]
    List = custom()
    r = ctx.design("MafCacheMC", 'NVisits = 2\nNSlices_ = 5\nSizes = {1, 2, 3}\nKey = "visits"', ["Same", "Bounded", "Recent"])
    patterns = list(r.printed)
    ctx.bg(ctx.design, "MafCacheMC", ctx.pick('NVisits = 3\nNSlices_ = 5\nSizes = {1, 2, 3}\nKey = "visits"', 'NVisits = 3\nNSlices_ = 6\nSizes = {1, 2, 3, 4}\nKey = "visits"'),
           ["Same", "Bounded", "Recent"], timeout=800)
    cfg = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS\nNVisits = 2\nNSlices_ = 3\nSizes = {2}\nKey = "count"\nINVARIANTS Same\n'
    if ctx.tlc("MafCacheMC", cfg, fail_ok=True).error is None:
        from .core import MachineryError
        raise MachineryError("remembering numbers of visits is not rejected")
    evs = []

    def values(slicers, metrics, cons, vs):
        """Values of every metric with each slicer under each constraint, in one group."""
        out = ctx.subdir("c")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                bl = [maf.MetricBundle(K["metrics"][m](col="x", metric_name=f"{m}{a}{b}"), s, where(c), run_name="run", info_label=f"{a}-{b}")
                      for a, s in enumerate(slicers) for m in metrics for b, c in enumerate(cons)]
                g = maf.MetricBundleGroup(bl, None, out_dir=str(out), results_db=None, save_early=False)
                for c in cons:
                    g.run_current(where(c), sim_data=records([v for v in vs if chosen(c, v)]))
                obs = [observe(b, m) for b, m in zip(bl, [m for s in slicers for m in metrics for c in cons])]
            return obs, ""
        except Exception as x:
            import traceback, os
            return None, f"{type(x).__name__}: {x}"[:200] + " at " + "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(x.__traceback__)[-3:])
        finally:
            shutil.rmtree(str(out), ignore_errors=True)

    def emit(kind, cached, plain, metrics, cons, vs, member):
        a, ea = values([cached], metrics, cons, vs)
        b, eb = values([plain], metrics, cons, vs)
        k = 0
        ctx.count(kind)
        for m in metrics:
            for j, c in enumerate(cons):
                evs.append([dict(kind=kind, metric=dict(kind=m, col="x"), vals=[v["x"] for v in vs], slices=member[j], error=ea or eb,
                                 cached=a[k] if a else [], uncached=b[k] if b else [], size=int(cached.cache_size))])
                k += 1

    def by_list(lists, size, nv):
        vs = mafgroup.visits(rng, nv)
        for k, v in enumerate(vs):
            v["id"] = k + 1
        cons = [dict(kind="all", n=0, s="")] + ([dict(kind="night", n=4, s="")] if rng.random() < 0.5 else [])
        cons = [c for c in cons if any(chosen(c, v) for v in vs)]
        order = rng.sample(range(len(lists)), len(lists)) if rng.random() < 0.4 else None
        kind = rng.randrange(3)
        metrics = rng.sample(METRICS, rng.randrange(1, 4))
        cached = List(lists, size, order, kind)
        member = [[[v for v in s if chosen(c, vs[v - 1])] for s in lists] for c in cons]
        emit("list", cached, List(lists, 0, order, kind), metrics, cons, vs, member)
        if rng.random() < 0.15:  # the same slicer again with other visits
            vs2 = mafgroup.visits(rng, nv)
            for k, v in enumerate(vs2):
                v["id"] = k + 1
            if all(any(chosen(c, v) for v in vs2) for c in cons):
                member = [[[v for v in s if chosen(c, vs2[v - 1])] for s in lists] for c in cons]
                emit("again", cached, List(lists, 0, order, kind), metrics, cons, vs2, member)

    rng.shuffle(patterns)
    for p in patterns[: ctx.pick(250, 3000)]:
        by_list([list(s) for s in p["slices"]], p["size"], 2)
    for _ in range(ctx.pick(350, 4000)):
        nv = rng.choice([3, 4, 6])
        pool = [rng.sample(range(1, nv + 1), rng.randrange(0, nv + 1)) for _ in range(rng.randrange(1, 6))]
        lists = [rng.choice(pool) if rng.random() < 0.9 else rng.sample(range(1, nv + 1), rng.randrange(0, nv + 1)) for _ in range(rng.randrange(1, 15))]
        if rng.random() < 0.3:  # the same visits in another order
            lists = [rng.sample(s, len(s)) for s in lists]
        by_list(lists, rng.choice([1, 1, 2, 3, 5, 20]), nv)

    # spatial slicers
    for _ in range(ctx.pick(40, 400)):
        nside = rng.choice([1, 2, 2, 4])
        nv = rng.randrange(1, 7)
        vs = mafgroup.visits(rng, nv)
        for k, v in enumerate(vs):
            v["fieldRA"], v["fieldDec"], v["id"] = rng.uniform(0, 360), rng.uniform(-80, 80), k + 1
        kw = dict(nside=nside, radius=rng.choice([20.0, 50.0, 80.0]), use_camera=False, verbose=False, badval=-999)
        if rng.random() < 0.5:
            npix = 12 * nside**2
            kw["hpid"] = np.array(rng.sample(range(npix), rng.randrange(1, npix + 1)))
            make = lambda cache: maf.HealpixSubsetSlicer(use_cache=cache, **kw)
            name = "subset"
        else:
            make = lambda cache: maf.HealpixSlicer(use_cache=cache, **kw)
            name = "healpix"
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref = make(False)
            ref.setup_slicer(records(vs))
            member = [[[] for _ in range(ref.nslice)]]
            for s in ref:
                member[0][int(s["slice_point"]["sid"])] = [int(k) + 1 for k in s["idxs"]]
            cached = make(True)
            if rng.random() < 0.5:
                cached.cache_size = rng.choice([1, 2, 3])
        emit(name, cached, make(False), rng.sample(METRICS, 2), [dict(kind="all", n=0, s="")], vs, member)
    ctx.oracle("MafCacheTrace", evs, chunks=6, key=lambda b: f"{b['event']['kind']}:{b['event']['metric']['kind']}:{'+'.join(b['clauses'])}")
