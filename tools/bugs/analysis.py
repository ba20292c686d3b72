G = "rubin_sim/maf/metric_bundles/metric_bundle_group.py"
bug("M01-first-and-last", "M01",
    [(G, "                    for comparison_metric_bundle_key in compatible_list[1:]:", "                    for comparison_metric_bundle_key in compatible_list[-1:]:")],
    "at least four bundles run together, the stacker of one in the middle of the set disagreeing with the new one's",
    "a bundle is run together with one that adds the same column differently, and gets the other's values",
    '''
import tempfile
import numpy as np
import rubin_sim.maf as maf

class Add(maf.BaseStacker):
    cols_added = ["extra"]
    def __init__(self, by=1.0):
        self.by = by
        self.cols_req = ["x"]
        self.units = ""
    def _run(self, sim_data, cols_present=False):
        sim_data["extra"] = sim_data["x"] + self.by
        return sim_data

data = np.zeros(3, dtype=[("x", float), ("night", int)])
data["x"] = [1.0, 2.0, 3.0]
mk = lambda m, s: maf.MetricBundle(m, maf.UniSlicer(), "", stacker_list=s, run_name="r")
bd = {"a": mk(maf.MeanMetric("x"), []), "b": mk(maf.MeanMetric("extra", metric_name="b"), [Add(1.0)]),
      "c": mk(maf.CountMetric("x"), []), "d": mk(maf.MeanMetric("extra", metric_name="d"), [Add(5.0)])}
g = maf.MetricBundleGroup(bd, None, out_dir=tempfile.mkdtemp(), save_early=False, results_db=maf.ResultsDb(out_dir=tempfile.mkdtemp()))
import io, contextlib
g.run_current("", sim_data=data)
assert bd["b"].metric_values[0] == 3.0, bd["b"].metric_values
assert bd["d"].metric_values[0] == 7.0, bd["d"].metric_values
''')
bug("M02-cache-key", "M02",
    [(G, '                    cache_key = frozenset(slice_i["idxs"])', '                    cache_key = (len(slice_i["idxs"]), int(np.sum(slice_i["idxs"])))')],
    "two slice points with different visits, equally many and with the same sum of positions in the table",
    "the second slice point gets the metric value of the first",
    '''
import tempfile
import numpy as np
import rubin_sim.maf as maf

data = np.zeros(4, dtype=[("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float), ("x", float), ("night", int)])
data["fieldRA"] = [10, 50, 50, 10]
data["x"] = [1.0, 2.0, 3.0, 10.0]
s = maf.UserPointsSlicer(ra=[10.0, 50.0], dec=[0.0, 0.0], use_camera=False)
s.cache_size = 5
b = maf.MetricBundle(maf.MeanMetric("x"), s, "", run_name="r", maps_list=[])
g = maf.MetricBundleGroup({"b": b}, None, out_dir=tempfile.mkdtemp(), save_early=False, results_db=maf.ResultsDb(out_dir=tempfile.mkdtemp()))
g.run_current("", sim_data=data)
assert list(b.metric_values) == [5.5, 2.5], b.metric_values
''')
bug("T06-season-span", "T06",
    [("rubin_sim/maf/metrics/season_metrics.py", "        count = len(np.unique(int_seasons))", "        count = int(int_seasons.max() - int_seasons.min()) + 1")],
    "a point that is not observed in one of the seasons in between",
    "a season without any visit is counted",
    '''
import numpy as np
import rubin_sim.maf as maf
from rubin_scheduler.utils import calc_season

d = np.zeros(3, dtype=[("observationStartMJD", float), ("visitExposureTime", float)])
d["observationStartMJD"] = 60000 + np.array([0.0, 730.5, 731.5])
d["visitExposureTime"] = 30.0
got = maf.CampaignLengthMetric().run(d, {"ra": 0.0, "dec": 0.0})
seen = {int(np.floor(s)) for s in calc_season(0.0, d["observationStartMJD"])}
assert len(seen) == 2 and got == 2, (seen, got)
''')
bug("C02-column-order", "C02",
    [("rubin_sim/moving_objects/cheby_values.py", 'self.coeffs[k][i] = coeffs["%s_%d" % (k, i)].values', 'self.coeffs[k][i] = coeffs[sorted(cols[k])[i]].values')],
    "more than ten coefficients for a quantity",
    "the eleventh and later coefficients are used in the place of the third",
    '''
import tempfile
import numpy as np
from rubin_sim.moving_objects import ChebyValues

n = dict(ra=12, dec=12, geo_dist=2, vmag=2, elongation=2)
cols = ["obj_id", "t_start", "t_end"] + [f"{k}_{i}" for k, m in n.items() for i in range(m)]
row = ["1", "0.0", "2.0"] + [repr(100.0 * (k == "dec") + i) for k, m in n.items() for i in range(m)]
f = tempfile.mkdtemp() + "/c.txt"
open(f, "w").write(" ".join(cols) + chr(10) + " ".join(row) + chr(10))
c = ChebyValues()
c.read_coefficients(f)
assert list(c.coeffs["ra"][0]) == [float(i) for i in range(12)], c.coeffs["ra"]
''')
bug("B07-run-by-name", "B07",
    [("rubin_sim/maf/web/maf_tracking.py", '''        self.runs_page[maf_run_id] = MafRunResults(maf_dir, run_name)
        return self.runs_page[maf_run_id]''', '''        # (different analyses of the same simulation are kept apart by the comment).
        known = [page for page in self.runs_page.values() if page.run_name == run_name]
        self.runs_page[maf_run_id] = known[0] if known else MafRunResults(maf_dir, run_name)
        return self.runs_page[maf_run_id]''')],
    "two tracked analyses of the same simulation, one shown after the other",
    "the pages of the second analysis show the results of the first",
    '''
import os, tempfile
from rubin_sim.maf.db import ResultsDb, TrackingDb
from rubin_sim.maf.web import MafTracking

d = tempfile.mkdtemp()
os.chdir(d)
t = TrackingDb(database=os.path.join(d, "trackingDb_sqlite.db"))
ids = []
for k in "ab":
    os.mkdir(k)
    r = ResultsDb(out_dir=os.path.join(d, k))
    r.update_metric("metric " + k, "UniSlicer", "same", "", "", "f.npz")
    r.close()
    ids.append(int(t.add_run(run_name="same", maf_dir=os.path.join(d, k), maf_comment=k)))
t.close()
m = MafTracking(os.path.join(d, "trackingDb_sqlite.db"))
for k, i in zip("ab", ids):
    got = os.path.abspath(m.get_run(i).out_dir)
    assert got == os.path.join(d, k), (k, got)
''')
bug("B06-mean-baseline", "B06",
    [("rubin_sim/maf/run_comparison/summary_plots.py", 'summary.loc[baseline_run].median(axis="rows")', 'summary.loc[baseline_run].mean(axis="rows")')],
    "three or more baseline runs whose values are skewed",
    "the values are normalized by the mean of the baseline runs",
    '''
import pandas as pd
from rubin_sim.maf.run_comparison import normalize_metric_summaries

s = pd.DataFrame({"m": [1.0, 2.0, 9.0, 4.0]}, index=["a", "b", "c", "d"])
s.columns.name, s.index.name = "metric", "run"
sub = pd.DataFrame({"metric": ["m"], "invert": [False], "mag": [False], "short_name": ["m"], "style": ["-"], "color": ["k"]}, index=pd.MultiIndex.from_tuples([("x", "m")], names=["metric set", "metric"]))
n = normalize_metric_summaries(["a", "b", "c"], s, sub)
v = float(n.loc["d"].iloc[0]) if "d" in n.index else float(n["d"].iloc[0])
assert v == 2.0, n
''')
bug("S01-two-passes", "S01",
    [("rubin_sim/selfcal/solver.py", "        while n_start != n_end:", "        # (patches emptied by removing stars, and the stars they leave alone)\n        for _ in range(3):")],
    "a long chain of stars and patches in which removing one leaves the next alone",
    "stars seen only once and patches with one star remain and are given values",
    '''
import numpy as np
from rubin_sim.selfcal.solver import LsqrSolver

rows = [(0, 0), (1, 0), (0, 1), (1, 1)]
# a chain: each star joins two patches, the last patch has one star
rows += [(2 + k, 1 + k + (k > 0) * 0) for k in range(9)] + [(2 + k, 2 + k) for k in range(9)]
o = np.zeros(len(rows), dtype=[("id", int), ("patch_id", int), ("observed_mag", float), ("mag_uncert", float)])
o["id"], o["patch_id"] = zip(*rows)
o["observed_mag"], o["mag_uncert"] = 20.0, 0.1
s = LsqrSolver(o)
s.clean_data()
left = s.observations
for f in ("id", "patch_id"):
    _, n = np.unique(left[f], return_counts=True)
    assert n.size and n.min() > 1, (f, left)
''')
