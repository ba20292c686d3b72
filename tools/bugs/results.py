R = "rubin_sim/maf/db/results_db.py"
T = "rubin_sim/maf/db/tracking_db.py"
G = "rubin_sim/maf/run_comparison/gather_summaries.py"
PRE = '''
import tempfile
import numpy as np
from rubin_sim.maf.db import ResultsDb
r = ResultsDb(out_dir=tempfile.mkdtemp())
'''
bug("B01-label-ignored", "B01",
    [(R, '''                run_name=run_name,
                metric_info_label=metric_info_label,
                sql_constraint=sql_constraint,
            )
            .all()''', '''                run_name=run_name,
                metric_info_label=metric_info_label or sql_constraint,
                sql_constraint=sql_constraint,
            )
            .all()''')],
    "a metric recorded repeatedly with an empty info label and a non-empty constraint",
    "the same metric gets a new identifier every time it is recorded",
    PRE + '''
i = [r.update_metric("m", "s", "run", "night < 10", "", "f.npz") for _ in range(2)]
assert i[0] == i[1]
''')
bug("B02-notlike-list", "B02",
    [(R, '''                for s in summary_name_notlike:
                    query = query.filter(~SummaryStatRow.summary_name.like(f"%{str(s)}%"))''', '''                for s in summary_name_notlike:
                    excluded = ~SummaryStatRow.summary_name.like(f"%{str(s)}%")
                query = query.filter(excluded)''')],
    "a query excluding several summary names at once",
    "only the last of several excluded names is left out",
    PRE + '''
m = r.update_metric("m", "s", "run", "", "", "f.npz")
for n in ("Mean", "Median", "Rms"):
    r.update_summary_stat(m, n, 1.0)
got = [str(x["summary_metric"]) for x in r.get_summary_stats(summary_name_notlike=["Mean", "Rms"])]
assert got == ["Median"], got
''')
bug("B04-deleted-id", "B04",
    [(T, '''            for run in prevrun:
                self.session.delete(run)
            runinfo = RunRow(
                maf_run_id=runIds[0],''', '''            for run in prevrun:
                self.session.delete(run)
            runinfo = RunRow(
                maf_run_id=max(runIds) if maf_run_id is None else maf_run_id,''')],
    "an already tracked directory added again with another identifier",
    "the run's identifier changes when its record is updated",
    '''
import os, tempfile
from rubin_sim.maf.db import TrackingDb
d = tempfile.mkdtemp()
t = TrackingDb(database=os.path.join(d, "t.db"))
i = t.add_run(run_name="a", maf_dir=os.path.join(d, "x"))
j = t.add_run(run_name="a", maf_dir=os.path.join(d, "x"), maf_run_id=77)
assert i == j
''')
bug("B05-first-value", "B05",
    [(G, 'all_summaries = pd.concat(all_summaries)', 'all_summaries = pd.concat(all_summaries).drop_duplicates(["run_name", "summary_names", "summary_value"])')],
    "a run and summary recorded three times, with the first value again as the last",
    "a value recorded again as the last one is dropped, so an outdated value wins",
    '''
import os, tempfile
from rubin_sim.maf.db import ResultsDb
from rubin_sim.maf.run_comparison.gather_summaries import combine_result_dbs
d = tempfile.mkdtemp()
for k, v in enumerate([1.0, 2.0, 1.0]):
    r = ResultsDb(out_dir=os.path.join(d, str(k)))
    m = r.update_metric("m", "s", "run", "", "lab", "f")
    r.update_summary_stat(m, "Mean", v)
f = combine_result_dbs([os.path.join(d, str(k)) for k in range(3)])
assert f.iloc[0, 0] == 1.0, f
''')
