bug("A08-any-tag", "A08",
    [("rubin_sim/sim_archive/prenightindex.py", 'if not set(tags).issubset(sim["tags"]):', 'if not set(tags).intersection(sim["tags"]):')],
    "several tags asked for, and a newer simulation that carries only some of them",
    "a simulation without all the required tags is selected",
    '''
import pandas as pd
from rubin_sim.sim_archive.prenightindex import select_latest_prenight_sim

now = pd.Timestamp.now(tz="UTC")
p = pd.DataFrame(dict(visitseq_uuid=["a", "b"], visitseq_url=["a", "b"], tags=[["ideal", "nominal"], ["nominal", "wind"]],
                      creation_time=[now - pd.Timedelta(hours=20), now - pd.Timedelta(hours=2)])).set_index("visitseq_uuid")
got = select_latest_prenight_sim(p, ("ideal", "nominal"))
assert got is not None and got["visitseq_url"] == "a", got
assert select_latest_prenight_sim(p, ("ideal", "wind")) is None
''')
bug("A12-negative-slew", "A12",
    [("rubin_sim/sim_archive/prenight.py", "            if (slewtime + slew_overhead_offset) < 0:\n                slew_overhead_offset = -1 * slewtime", "            if (slewtime + slew_overhead_offset) < -slewtime:\n                slew_overhead_offset = -1 * slewtime")],
    "a strongly scattered slew that comes out more than once but less than twice its length shorter",
    "the simulated slew takes a negative time",
    '''
from rubin_sim.sim_archive.prenight import AnomalousOverheadFunc

f = AnomalousOverheadFunc(seed=3, slew_scale=1.0, scatter_kwargs={"scale": 0.0})
got = [f(1000.0, 100.0) for _ in range(3000)]
assert min(got) >= -100.0 - 1e-6, min(got)
''')
bug("A10-highest-name", "A10",
    [("rubin_sim/sim_archive/prototype.py", "    new_id = max(found_ids) + 1 if len(found_ids) > 0 else 1\n", "    new_id = int(max(str(found_id) for found_id in found_ids)) + 1 if len(found_ids) > 0 else 1\n")],
    "more than ten simulations archived on one date",
    "the eleventh and later simulations of a date overwrite the tenth",
    '''
import tempfile, os, warnings, datetime
from pathlib import Path
from rubin_sim.sim_archive import prototype

warnings.simplefilter("ignore")
src, arc = Path(tempfile.mkdtemp()), Path(tempfile.mkdtemp())
(src / "x.txt").write_text("x")
(src / "sim_metadata.yaml").write_text("files: {a: {name: x.txt}}" + chr(10))
seen = [prototype.transfer_archive_dir(str(src), arc.as_uri()).ospath for _ in range(13)]
assert len(set(seen)) == 13, seen
''')
