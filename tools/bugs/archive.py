M = "rubin_sim/sim_archive/vseqmetadata.py"
V = "rubin_sim/sim_archive/vseqarchive.py"
PRE = '''
import pandas as pd
import numpy as np
from pgdemo import *
from datetime import date, datetime, timedelta, timezone
from astropy.time import Time

db = database()
a = archive(db)
vis = pd.DataFrame({"obs_start_mjd": [60000.2, 60000.7], "altitude": [50.0, 60.0], "azimuth": [1.0, 2.0]})
def sim(label="x", **k):
    return a.record_simulation_metadata(vis, label, **k)
'''
bug("A02-untag-case", "A02",
    [(M, 'sql.SQL("DELETE FROM {}.tags WHERE visitseq_uuid={} AND tag={}")', 'sql.SQL("DELETE FROM {}.tags WHERE visitseq_uuid={} AND tag ILIKE {}")')],
    "a sequence carrying two tags that match as case-insensitive patterns, one of them then removed",
    "removing a tag also removes other tags of the sequence that differ only in case (or match it as a pattern)",
    PRE + '''
u = sim()
a.tag(u, "Nominal", "nominal", "a_b", "axb")
a.untag(u, "nominal")
assert a.is_tagged(u, "Nominal")
a.untag(u, "a_b")
assert a.is_tagged(u, "axb")
''', pg=True)
bug("A04-putconn-late", "A04",
    [(M, '''            LOGGER.exception("Failed to execute query: %s", e)
            raise
        finally:
            # Make sure we always return the connection to
            # the pool.
            if connection:
                self.pg_pool.putconn(connection)
''', '''            LOGGER.exception("Failed to execute query: %s", e)
            raise

        # Return the connection to the pool.
        self.pg_pool.putconn(connection)
''')],
    "several refused operations on one archive object",
    "each refused statement leaks a pooled connection until the archive object can serve nothing",
    PRE + '''
u = sim()
for k in range(30):
    try:
        a.query("SELECT nonsense FROM nowhere")
    except psycopg2.Error:
        pass
assert not a.is_tagged(u, "x")
''', pg=True)
bug("A05-skip-existing", "A05",
    [(V, '''    LOGGER.debug(f"Writing {destination_rp}.")
    destination_rp.write(content)
''', '''    LOGGER.debug(f"Writing {destination_rp}.")
    # Interrupted uploads leave an incomplete file
    if not destination_rp.exists() or destination_rp.size() != len(content):
        destination_rp.write(content)
''')],
    "a file replaced (update=True) by another of exactly the same length",
    "the stored bytes no longer match the registered hash",
    PRE + '''
import hashlib, pathlib
u = sim()
base = tempfile.mkdtemp() + "/"
f = pathlib.Path(tempfile.mkdtemp()) / "f.txt"
f.write_bytes(b"one")
vseqarchive.add_file(a, u, f, "stats", base)
f.write_bytes(b"two")
rp = vseqarchive.add_file(a, u, f, "stats", base, update=True)
assert rp.read() == b"two"
assert hashlib.sha256(rp.read()).digest() == a.get_file_sha256(u, "stats")
''', pg=True)
bug("A06-untagged-range", "A06",
    [(M, "query_params = (first_day_obs, last_day_obs, telescope, max_simulation_age)", "query_params = (first_day_obs, first_day_obs, telescope, max_simulation_age)")],
    "a query without tags for a range of nights of which a simulation covers only the first",
    "simulations that do not reach the end of the requested range are returned when no tags are asked for",
    PRE + '''
u = sim(first_day_obs="2026-01-01", last_day_obs="2026-01-03")
assert len(a.sims_on_nights("2026-01-02", "2026-01-03", tags=())) == 1
assert len(a.sims_on_nights("2026-01-02", "2026-01-05", tags=())) == 0
''', pg=True)
bug("A07-rounded-night", "A07",
    [(V, 'times = pd.to_datetime(visits.loc[:, start_mjd_field] + 2400000, unit="D", origin="julian")', 'times = pd.to_datetime((visits.loc[:, start_mjd_field] + 2400000).round(3), unit="D", origin="julian")')],
    "a visit that starts within 43 seconds before the day of observation changes (noon UTC)",
    "a visit just before the rollover is counted in the next night",
    '''
import pandas as pd
from rubin_sim.sim_archive.vseqarchive import compute_nightly_stats
v = pd.DataFrame({"obs_start_mjd": [60000.4998, 60000.0], "altitude": [1.0, 2.0], "azimuth": [1.0, 2.0]})
s = compute_nightly_stats(v)
assert len(s) == 2, s
''')
bug("A09-hash-prefix", "A09",
    [(M, "file_sha256 = bytes.fromhex(hashlib.sha256(file_rp.read()).hexdigest())", "file_sha256 = bytes.fromhex(hashlib.sha256(file_rp.read(2**16)).hexdigest())")],
    "importing a simulation one of whose files is longer than 64 KiB",
    "the hash registered on import is that of the file's first 64 KiB",
    PRE + '''
import hashlib, pathlib, sqlite3, yaml
d = pathlib.Path(tempfile.mkdtemp())
c = sqlite3.connect(d / "o.db")
vis.to_sql("observations", c, index=False)
c.close()
(d / "big.txt").write_bytes(bytes(range(256)) * 400)
y = yaml.dump({"label": "x", "files": {"observations": {"url": "file://" + str(d / "o.db")}, "big": {"url": "file://" + str(d / "big.txt")}}})
u = a.import_sim_from_yaml(y)
assert a.get_file_sha256(u, "big") == hashlib.sha256((d / "big.txt").read_bytes()).digest()
''', pg=True)
bug("A01-sim-packages", "A01",
    [(M, "present_packages = [p for p in packages if p in sw_versions.index]\n            sw_versions = sw_versions.loc[present_packages, :]", "sw_versions = sw_versions.filter(regex=\"^(\" + \"|\".join(packages) + \")\", axis=0)")],
    "packages asked for whose names are prefixes of other installed packages' names",
    "packages that were not asked for are listed (and the order asked for is lost)",
    PRE + '''
import json
h = a.record_conda_env(b"1" * 32, json.dumps([{"name": n, "version": "1", "base_url": "", "build_number": 0, "build_string": "", "channel": "", "dist_name": n, "platform": ""} for n in ("rubin-sim", "rubin-sim-data", "numpy")]))
u = sim(conda_env_sha256=h)
got = list(a.get_software_versions_for_sim(u, ["rubin-sim"]).index)
assert got == ["rubin-sim"], got
''', pg=True)
