"""tools/plant.py [ID...]: (re)write seeded/<ID>/ from the definitions in tools/bugs/*.py.

A definition is bug(id, property, [(file, old, new), ...], needs, breaks, demo, pg=False): the old text must occur
exactly once in /repo's file; demo is a Python program that exits nonzero (assert) when the property is broken."""
import difflib
import glob
import json
import os
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUGS = {}
SH = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8 USER=root LOGNAME=root TZ=UTC PGTZ=UTC
export RUBIN_SIM_DATA_DIR=/opt/vp/rubin_sim_data ASTROPY_CONFIG_DIR=/opt/vp/astropy_config
export PATH=/opt/vp/pgbin:$PATH PYTHONPATH=$PWD:$HERE
D=$(mktemp -d /tmp/demo.XXXXXX); chmod 711 "$D"
trap 'rm -rf "$D"' EXIT
mkdir -m 711 "$D/tmp"; export TMPDIR=$D/tmp
/opt/venv/bin/python -W ignore "$HERE/demo.py"
'''
PG = '''import logging
import os
import sys
import tempfile

import psycopg2
from rubin_sim.sim_archive import vseqarchive, vseqmetadata
from rubin_sim.sim_archive.tempdb import LocalOnlyPostgresql

logging.disable(logging.CRITICAL)


def database():
    base = tempfile.mkdtemp()
    os.chmod(base, 0o711)
    return LocalOnlyPostgresql(base_dir=base)


def archive(db, schema="test"):
    a = vseqmetadata.VisitSequenceArchiveMetadata(db.psycopg2_dsn(), schema)
    a.create_schema_in_database()
    return a


def admin(db):
    c = psycopg2.connect(**db.psycopg2_dsn())
    c.autocommit = True
    return c
'''


def bug(id, prop, edits, needs, breaks, demo, pg=False):
    assert id not in BUGS, id
    BUGS[id] = (prop, edits, needs, breaks, demo, pg)


def write(id):
    prop, edits, needs, breaks, demo, pg = BUGS[id]
    d = os.path.join(VERIF, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        files[f] = s.replace(old, new)
    out = ""
    for f, s in files.items():
        a = open("/repo/" + f).read().splitlines(True)
        out += "".join(difflib.unified_diff(a, s.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    if pg:
        open(d + "/pgdemo.py", "w").write(PG)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    for i in sys.argv[1:] or BUGS:
        write(i)
    print(len(sys.argv[1:] or BUGS), "written")
