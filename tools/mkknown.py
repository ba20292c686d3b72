#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects, repaired ("fixed") or recorded ("known").
Only 'known' entries have any effect on a check (harness/core.py, finish)."""
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
FIXED = [  # property, subject of the fix commit (prefix), what failed
    ("A04", "do not leak a pool connection on each insert", "every insert_nightly_stats call kept one of the five pool connections; the sixth failed"),
    ("A06", "make simulation night queries without tags", "sims_on_nights without tags (telescope only) sent invalid SQL (`telescope %s`)"),
    ("A01", "require conda_env_hash and conda_env_json", "recording a simulation with only one of conda_env_hash/conda_env_json failed obscurely after having been accepted"),
    ("A02", "name the file type in the duplicate file", "the duplicate registration error named no file type (missing f prefix)"),
    ("A01", "accept integer parent_last_day_obs", "record_simulation_metadata with an integer parent_last_day_obs failed in SQL"),
    ("A03", "record a visit sequence and its kind", "a failure while writing the kind-specific row left a partial sequence in the archive"),
    ("A03", "add all tags of one tag call atomically", "a failure at the second tag of one tag() call kept the first"),
    ("A05", "do not overwrite an archived file when its re-registration", "add_file(update=False) of an existing type replaced the stored bytes, then raised"),
    ("A05", "do not let archived files of different types", "two file types with the same file name shared one stored object"),
]
KNOWN = json.loads((V / "tools" / "known.json").read_text()) if (V / "tools" / "known.json").exists() else []
log = [x.split(" ", 1) for x in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True,
                                               text=True).stdout.splitlines()]
FIXED += [tuple(x) for x in json.loads((V / "tools" / "fixed.json").read_text())]
out = []
for n, (prop, subj, what) in enumerate(FIXED):
    hs = [h for h, s in log if s.startswith("fix: " + subj)]
    assert len(hs) == 1, (subj, hs)
    out.append(dict(id=f"F{n + 1:02d}", property=prop, status="fixed", commit=hs[0],
                    entry=f"fixed: property={prop} {hs[0]} {what}", what=what))
for k in KNOWN:
    out.append(dict(status="known", **k))
(V / "known_findings.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(out), "entries")
