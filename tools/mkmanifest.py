#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and the notes below."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from harness.registry import REGISTRY  # noqa
from tools.notes import NOTES, NOT_APPLICABLE  # noqa

props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in REGISTRY:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           technique=tech, level=REGISTRY[i][2], level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check registered yet")))
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
    notes="Specifications (TLA+) in spec/, checked with TLC; harness/ binds them to /repo. See DESIGN.md."), indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
