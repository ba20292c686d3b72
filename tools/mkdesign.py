"""Writes DESIGN.md."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
sys.path.insert(0, V)
from harness.registry import REGISTRY  # noqa: E402
from notes import NOT_APPLICABLE, NOTES, REACH  # noqa: E402

props = [json.loads(x) for x in open(V + "/properties.jsonl")]
known = json.load(open(V + "/known_findings.json"))
seeded = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    seeded[os.path.basename(os.path.dirname(f))] = json.load(open(f))
caught = json.load(open(V + "/tools/caught.json"))
out = [open(V + "/tools/design.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    if i in NOT_APPLICABLE:
        out += ["Not applicable: " + NOT_APPLICABLE[i] + ".", ""]
        continue
    mod, fn, _ = REGISTRY[i]
    src = open(f"{V}/harness/{mod}.py").read()
    body = src.split(f"def {fn}(")[1].split("\ndef ")[0]
    mods = sorted(set(re.findall(r'"([A-Z][A-Za-z]+(?:MC|Trace)?)"', src)) &
                  {os.path.basename(x)[:-4] for x in glob.glob(V + "/spec/*.tla")})
    mine = sorted(set(re.findall(r'"([A-Z][A-Za-z]+(?:MC|Trace)?)"', body)) & set(mods)) or mods
    tech, note = NOTES[i]
    out += [f"- Specification: {', '.join('`' + m + '`' for m in mine)}; harness `{mod}.{fn}`.",
            f"- Decided by: {tech}.", f"- Reaches beyond tests: {REACH[i]}", f"- Limits: {note.strip()}"]
    fx = [k for k in known if k["property"] == i]
    if fx:
        n = sum(k["status"] == "fixed" for k in fx)
        kn = [k for k in fx if k["status"] == "known"]
        out.append(f"- Findings: {n} defect(s) repaired (listed below)" + "".join(f"; recorded, not repaired: {k['id']} {k['what']}" for k in kn) + ".")
    sd = [s for s, m in seeded.items() if m["property"] == i]
    if sd:
        out.append("- Planted: " + ", ".join(sd) + ".")
    out.append("")
out += ["## Genuine defects found", "", "Each was shown on the unmodified code by the property's check, repaired in a `fix:` commit of its own, and the check",
        "reports it again if it returns (`known_findings.json`).", "", "| id | property | commit | what failed |", "|---|---|---|---|"]
for k in known:
    out.append(f"| {k['id']} | {k['property']} | {k.get('commit', 'recorded')} | {k['what'].replace('|', '/')} |")
out += ["", "## Planted bugs", "", "Each passes the stable tests; `caught` is the result of the property's quick check.", "",
        "| bug | property | needs | breaks | caught |", "|---|---|---|---|---|"]
for s, m in seeded.items():
    out.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(s, 'not run')} |")
out += ["", "Besides these, some hundred smaller changes (an off-by-one, a dropped condition, a wrong side of a bin edge, a wrong",
        "column, a stale cache key, ...) were applied one at a time to copies of the code and run through the property's quick check; the",
        "inputs were extended for each that was missed, unless it was judged to leave the behaviour as it was.", "",
        open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(props), "properties", len(seeded), "planted")
