"""Common machinery of the checks: scratch space, TLC runs, verdicts, evidence.

Every check follows the same scheme (see DESIGN.md):
  1. TLC explores the design specification (spec/<M>.tla with a .cfg) exhaustively;
  2. behaviours or inputs generated by TLC from that specification, and random ones made
     here from VERIF_SEED, are executed on the real code; what the code did is recorded;
  3. TLC evaluates every recorded event against the same specification (spec/<M>Trace.tla)
     and prints one line per rejected event, naming the clause that failed.
"""

import atexit
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVID = VERIF / "evidence"
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MARK = "@@"


class MachineryError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.printed = []
        self.error = None
        self.raw = ""
        self.actions = {}


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{prop}-{seed}")
        self.scratch = Path(tempfile.mkdtemp(prefix="vf.", dir="/tmp"))
        os.chmod(self.scratch, 0o711)
        (self.scratch / "tmp").mkdir(mode=0o711)
        os.environ["TMPDIR"] = str(self.scratch / "tmp")
        tempfile.tempdir = None
        self.closers = []
        atexit.register(self.cleanup)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.design_states = self.oracle_states = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.design_runs = []
        self.kinds = {}
        self.violations = []  # dicts: key, what, data
        self.assumptions = []
        self.extra = {}
        self._n = 0
        self._numbers = itertools.count(1)

    # ---------------------------------------------------------------- misc
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self):
        for c in reversed(self.closers):
            try:
                c()
            except Exception:
                pass
        self.closers = []
        shutil.rmtree(str(self.scratch), ignore_errors=True)

    def subdir(self, name="d"):
        self._n += 1
        d = self.scratch / f"{name}{self._n}"
        d.mkdir(mode=0o711)
        return d

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def count(self, kind, n=1):
        self.kinds[kind] = self.kinds.get(kind, 0) + n

    def violation(self, key, what, data=None):
        self.violations.append(dict(key=key, what=what, data=data))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=4, env=None, simulate=None, depth=None, timeout=600,
            heap="3g", fail_ok=False, coverage=False):
        """Run TLC on spec/<module>.tla with the configuration text `cfg`."""
        d = self.scratch / f"tlc{next(self._numbers)}"
        d.mkdir()
        cfgp = d / f"{module}.cfg"
        cfgp.write_text(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", TLC_CP]
        cmd += ["tlc2.TLC", "-metadir", str(d / "m"), "-noGenerateSpecTE", "-workers", str(workers)]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(self.seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += ["-config", str(cfgp), f"{module}.tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = p.stdout
        r = TLCResult()
        r.raw = out
        for line in out.splitlines():
            if line.startswith('"' + MARK):
                r.printed.append(json.loads(json.loads(line)[len(MARK):]))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r.depth = int(m[-1])
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and not r.states:
            r.states = int(m.group(1).replace(",", ""))
        for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M):
            r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(3))
        if p.returncode != 0 and not (simulate and "Error:" not in out):
            i = out.find("Error:")
            r.error = out[i if i >= 0 else max(0, len(out) - 3000):][:4000]
            if "java.lang.OutOfMemoryError" in out or "Parsing or semantic analysis failed" in out \
                    or "Could not find" in out or i < 0:
                raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n" + out[-4000:] + p.stderr[-2000:])
            if not fail_ok:
                raise MachineryError(f"TLC reports an error in the specification {module}:\n" + out[-6000:])
        shutil.rmtree(d, ignore_errors=True)
        return r

    def design(self, module, constants="", invariants=(), properties=(), init="Init", next_="Next",
               spec=None, workers=6, constraint=None, view=None, extra="", timeout=600, collect=False,
               simulate=None, depth=None):
        """Exhaustive (or simulated) exploration of a design specification; an error here is an
        error of the specification, i.e. of the machinery."""
        cfg = (f"SPECIFICATION {spec}\n" if spec else f"INIT {init}\nNEXT {next_}\n") + "CHECK_DEADLOCK FALSE\n"
        if constants:
            cfg += "CONSTANTS\n" + constants + "\n"
        if invariants:
            cfg += "INVARIANTS " + " ".join(invariants) + "\n"
        if properties:
            cfg += "PROPERTIES " + " ".join(properties) + "\n"
        if constraint:
            cfg += f"CONSTRAINT {constraint}\n"
        if view:
            cfg += f"VIEW {view}\n"
        cfg += extra
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, simulate=simulate, depth=depth)
        self.states += r.distinct or r.states
        if not simulate:
            r.printed.sort(key=lambda x: json.dumps(x, sort_keys=True))  # whatever the order of TLC's workers
        self.transitions += r.states
        self.design_states += r.distinct or r.states
        self.design_runs.append(dict(module=module, generated=r.states, distinct=r.distinct, depth=r.depth,
                                     invariants=list(invariants) + list(properties),
                                     mode="simulate" if simulate else "exhaustive"))
        return r

    def oracle(self, module, traces, constants="", chunks=4, label="trace", env=None, key=None, timeout=700):
        """Have TLC judge recorded executions.

        `traces` is a list of traces, each a list of JSON-able events. The first event of each
        trace must tell the specification to start afresh (the modules use op "reset" or judge each
        event on its own). Returns the list of rejections (dict trace, step, clauses, event)."""
        traces = [t for t in traces if t]
        if not traces:
            raise MachineryError(f"no executions recorded for {module}")
        total = sum(len(t) for t in traces)
        chunks = max(1, min(chunks, len(traces), total // 50 + 1))
        groups, cur, size = [], [], 0
        per = total / chunks
        for ti, t in enumerate(traces):
            cur.append((ti, t))
            size += len(t)
            if size >= per:
                groups.append(cur)
                cur, size = [], 0
        if cur:
            groups.append(cur)

        def one(group):
            lines, where = [], []
            for ti, t in group:
                for si, ev in enumerate(t):
                    lines.append(json.dumps(ev))
                    where.append((ti, si))
            f = self.scratch / f"{module}.{next(self._numbers)}.ndjson"
            f.write_text("\n".join(lines) + "\n")
            cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TDone\n"
            if constants:
                cfg += "CONSTANTS\n" + constants + "\n"
            ee = dict(env or {})
            ee["TRACE"] = str(f)
            r = self.tlc(module, cfg, workers=1, env=ee, fail_ok=True, timeout=timeout)
            bad = []
            for b in r.printed:
                if "bad" in b:
                    i = b["i"] - 1
                    bad.append(dict(trace=where[i][0], step=where[i][1], clauses=sorted(b["bad"]),
                                    want=b.get("want"), event=json.loads(lines[i])))
            if r.error is not None:
                n = max(0, (r.depth or r.distinct or 1) - 1)
                m = re.search(r"([\d,]+) distinct states found", r.raw)
                if m:
                    n = int(m.group(1).replace(",", "")) - 1
                n = min(n, len(where) - 1)
                if os.environ.get("VERIF_DEBUG"):
                    print(r.error[:3000])
                bad.append(dict(trace=where[n][0], step=where[n][1], clauses=["not-a-behaviour"],
                                event=json.loads(lines[n]), detail=r.error[:1500]))
            os.unlink(f)
            return r, bad

        with ThreadPoolExecutor(max_workers=len(groups)) as ex:
            rs = list(ex.map(one, groups))
        bad = []
        for r, b in rs:
            self.oracle_states += r.distinct
            self.states += r.distinct
            self.transitions += r.states
            bad += b
        self.traces += len(traces)
        self.events += total
        if traces:
            self.sample(dict(module=module, trace=traces[self.rng.randrange(len(traces))][:6]))
        for b in bad:
            b["history"] = traces[b["trace"]][: b["step"] + 1]
            k = key(b) if key else f"{b['event'].get('op', label)}:{'+'.join(b['clauses'])}"
            ev = {x: y for x, y in b["event"].items() if x not in ("obs",)}
            self.violation(k, f"{module}: clauses {b['clauses']} rejected on {json.dumps(ev)[:600]}"
                           + (f" -- specification expects {json.dumps(b['want'])[:300]}" if b.get("want") is not None else ""),
                           dict(module=module, clauses=b["clauses"], history=b["history"], want=b.get("want"),
                                detail=b.get("detail")))
        return bad

    # ---------------------------------------------------------------- background work
    def bg(self, fn, *a, **k):
        """Run `fn` (a TLC run) in the background; finish() waits for it."""
        if not hasattr(self, "_pool"):
            self._pool = ThreadPoolExecutor(max_workers=3)
            self._futures = []
        f = self._pool.submit(fn, *a, **k)
        self._futures.append(f)
        return f

    # ---------------------------------------------------------------- verdict
    def finish(self):
        for f in getattr(self, "_futures", []):
            f.result()
        known = []
        kf = VERIF / "known_findings.json"
        if kf.exists():
            known = [k for k in json.loads(kf.read_text()) if k["property"] == self.prop and k["status"] == "known"]
        new, seen = [], {}
        for v in self.violations:
            hit = [k for k in known if v["key"] == k["key"] or (k.get("regex") and re.fullmatch(k["regex"], v["key"]))]
            if hit:
                seen.setdefault(hit[0]["id"], 0)
                seen[hit[0]["id"]] += 1
            else:
                new.append(v)
        for k in known:
            if k["id"] in seen:
                print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        EVID.mkdir(exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples or [self.prop],
                   design_model_states=self.design_states, design_runs=self.design_runs, event_kinds=self.kinds,
                   evaluations=self.events, known_findings_seen=seen)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        replay = EVID / f"{self.prop}.replay.json"
        if new:
            byk = {}
            for v in new:
                byk.setdefault(v["key"], []).append(v)
            replay.write_text(json.dumps([vs[0] for vs in byk.values()][:20], indent=1, default=str))
            for k, vs in list(byk.items())[:12]:
                print(f"  {k} (x{len(vs)}): {vs[0]['what'][:700]}")
            print(f"VIOLATION property={self.prop} replay={replay.relative_to(VERIF)}")
            return 1
        if replay.exists():
            replay.unlink()
        print(f"OK property={self.prop} tier={self.tier} states={self.states} traces={self.traces} "
              f"events={self.events} wall={time.time() - self.t0:.1f}s")
        return 0


def tlaset(items):
    return "{" + ", ".join(json.dumps(x) if isinstance(x, str) else str(x) for x in items) + "}"
