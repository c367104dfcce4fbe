"""Shared machinery of the runtime monitors.

Every check is a function ``run(ctx)`` in ``checks/<id>.py``.  It executes the
*real* code of the repository on generated workloads and reports what an oracle
observed through ``ctx``.  This module supplies

* isolation: the package is imported from the repository's working tree, byte code
  caches are neither read nor written;
* observation: PEP 669 (``sys.monitoring``) line events say which lines of the
  package really ran while the oracle was looking (evidence only, never a verdict),
  and, where asked for, an executed-line budget (deterministic, unlike a clock);
* verdicts: strict structural comparison, replay files, known findings, evidence.
"""
from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from collections.abc import Mapping
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
#: How much more than written the quick tier does (where it is cheap for what it can still find).
SCALE = {"C01": 2, "C02": 4, "C03": 3, "C06": 2, "C10": 2, "C13": 2, "S01": 2, "S04": 3, "S06": 3, "S08": 3, "S12": 2, "S14": 3, "S16": 2}

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif-pycache"


def import_repo():
    """Import the package from the repository's working tree."""
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import castep_outputs
    got = Path(castep_outputs.__file__).resolve()
    if REPO not in got.parents:
        raise RuntimeError(f"imported {got}, not from {REPO}")
    return castep_outputs


# --------------------------------------------------------------------------
# strict comparison
# --------------------------------------------------------------------------
class Near(float):
    """An expected float that arithmetic on printed values leads to (compared to 1e-9)."""


def kind(x):
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, int):
        return "int"
    if isinstance(x, float):
        return "float"
    if isinstance(x, complex):
        return "complex"
    if isinstance(x, str):
        return "str"
    if x is None:
        return "None"
    if isinstance(x, Mapping):
        return "map"
    if isinstance(x, (list, tuple)):
        return "seq"
    if isinstance(x, (set, frozenset)):
        return "set"
    return type(x).__name__


def short(x, n=160):
    r = repr(x)
    return r if len(r) <= n else r[: n - 3] + "..."


def diff(exp, got, path=""):
    """First few differences between expected and observed, or [].

    lists and tuples are the same thing, so are dicts and defaultdicts; the types of
    leaves are compared exactly (1, 1.0, True and "1" all differ).
    """
    out = []
    _diff(exp, got, path, out)
    return out


def _diff(exp, got, path, out):
    if len(out) >= 6:
        return
    ke, kg = kind(exp), kind(got)
    if ke != kg:
        out.append(f"{path or '/'}: expected {ke} {short(exp)} got {kg} {short(got)}")
        return
    if ke == "map":
        for k in exp:
            if k not in got:
                out.append(f"{path}/{k!r}: missing (expected {short(exp[k])})")
        for k in got:
            if k not in exp:
                out.append(f"{path}/{k!r}: unexpected ({short(got[k])})")
        for k in exp:
            if k in got:
                # keys must agree in type as well (1 == True == 1.0)
                _diff(exp[k], got[k], f"{path}/{k!r}", out)
        ek = sorted(repr(k) for k in exp)
        gk = sorted(repr(k) for k in got)
        if not out and ek != gk:
            out.append(f"{path or '/'}: keys differ in type: {short(ek)} vs {short(gk)}")
    elif ke == "seq":
        if len(exp) != len(got):
            out.append(f"{path or '/'}: expected {len(exp)} items, got {len(got)}: "
                       f"{short(exp)} vs {short(got)}")
            return
        for i, (a, b) in enumerate(zip(exp, got)):
            _diff(a, b, f"{path}/{i}", out)
    elif ke == "float":
        if isinstance(exp, Near):
            if not abs(exp - got) <= 1e-9 * max(1.0, abs(exp)):
                out.append(f"{path or '/'}: expected about {float(exp)!r} got {got!r}")
        elif not (exp == got or (exp != exp and got != got)):
            out.append(f"{path or '/'}: expected {exp!r} got {got!r}")
    elif ke == "complex":
        if exp != got:
            out.append(f"{path or '/'}: expected {exp!r} got {got!r}")
    elif exp != got:
        out.append(f"{path or '/'}: expected {short(exp)} got {short(got)}")


def leaves(x, path=()):
    """All (path, leaf) pairs."""
    if isinstance(x, Mapping):
        for k, v in x.items():
            yield from leaves(v, (*path, k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, (*path, i))
    else:
        yield path, x


def plain(x):
    """Copy into plain dict/list form (shares nothing with x)."""
    if isinstance(x, Mapping):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


# --------------------------------------------------------------------------
# observation
# --------------------------------------------------------------------------
class Coverage:
    """Lines of the package executed while the check ran (PEP 669, near-zero cost)."""

    TOOL = 3

    def __init__(self):
        self.hit = set()
        self.root = str(REPO / "castep_outputs") + "/"

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif-cov")
        root, hit = self.root, self.hit

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(root):
                hit.add((fn[len(root):], line))
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def summary(self):
        per = {}
        for fn, _ in self.hit:
            per[fn] = per.get(fn, 0) + 1
        return dict(sorted(per.items()))


class StepBudget(Exception):
    """More package lines executed than the budget allows."""


class Steps:
    """Counts lines executed by, and calls made from, the package; raises StepBudget beyond a budget."""

    TOOL = 4

    def __init__(self):
        self.n = 0
        self.limit = None
        self.root = str(REPO / "castep_outputs") + "/"
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "verif-steps")

        def on_line(code, line):
            if not code.co_filename.startswith(self.root):
                return mon.DISABLE
            self.n += 1
            if self.limit is not None and self.n > self.limit:
                self.limit = None
                raise StepBudget(f"more than {self.n - 1} steps (lines executed and calls made)")
            return None

        def on_call(code, *_):
            return on_line(code, 0)

        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        mon.register_callback(self.TOOL, mon.events.CALL, on_call)
        mon.register_callback(self.TOOL, mon.events.PY_RESUME, on_call)

    def run(self, limit, func, *args, **kw):
        mon = sys.monitoring
        self.n, self.limit = 0, limit
        mon.set_events(self.TOOL, mon.events.LINE | mon.events.CALL | mon.events.PY_RESUME)
        try:
            return func(*args, **kw)
        finally:
            mon.set_events(self.TOOL, 0)
            self.limit = None


# --------------------------------------------------------------------------
# context of one check
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.monotonic()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.sample_kinds = set()
        self.counts = {}
        self.violations = []
        self.known_hit = {}
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.known = load_known(pid)
        self.known_any = {x["mechanism"] for x in load_known(None)}
        self.cov = Coverage()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))
        self.required = set()
        d = VERIF / "replays" / pid
        shutil.rmtree(d, ignore_errors=True)
        self.replay_dir = d

    # -- workload control
    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.pid, key)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def n(self, quick, thorough):
        if self.quick and type(quick) is int and quick >= 8:
            quick *= SCALE.get(self.pid, 1)
        return quick if self.quick else thorough

    def elapsed(self):
        return time.monotonic() - self.t0

    def time_left(self, quick=45.0, thorough=600.0):
        """Stop generating more work (never a verdict) once the slot is used up."""
        return self.elapsed() < (quick * SCALE.get(self.pid, 1) if self.quick else thorough)

    # -- observation
    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def need(self, *names):
        """Monitors that have to fire for the run to count as conclusive."""
        self.required.update(names)

    def case(self, key, kind_="", sample=None, nontrivial=True):
        """An oracle evaluated one case."""
        self.evaluations += 1
        if kind_:
            self.count(kind_)
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(key).encode()).digest()[:8])
        if sample is not None and kind_ not in self.sample_kinds and len(self.samples) < 12:
            self.sample_kinds.add(kind_)
            s = sample if isinstance(sample, (str, int, float)) else short(sample, 600)
            self.samples.append({"kind": kind_, "case": s[:900] if isinstance(s, str) else s})

    # -- verdicts
    def fail(self, mechanism, message, **replay):
        """A violation. ``mechanism`` is the stable name of what failed."""
        for kf in self.known:
            if kf["mechanism"] == mechanism:
                self.known_hit[mechanism] = kf["what"]
                return
        self.count("violating observations")
        if len(self.violations) >= int(os.environ.get("VERIF_MAXV", "8")) or any(v["mechanism"] == mechanism and i >= 2
                                            for i, v in enumerate(self.violations)):
            return
        self.replay_dir.mkdir(parents=True, exist_ok=True)
        path = self.replay_dir / f"{len(self.violations):02d}.json"
        rec = {"property": self.pid, "mechanism": mechanism, "message": message,
               "seed": self.seed, "tier": self.tier, **replay}
        path.write_text(json.dumps(rec, indent=1, default=repr))
        self.violations.append({"mechanism": mechanism, "message": message, "replay": str(path)})

    def expect(self, mechanism, exp, got, **replay):
        d = diff(exp, got)
        if d:
            self.fail(mechanism, "; ".join(d[:4]), differences=d, **replay)
            return False
        return True

    def call(self, mechanism, func, *args, replay=None, **kw):
        """Run repository code on valid input: an exception is a violation.

        Returns (ok, value).
        """
        try:
            return True, func(*args, **kw)
        except Exception as err:  # noqa: BLE001
            self.fail(mechanism, f"raised {type(err).__name__}: {err}",
                      traceback=traceback.format_exc()[-3000:], **(replay or {}))
            return False, None

    # -- end
    def finish(self):
        wall = time.monotonic() - self.t0
        missing = [k for k in sorted(self.required) if not self.counts.get(k)]
        cov = self.cov.summary()
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.distinct),
                "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "observed": dict(sorted(self.counts.items())),
                "package_lines_executed": sum(cov.values()),
                "package_lines_executed_per_file": cov,
                "exhaustive": False,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        for mech, what in sorted(self.known_hit.items()):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        if self.violations:
            for v in self.violations:
                print(f"  [{v['mechanism']}] {v['message'][:600]}")
                print(f"VIOLATION property={self.pid} replay={v['replay']}")
            return 1
        if missing:
            print(f"INCONCLUSIVE property={self.pid}: monitors never fired: {missing}")
            return 2
        print(f"OK property={self.pid} held on {self.evaluations} executions observed "
              f"({len(self.distinct)} distinct) tier={self.tier} seed={self.seed} "
              f"wall={wall:.1f}s")
        return 0


def load_known(pid):
    """Known findings: lines ``known: property=<id> mechanism=<m> <what>`` (pid None: all)."""
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: ") and (pid is None or f"property={pid} " in line):
                parts = line.split(None, 3)
                out.append({"mechanism": parts[2].split("=", 1)[1], "what": parts[3]})
    return out
