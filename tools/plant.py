#!/opt/venv/bin/python
"""Author-time helper: validate planted bugs in a scratch copy and see which checks catch them.

plant.py SPEC.py [id ...]   make/validate the bugs of a spec file, run the check of their property
plant.py --sweep [id ...]   run the checks of the properties against kept bugs
"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
BASE = "f47824b"


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout,
                       env={**os.environ, **(env or {})})
    return p.returncode, p.stdout + p.stderr


def fresh(ident):
    d = Path(f"/tmp/plant/{ident}")
    shutil.rmtree(d, ignore_errors=True)
    d.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(d)], check=True)
    return d


def original_lines_changed(d):
    """Some changed line belongs to the original commit."""
    _, out = sh("git diff -U0", d)
    cur = None
    for line in out.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0:
                continue
            _, bl = sh(f"git blame -s -L {a},{a + n - 1} HEAD -- {cur}", d)
            if any(x.lstrip("^").startswith(BASE) for x in bl.splitlines()):
                return True
    return False


def demo(d, where):
    return sh(["bash", str(where / "demo.sh")], d, timeout=300)


def check(prop, d, tier="quick", seed="1"):
    run = Path(str(d) + ".verif")
    shutil.rmtree(run, ignore_errors=True)
    shutil.copytree(VERIF, run, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    (run / "evidence").mkdir()
    rc, out = sh([PY, "run.py", prop], run, {"VERIF_REPO": str(d), "VERIF_SEED": seed, "VERIF_TIER": tier})
    shutil.rmtree(run, ignore_errors=True)
    v = [x for x in out.splitlines() if x.strip().startswith("[") or "VIOLATION" in x]
    return rc, (v[0][:200] if v else out.strip().splitlines()[-1][:200])


def make(b):
    i = b["id"]
    d = fresh(i)
    try:
        for f, old, new in b["edits"]:
            p = d / "castep_outputs" / f
            s = p.read_text()
            if s.count(old) != 1:
                return i, f"BAD edit: {s.count(old)} matches in {f}"
            p.write_text(s.replace(old, new))
        out = VERIF / "seeded" / i
        tmp = Path(f"/tmp/plant/{i}.kept")
        shutil.rmtree(tmp, ignore_errors=True)
        tmp.mkdir()
        _, diff = sh("git diff", d)
        (tmp / "patch.diff").write_text(diff)
        (tmp / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        (tmp / "demo.py").write_text("import os\nimport sys\nsys.path.insert(0, os.getcwd())\n" + b["demo"].lstrip("\n"))
        (tmp / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        orig = original_lines_changed(d)
        rc, o = demo(Path("/repo"), tmp)
        if rc:
            return i, "BAD demo fails unpatched: " + o[-600:]
        rc, o = demo(d, tmp)
        if not rc:
            return i, "BAD demo passes patched"
        why = o.strip().splitlines()[-1][:120] if o.strip() else ""
        rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "test"], d)
        if rc:
            return i, "BAD tests: " + " | ".join(x for x in o.splitlines() if x.startswith("FAILED") or "passed" in x)[-400:]
        if orig:        # otherwise it would not count: run, not kept
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out)
        rc, v = check(b["property"], d)
        return i, f"{'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {b['property']} {v} {'' if orig else 'NOT KEPT: changes no original line'}  (demo: {why})"
    except Exception as e:  # noqa: BLE001
        return i, f"BAD {type(e).__name__} {e}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/plant/{i}.kept", ignore_errors=True)


def sweep(i, tier="quick", seed="1"):
    d = fresh("sweep-" + i)
    try:
        rc, o = sh(["git", "apply", str(VERIF / "seeded" / i / "patch.diff")], d)
        if rc:
            return i, "NO LONGER APPLIES " + o
        prop = json.loads((VERIF / "seeded" / i / "meta.json").read_text())["property"]
        rc, v = check(prop, d, tier, seed)
        return i, f"{'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc} {prop} {v}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex:
        if args[0] == "--sweep":
            ids = args[1:] or sorted(p.name for p in (VERIF / "seeded").iterdir())
            res = ex.map(lambda i: sweep(i, os.environ.get("TIER", "quick"), os.environ.get("SEED", "1")), ids)
        else:
            ns = {}
            exec(Path(args[0]).read_text(), ns)
            res = ex.map(make, [b for b in ns["BUGS"] if not args[1:] or b["id"] in args[1:]])
        for i, r in res:
            print(i, r, flush=True)
