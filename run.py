#!/opt/venv/bin/python
"""Entry point: run.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)."""
import faulthandler
import importlib
import logging
import os
import sys
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif-pycache"


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    # A hang can only be ended from outside: no verdict is drawn from it (exit 3).
    faulthandler.dump_traceback_later(870, exit=True)
    from lib import vf
    logging.basicConfig(level=logging.CRITICAL + 10, stream=sys.stderr)
    logging.disable(logging.CRITICAL)
    ctx = vf.Ctx(pid)
    try:
        vf.import_repo()
        mod = importlib.import_module(f"checks.{pid.lower()}")
        ctx.cov.start()
        mod.run(ctx)
    except Exception as err:
        traceback.print_exc()
        own = [f for f in traceback.extract_tb(err.__traceback__) if f.filename.startswith((ctx.cov.root, str(vf.VERIF) + "/"))]
        if own and own[-1].filename.startswith(ctx.cov.root):      # it rose from the code under test, on input meant to be read
            ctx.fail("raised outside a guarded call", f"{type(err).__name__}: {err}", traceback=traceback.format_exc()[-3000:])
        if not ctx.violations:
            print(f"CHECK-ERROR property={pid}")
            ctx.finish()
            return 3
    return ctx.finish()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
