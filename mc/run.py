"""Entry point: run.py <property-id> [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from mc.core import Ctx  # noqa: E402


def share_compiled_code(folder):
    """Let the forked workers share what numba compiles.

    Caching only saves compiling the same function in every worker: the
    folder is new in every run, so nothing stale can be picked up.
    """
    import numba

    numba.config.CACHE_DIR = folder
    plain = numba.jit

    def jit(*a, **k):
        k.setdefault("cache", True)
        return plain(*a, **k)

    numba.jit = jit


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    replay = None
    if a.replay:
        with open(a.replay) as fd:
            replay = json.load(fd)
    mod = importlib.import_module(f"mc.checks.{a.pid.lower()}")
    warnings.simplefilter("ignore")
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(a.pid, mod.LEVEL, tier, seed, replay)
    ctx.notes["rule"] = getattr(mod, "RULE", "")
    ctx.notes["bounds"] = getattr(mod, "BOUNDS", "")
    ctx.notes["assumptions"] = getattr(mod, "ASSUMPTIONS", [])
    cache = tempfile.mkdtemp(prefix="verif_numba_")
    try:
        if not os.environ.get("VERIF_NO_NUMBA_CACHE"):
            share_compiled_code(cache)
        mod.run(ctx)
        rc = ctx.finish()
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
