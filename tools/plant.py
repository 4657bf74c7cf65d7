"""Confirm planted bugs in scratch copies.

usage: plant.py [--tests] [--check] ID...

For each /verif/seeded/ID: copies /repo, checks that demo.sh passes, applies
patch.diff, checks that demo.sh fails, and optionally runs the stable tests and
the check of the property (with VERIF_REPO pointing at the copy).
"""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = "/verif/seeded"


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(
        cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True,
        timeout=timeout,
    )


def one(bug, tests, check):
    src = f"{ROOT}/{bug}"
    work = f"/tmp/plant_{bug}"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work + "/repo", symlinks=True)
    demo = work + "/demo"
    os.makedirs(demo)
    for f in os.listdir(src):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(f"{src}/{f}", demo)
    repo = work + "/repo"
    res = {}
    try:
        p = run(f"bash {demo}/demo.sh", repo, timeout=300)
        res["demo_clean"] = p.returncode
        if p.returncode:
            print(p.stdout[-1500:], p.stderr[-1500:])
        p = run(f"git apply {src}/patch.diff", repo)
        res["apply"] = p.returncode
        if p.returncode:
            print(p.stderr)
            return res
        p = run(f"bash {demo}/demo.sh", repo, timeout=300)
        res["demo_bug"] = p.returncode
        pid = json.load(open(f"{src}/meta.json"))["property"]
        if check:
            t = time.time()
            p = run(f"/verif/check {pid}", "/verif", {"VERIF_REPO": repo})
            res["check"] = p.returncode
            keys = [x.strip() for x in p.stdout.splitlines() if "violation key" in x]
            res["keys"] = keys[:3]
            res["t"] = round(time.time() - t)
            if p.returncode not in (0, 1):
                print(p.stdout[-1500:], p.stderr[-1500:])
        if tests:
            p = run(
                f". /opt/vp/env.sh; PYTHONPATH={repo} $PY -m pytest -q -p "
                "no:cacheprovider -n 8 --dist worksteal --timeout=300 "
                "--continue-on-collection-errors --disable-warnings "
                f"--basetemp={work}/tmp -o junit_family=xunit2 "
                f"--junitxml={work}/junit.xml; "
                f"/usr/bin/python3 /opt/vp/results.py {work}/out.json "
                f"junit:{work}/junit.xml", repo)
            out = json.load(open(f"{work}/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(map(str, out["passed"]))
            lost = [t for t in map(str, base["stable"]) if t not in passed]
            res["tests_lost"] = lost[:5]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    tests, check = "--tests" in args, "--check" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(ROOT))
    for b in ids:
        print(b, one(b, tests, check), flush=True)
