"""Regenerates /verif/seeded/<id>/ from the definitions in tools/bugs/*.py.

usage: mkbugs.py [ID...]      (patches are made against /repo's HEAD)
"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after the build
. /opt/vp/env.sh
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" -W ignore "$(dirname "$0")/demo.py"
"""
PRELUDE = """import numpy as np
import dask
import dask.array as da
import raster_tools as rts
from raster_tools.raster import data_to_raster

dask.config.set(scheduler="synchronous")


def rast(a, mask=None, nv=None, chunks=None, res=10.0, x0=105.0, y0=995.0):
    a = np.asarray(a)
    if a.ndim == 2:
        a = a[None]
    x = x0 + np.arange(a.shape[2]) * res
    y = y0 - np.arange(a.shape[1]) * res
    ch = (1,) + tuple(chunks) if chunks else (1, -1, -1)
    d = da.from_array(a, chunks=ch, name=False)
    if mask is not None:
        mask = np.broadcast_to(np.asarray(mask, bool), a.shape)
        mask = da.from_array(mask.copy(), chunks=d.chunks, name=False)
    return data_to_raster(
        d, mask=mask, x=x, y=y, crs="EPSG:5070", nv=nv, burn=mask is not None
    )


"""


def load():
    bugs = {}

    def bug(bid, prop, edits, demo, needs, breaks):
        assert bid not in bugs
        bugs[bid] = (prop, edits, demo, needs, breaks)

    for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    return bugs


def make(bid, prop, edits, demo, needs, breaks):
    d = os.path.join(OUT, bid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="mkbug_")
    try:
        diffs = ""
        files = {}
        for path, old, new in edits:
            if path not in files:
                files[path] = [
                    subprocess.run(
                        ["git", "-C", "/repo", "show", f"HEAD:{path}"],
                        check=True, capture_output=True, text=True,
                    ).stdout,
                ] * 2
            cur = files[path][1]
            assert cur.count(old) == 1, (bid, path, cur.count(old), old)
            files[path] = [files[path][0], cur.replace(old, new)]
        for path, (a, b) in files.items():
            for side, txt in (("a", a), ("b", b)):
                p = os.path.join(tmp, side, path)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as fd:
                    fd.write(txt)
            out = subprocess.run(
                ["diff", "-u", "a/" + path, "b/" + path], cwd=tmp,
                capture_output=True, text=True,
            ).stdout
            lines = out.splitlines(True)
            lines[0] = f"--- a/{path}\n"
            lines[1] = f"+++ b/{path}\n"
            diffs += "".join(lines)
    finally:
        shutil.rmtree(tmp)
    with open(d + "/patch.diff", "w") as fd:
        fd.write(diffs)
    with open(d + "/demo.sh", "w") as fd:
        fd.write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/demo.py", "w") as fd:
        fd.write(PRELUDE + demo.strip() + "\n")
    with open(d + "/meta.json", "w") as fd:
        json.dump(
            {"property": prop, "needs": needs, "what_it_breaks": breaks}, fd,
            indent=1,
        )
        fd.write("\n")


if __name__ == "__main__":
    bugs = load()
    for b in sys.argv[1:] or bugs:
        make(b, *bugs[b])
    print(len(sys.argv[1:] or bugs), "made")
