"""Generates properties.jsonl and MANIFEST.json from one table."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=None,
         observe=None, claimed=True, technique=None, level="model_checking",
         note="", na=None):
    P.append(dict(
        pid=pid, title=title, statement=statement, over=over, text=text,
        why=why, files=["raster_tools/" + f for f in files], mech=mech,
        state=state or [], observe=observe or [], claimed=claimed,
        technique=technique, level=level, note=note, na=na,
    ))


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fd.write(json.dumps({
            "id": p["pid"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [
                    {"name": a, "meaning": b, "where": c}
                    for a, b, c in p["state"]
                ],
                "mechanism": [
                    {"name": a, "where": "raster_tools/" + b}
                    for a, b in p["mech"]
                ],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }) + "\n")

WHY = {
    "C03": "no check of its own: chunk layouts are enumerated operation by "
           "operation inside the other checks",
    "C04": "no scheduler to control dask's task order was built; the checks "
           "run the graphs in dask's synchronous order",
    "C31": "a harness was begun but is not sound enough to be registered",
    "C32": "the oracle would have to repeat GDAL's resampling kernels; not "
           "built",
}
checks, na = [], []
for p in P:
    mod = os.path.join(HERE, "mc", "checks", p["pid"].lower() + ".py")
    if p["na"] or not os.path.exists(mod):
        na.append({
            "property": p["pid"],
            "reason": p["na"] or WHY[p["pid"]],
        })
        continue
    checks.append({
        "property": p["pid"],
        "quick_cmd": f"./check {p['pid']} --tier quick",
        "thorough_cmd": f"./check {p['pid']} --tier thorough",
        "technique": p["technique"]
        or "explicit-state small-scope enumeration of the real code against "
           "a reference model",
        "level": p["level"],
        "level_note": p["note"],
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo; harnesses drive public APIs only.",
    }, fd, indent=1)
    fd.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
