"""Writes DESIGN.md from tools/design_*.md, the checks and the tables."""
import ast
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COST = dict(zip(
    "C01 C02 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 "
    "C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C33".split(),
    (64, 54, 25, 80, 70, 180, 31, 67, 78, 83, 46, 104, 90, 75, 85, 38, 69,
     92, 100, 77, 93, 76, 58, 130, 22, 68, 34, 36, 20)))
EXTRA = {
    "C25": "The heap of the core is explored as a transition system: every "
           "sequence of operations against a dictionary.",
}


def rd(p):
    return open(os.path.join(HERE, p)).read()


def wrap(s):
    return textwrap.fill(" ".join(s.split()), 78)


out = [rd("tools/design_head.md").strip(), "", "## Properties", ""]
man = json.loads(rd("MANIFEST.json"))
claimed = {c["property"] for c in man["checks"]}
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line)
    if p["id"] not in claimed:
        continue
    c = {}
    for n in ast.parse(rd(f"mc/checks/{p['id'].lower()}.py")).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in (
            "RULE", "BOUNDS", "ASSUMPTIONS", "LEVEL"
        ):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out += [f"### {p['id']} {p['title']}", "", wrap(p["statement"]), ""]
    out += [wrap("*Enumerated and compared:* " + c.get("RULE", "") + ". "
                 + EXTRA.get(p["id"], "")), ""]
    if c.get("BOUNDS"):
        out += [wrap("*Bounds:* " + c["BOUNDS"] + "."), ""]
    if c.get("ASSUMPTIONS"):
        out += [wrap("*Taken as given:* " + "; ".join(c["ASSUMPTIONS"])
                     + "."), ""]
    out += [wrap("*Beyond the tests:* " + p["why_tests_cant"] + ". *Cost:* "
                 f"about {COST.get(p['id'], 60)} s on 8 cores (quick)."), ""]
find = []
for line in rd("known_findings.txt").splitlines():
    if line.startswith("fixed: property="):
        pid, rest = line[len("fixed: property="):].split(" ", 1)
        sha, what = rest.split(" ", 1)
        find.append((pid, f"- {pid} ({sha}): {what}"))
tail = rd("tools/design_tail.md")
tail = tail.replace("@FINDINGS@", "\n".join(
    textwrap.fill(t, 78, subsequent_indent="  ") for _, t in sorted(find)))
rows = []
for m in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {m.split('/')[-2]} | {d['needs']} | {d['property']} |")
tail = tail.replace("@BUGS@", "\n".join(rows))
with open(os.path.join(HERE, "DESIGN.md"), "w") as fd:
    fd.write("\n".join(out) + "\n" + tail)
