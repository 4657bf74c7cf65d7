"""Exploration engine shared by every check.

A check is a module ``mc/checks/<id>.py`` with

    TITLE, LEVEL, TECHNIQUE (strings) and  ``run(ctx)``

``run`` declares finite, deterministic lists of cases and hands each list to
``ctx.explore(group, cases, fn)``.  Every case is executed against the real
code in /repo (never sampled); ``fn(rec, case)`` compares what the code does
with a reference model and reports through ``rec``:

    rec.state(canonical)        a model state / input configuration was reached
    rec.trans(n)                transitions: operations applied to real code
    rec.trace(n)                complete executions compared with the model
    rec.outcome(x)              distinct observed outcomes (vacuity indicator)
    rec.bad(key, message, ...)  the property is violated

Cases are distributed over forked workers.  The engine owns timeouts, crash
detection, replay files, the known-findings file and the evidence file.
"""

import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(
    8, len(os.sched_getaffinity(0))
)
# A single case takes well below 10 s on the unchanged tree. A case without
# any progress for this long is reported as non-terminating.
STALL_S = float(os.environ.get("VERIF_STALL_S", "240"))
MAX_KEYS = int(os.environ.get("VERIF_MAX_KEYS", "12"))


def h64(obj):
    if not isinstance(obj, (bytes, str)):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


class Recorder:
    """Per-worker accumulation of what was explored."""

    def __init__(self, group):
        self.group = group
        self.states = set()
        self.outcomes = set()
        self.n_trans = 0
        self.n_trace = 0
        self.n_cases = 0
        self.violations = {}
        self.n_viol = 0
        self.samples = []
        self.skips = {}
        self.case = None

    def state(self, *canon):
        self.states.add(h64(canon[0] if len(canon) == 1 else canon))

    def trans(self, n=1):
        self.n_trans += n

    def trace(self, n=1):
        self.n_trace += n

    def outcome(self, *x):
        self.outcomes.add(h64(x))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def skip(self, why):
        self.skips[why] = self.skips.get(why, 0) + 1

    def bad(self, key, message, detail=None):
        self.n_viol += 1
        key = f"{self.group}|{key}"
        if key not in self.violations and len(self.violations) < 400:
            self.violations[key] = {
                "key": key,
                "group": self.group,
                "message": str(message)[:4000],
                "detail": repr(detail)[:4000] if detail is not None else None,
                "case": self.case,
            }

    def pack(self):
        d = dict(self.__dict__)
        d.pop("case")
        return d


class Ctx:
    def __init__(self, pid, level, tier, seed, replay=None):
        self.pid = pid
        self.level = level
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.replay = replay
        self.t0 = time.time()
        self.budget = float(
            os.environ.get(
                "VERIF_BUDGET_S", "21600" if self.thorough else "660"
            )
        )
        self.groups = {}
        self.violations = {}
        self.n_viol = 0
        self.capped = False
        self.notes = {}
        self.only = os.environ.get("VERIF_GROUP")
        self.pending = []
        self.joined = False

    # -- exploration --------------------------------------------------------
    def explore(self, group, cases, fn, nproc=None, stall=None, affinity=None):
        """Run ``fn(rec, case)`` for every case, on forked workers.

        Cases with equal ``affinity(case)`` run on the same worker, which
        then compiles what they share only once; inside ``with joint()``
        this holds across groups.
        """
        if self.replay is not None:
            if self.replay["group"] != group:
                return
            want = self.replay["case_repr"]
            cases = [c for c in cases if repr(c) == want]
            if not cases:
                return
        elif self.only and not group.startswith(self.only):
            return
        self.pending.append((group, list(cases), fn, affinity))
        if not self.joined:
            self._flush(nproc, stall)

    @contextmanager
    def joint(self):
        self.joined = True
        try:
            yield
        finally:
            self.joined = False
        self._flush()

    def _flush(self, nproc=None, stall=None):
        jobs, self.pending = self.pending, []
        if not jobs:
            return
        units = {}
        items = []
        for group, cases, fn, affinity in jobs:
            self.groups.setdefault(
                group,
                {
                    "cases": 0,
                    "states": set(),
                    "outcomes": set(),
                    "transitions": 0,
                    "traces": 0,
                    "wall_s": 0.0,
                    "samples": [],
                    "skips": {},
                },
            )
            for c in cases:
                key = (
                    ("alone", len(items)) if affinity is None
                    else ("with", affinity(c))
                )
                units.setdefault(key, []).append(len(items))
                items.append((group, fn, c))
        units = list(units.values())
        if any(len(u) > 1 for u in units):
            units.sort(key=lambda u: -len(u))
        t0 = time.time()
        n = min(nproc or NPROC, max(1, len(units)))
        recs, crashed, capped = _run_pool(
            items, units, n, self.t0 + self.budget, stall or STALL_S
        )
        wall = time.time() - t0
        for group, r in recs:
            g = self.groups[group]
            g["cases"] += r["n_cases"]
            g["states"] |= r["states"]
            g["outcomes"] |= r["outcomes"]
            g["transitions"] += r["n_trans"]
            g["traces"] += r["n_trace"]
            g["samples"] += r["samples"]
            for k, v in r["skips"].items():
                g["skips"][k] = g["skips"].get(k, 0) + v
            self.n_viol += r["n_viol"]
            for k, v in r["violations"].items():
                self.violations.setdefault(k, v)
        for kind, item in crashed:
            group, _, case = items[item] if item is not None else (
                jobs[0][0], None, None
            )
            self.n_viol += 1
            key = f"{group}|{kind}"
            self.violations.setdefault(
                key,
                {
                    "key": key,
                    "group": group,
                    "message": f"{kind} while executing case",
                    "detail": None,
                    "case": case,
                },
            )
        for group, cases, *_ in jobs:
            g = self.groups[group]
            g["wall_s"] += wall
            if capped:
                self.capped = True
                self.notes[f"capped:{group}"] = (
                    f"time budget reached after {g['cases']} of "
                    f"{len(cases)} cases"
                )
            print(
                f"[{self.pid}] {group}: cases={g['cases']} states="
                f"{len(g['states'])} transitions={g['transitions']} traces="
                f"{g['traces']} outcomes={len(g['outcomes'])} "
                f"wall={g['wall_s']:.1f}s",
                flush=True,
            )

    # -- reporting ----------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        found_known = [k for k in self.violations if k in known]
        fresh = [k for k in self.violations if k not in known]
        fresh.sort(key=lambda k: len(repr(self.violations[k]["case"])))
        for k in sorted(found_known):
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]}")
        rdir = os.path.join(VERIF, "replays", self.pid)
        paths = []
        for k in fresh[:MAX_KEYS]:
            v = self.violations[k]
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, h64(k).hex() + ".json")
            with open(path, "w") as fd:
                json.dump(
                    {
                        "property": self.pid,
                        "key": k,
                        "group": v["group"],
                        "message": v["message"],
                        "detail": v["detail"],
                        "case_repr": repr(v["case"]),
                        "replay_cmd": (
                            f"cd /verif && ./check {self.pid} --replay {path}"
                        ),
                    },
                    fd,
                    indent=1,
                )
            paths.append(path)
            print(f"  violation key={k}\n    {v['message'][:1500]}")
            if v["detail"]:
                print(f"    detail: {v['detail'][:1500]}")
            print(f"    case: {repr(v['case'])[:800]}")
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        if self.replay is None:
            self._evidence(len(fresh), found_known)
        return 1 if fresh else 0

    def _evidence(self, n_fresh, found_known):
        states = set()
        outcomes = 0
        trans = traces = cases = 0
        samples = []
        per = {}
        for name, g in self.groups.items():
            states |= {name.encode() + s for s in g["states"]}
            trans += g["transitions"]
            traces += g["traces"]
            cases += g["cases"]
            outcomes += len(g["outcomes"])
            samples += [{"group": name, "case": s} for s in g["samples"][:2]]
            per[name] = {
                "cases": g["cases"],
                "states": len(g["states"]),
                "transitions": g["transitions"],
                "executions": g["traces"],
                "distinct_outcomes": len(g["outcomes"]),
                "wall_s": round(g["wall_s"], 2),
            }
            if g["skips"]:
                per[name]["outside_domain"] = g["skips"]
        cov = {
            "samples": samples or ["none"],
            "exhaustive": not self.capped,
            "groups": per,
            "distinct_outcomes": outcomes,
            "known_findings_seen": sorted(found_known),
        }
        if self.level == "model_checking":
            cov["states"] = len(states)
            cov["transitions"] = trans
            cov["traces_validated_against_impl"] = traces
        else:
            cov["evaluations"] = traces
            cov["distinct_nontrivial"] = len(states)
            cov["rule"] = self.notes.get("rule", "see DESIGN.md")
        cov["notes"] = self.notes
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.notes.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": n_fresh,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", f"{self.pid}.json")
        tmp = path + ".tmp"
        with open(tmp, "w") as fd:
            json.dump(ev, fd, indent=1, default=repr)
        os.replace(tmp, path)


def load_known(pid):
    out = {}
    if not os.path.exists(KNOWN_FILE):
        return out
    with open(KNOWN_FILE) as fd:
        for line in fd:
            line = line.rstrip("\n")
            # known: property=C01 key=<key> :: description
            if not line.startswith(f"known: property={pid} key="):
                continue
            rest = line.split(" key=", 1)[1]
            key, _, desc = rest.partition(" :: ")
            out[key.strip()] = desc.strip()
    return out


# -- worker pool ------------------------------------------------------------


def _worker(items, units, nxt, slots, wid, deadline, outpath):
    recs = {}
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        while time.time() <= deadline:
            with nxt.get_lock():
                u = nxt.value
                if u >= len(units):
                    break
                nxt.value = u + 1
            for n, i in enumerate(units[u]):
                if n and time.time() > deadline:
                    with nxt.get_lock():
                        nxt.value = -(10**9)  # this unit was cut short
                    break
                # the start time goes first: the parent reads these unlocked
                slots[2 * wid + 1] = time.time()
                slots[2 * wid] = i
                group, fn, case = items[i]
                rec = recs.get(group)
                if rec is None:
                    rec = recs[group] = Recorder(group)
                rec.case = case
                try:
                    fn(rec, case)
                except Exception as e:  # the code under test raised
                    tb = traceback.extract_tb(e.__traceback__)
                    where = next(
                        (
                            f"{os.path.basename(f.filename)}"
                            for f in reversed(tb)
                            if "/raster_tools/" in f.filename
                        ),
                        "harness",
                    )
                    rec.bad(
                        f"exception|{type(e).__name__}|{where}",
                        "unexpected exception: "
                        + "".join(traceback.format_exception(e))[-3000:],
                    )
                rec.n_cases += 1
                slots[2 * wid] = -1
    finally:
        with open(outpath, "wb") as fd:
            pickle.dump([(g, r.pack()) for g, r in recs.items()], fd)
        sys.stdout.flush()
        sys.stderr.flush()
    os._exit(0)


def _run_pool(items, units, n, deadline, stall):
    mpc = mp.get_context("fork")
    nxt = mpc.Value("q", 0)
    slots = mpc.Array("d", [-1.0] * (2 * 64), lock=False)
    tmp = tempfile.mkdtemp(prefix="vmc_")
    crashed = []
    recs = []
    workers = {}
    next_wid = 0

    def spawn():
        nonlocal next_wid
        wid = next_wid
        next_wid += 1
        if wid >= 64:
            return
        path = os.path.join(tmp, f"{wid}.pkl")
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            _worker(items, units, nxt, slots, wid, deadline, path)
            os._exit(0)
        workers[pid] = (wid, path)

    for _ in range(n):
        spawn()
    capped = False
    while workers:
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            now = time.time()
            for p, (wid, path) in list(workers.items()):
                ci = int(slots[2 * wid])
                if ci >= 0 and now - slots[2 * wid + 1] > stall:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del workers[p]
                    crashed.append(("no-termination", ci))
                    if len(crashed) < 3:
                        spawn()
            time.sleep(0.02)
            continue
        if pid not in workers:
            continue
        wid, path = workers.pop(pid)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            try:
                with open(path, "rb") as fd:
                    recs += pickle.load(fd)
                continue
            except Exception:
                pass
        ci = int(slots[2 * wid])
        crashed.append(("worker-crash", ci if ci >= 0 else None))
        if len(crashed) < 3:
            spawn()
    if nxt.value < len(units) and time.time() > deadline:
        capped = True
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    return recs, crashed, capped
