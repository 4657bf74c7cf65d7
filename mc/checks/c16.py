"""C16 remap_range, reclassify and where choose cells correctly."""

import itertools
import os
import tempfile

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    close,
    crs_equal,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "where: every (condition kind, true kind, false kind) with all cell "
    "combinations in one raster; remap_range: every ordered list of up to 2 "
    "(thorough 3) ranges over the end points, every inclusivity; reclassify: "
    "every mapping from subsets of the values to values or None"
)
BOUNDS = "value alphabets of 3-7 values per dtype, with and without null"


def judge(rec, key, r_in, g, data, mask, masked, like, detail, nv=None):
    """data: exact expected numbers (float64/int), valid where not mask."""
    o = observe(g)
    rec.trace()
    f = invariants(o)
    if o.data.shape != data.shape:
        rec.bad(key + "|shape", f"shape {o.data.shape}")
        return o
    if (o.nv is not None) != masked:
        f.append(f"null value {o.nv!r}, masked expected {masked}")
    if nv is not None and not nv_equal(o.nv, nv):
        f.append(f"null value {o.nv!r} expected {nv!r}")
    if not np.array_equal(o.mask, mask):
        f.append(
            f"mask {o.mask.astype(int).tolist()} expected "
            f"{mask.astype(int).tolist()}"
        )
    v = ~(o.mask | mask)
    e = close(o.data[v].astype(float), data[v].astype(float), 1e-6, 1e-9)
    if not e.all():
        i = np.argwhere(v)[~e][0].tolist()
        f.append(
            f"value at {i}: {o.data[tuple(i)]!r} expected {data[tuple(i)]!r}"
        )
    if not (np.array_equal(o.x, like.x) and np.array_equal(o.y, like.y)):
        f.append("grid changed")
    if not crs_equal(o.crs, like.crs):
        f.append(f"crs {o.crs}")
    rec.outcome(o.canon())
    if f:
        rec.bad(key, "; ".join(f)[:1500], detail)
    return o


# -- where ------------------------------------------------------------------

RAST = [
    (dt, mk)
    for dt in ("bool", "uint8", "int16", "float32")
    for mk in (False, True)
]
SCAL = [0, 5, -7, 300, 2.5]
CONDS = [("bool", 0), ("bool", 1), ("int16", 0), ("uint8", 1)]


def vals(dt):
    return {
        "b": [True, False], "u": [3, 200], "i": [-4, 9], "f": [1.5, -2.25],
    }[np.dtype(dt).kind]


def case_where(rec, c):
    ci, xa, ya, ch, via = c
    from raster_tools.general import where

    cdt, cmk = CONDS[ci]
    cv = [0, 1] if cdt != "int16" else [-1, 0, 2]
    C = [(v, False) for v in cv] + ([(1, True)] if cmk else [])

    def opts(a):
        if isinstance(a, tuple):
            dt, mk = a
            o = [(v, False) for v in vals(dt)]
            return o + ([(vals(dt)[0], True)] if mk else [])
        return [(a, a is None)]

    X, Y = opts(xa), opts(ya)
    combos = list(itertools.product(C, X, Y))
    n = len(combos)
    w = 3
    h = -(-n // w)
    combos += [combos[0]] * (h * w - n)

    def model(j, dt, masked):
        d = np.array([t[j][0] for t in combos]).reshape(1, h, w)
        k = np.array([t[j][1] for t in combos]).reshape(1, h, w)
        return M(d.astype(dt), k, default_null(dt) if masked else None)

    cm = model(0, cdt, cmk)
    chs = [((h,), (w,)), ((1,) * h, (w,)), ((h,), (2, 1))]
    rc = build(cm, chs[ch])
    args = []
    keep = [(rc, cm)]
    for j, a in ((1, xa), (2, ya)):
        if isinstance(a, tuple):
            m = model(j, *a)
            r = build(m, chs[(ch + j) % 3])
            keep.append((r, m))
            args.append(r)
        else:
            args.append(a)
    sel = np.array([t[0][0] > 0 for t in combos]).reshape(1, h, w)
    null = np.array(
        [t[0][1] or (t[1][1] if t[0][0] > 0 else t[2][1]) for t in combos]
    ).reshape(1, h, w)
    data = np.array(
        [
            float((t[1][0] if t[0][0] > 0 else t[2][0]) or 0)
            for t in combos
        ]
    ).reshape(1, h, w)
    masked = bool(cmk) or any(
        a is None or (isinstance(a, tuple) and a[1]) for a in (xa, ya)
    )
    # A valid value equal to the null value the result gets cannot be told
    # apart from null; the documentation leaves the value open, so boolean
    # and other small results may collide.
    key = f"where|{CONDS[ci]}|{xa}|{ya}"
    rec.trans()
    rec.state(c)
    if via == "method":
        g = args[0].where(rc, args[1])
    else:
        g = where(rc, *args)
    if masked:
        nv = g.null_value
        hit = (~null) & (data == float(nv))
        if hit.any():
            rec.skip("valid value equals the null value of the result")
            return
    judge(rec, key, rc, g, data, null, masked, cm, (cm, xa, ya))
    for r, m in keep:
        o = observe(r)
        if not (
            np.array_equal(o.mask, m.mask)
            and np.array_equal(o.data, m.burned().data)
        ):
            rec.bad(key + "|mutated", "input raster changed")
    rec.sample({"cond": CONDS[ci], "true": str(xa), "false": str(ya)})


# -- remap_range ------------------------------------------------------------


def remap_alphabet(dt):
    dt = np.dtype(dt)
    if dt.kind == "u":
        return np.array([0, 1, 2, 3, 4, 5], dt)
    if dt.kind == "i":
        return np.array([-2, 0, 1, 2, 3, 4], dt)
    if dt.kind == "b":
        return np.array([False, True, False, True, True, False])
    return np.array([-1.5, 0.0, 0.5, 1.0, 2.0, 3.25], dt)


def remap_raster(dt, masked):
    a = remap_alphabet(dt)
    d = np.stack([a.reshape(2, 3), a[::-1].reshape(2, 3)])
    k = np.zeros(d.shape, bool)
    if masked:
        k[0, 0, 1] = k[1, 1, 1] = True
    return M(d, k, default_null(dt) if masked else None)


def in_range(v, lo, hi, inc):
    a = lo <= v if inc in ("left", "both") else lo < v
    b = v <= hi if inc in ("right", "both") else v < hi
    return a and b


def case_remap(rec, c):
    dt, masked, inc, ranges, ch = c
    from raster_tools.general import remap_range

    m = remap_raster(dt, masked)
    chs = [((2,), (3,)), ((1, 1), (2, 1))]
    r = build(m, chs[ch])
    data = m.data.astype(float)
    mask = m.mask.copy()
    for idx in np.ndindex(m.shape):
        if mask[idx]:
            continue
        v = m.data[idx].item()
        for lo, hi, new in ranges:
            if in_range(v, lo, hi, inc):
                if new is None:
                    mask[idx] = True
                else:
                    data[idx] = new
                break
    arg = list(ranges) if len(ranges) > 1 or ch else ranges[0]
    snap = repr(arg)
    via = r.remap_range if ch else None
    rec.trans()
    rec.state(c)
    g = via(arg, inc) if via else remap_range(r, arg, inclusivity=inc)
    want_masked = masked or any(x[2] is None for x in ranges)
    if want_masked and ((~mask) & (data == float(g.null_value))).any():
        rec.skip("valid value equals the null value of the result")
        return
    key = f"remap|{dt}|{int(masked)}|{inc}"
    judge(
        rec, key, r, g, data, mask, want_masked, m, (c, m),
        nv=m.nv if masked else None,
    )
    if repr(arg) != snap:
        rec.bad(key + "|argument-changed", f"{arg} was {snap}")
    o = observe(r)
    if not np.array_equal(o.data, m.burned().data):
        rec.bad(key + "|mutated", "input changed")
    rec.sample({"dtype": dt, "ranges": str(ranges), "inclusivity": inc})


# -- reclassify -------------------------------------------------------------


def case_reclass(rec, c):
    dt, masked, mapping, unmapped, ch, src = c
    from raster_tools.general import reclassify

    m = remap_raster(dt, masked)
    chs = [((2,), (3,)), ((1, 1), (2, 1))]
    r = build(m, chs[ch])
    mp = dict(mapping)
    data = m.data.astype(float)
    mask = m.mask.copy()
    for idx in np.ndindex(m.shape):
        if mask[idx]:
            continue
        v = m.data[idx].item()
        if v in mp:
            if mp[v] is None:
                mask[idx] = True
            else:
                data[idx] = mp[v]
        elif unmapped:
            mask[idx] = True
    key = f"reclassify|{dt}|{int(masked)}|{int(unmapped)}|{src}"
    rec.trans()
    rec.state(c)
    arg = dict(mp)
    if src == "file":
        fd, path = tempfile.mkstemp(prefix="vmc_remap_")
        with os.fdopen(fd, "w") as f:
            for k, v in mp.items():
                f.write(f"{k}:{'NoData' if v is None else v}\n")
        try:
            g = reclassify(r, path, unmapped)
            want_masked = masked or unmapped or None in mp.values()
            nv = g.null_value
        finally:
            os.unlink(path)
    else:
        g = r.reclassify(arg, unmapped) if ch else reclassify(r, arg, unmapped)
        want_masked = masked or unmapped or None in mp.values()
        nv = g.null_value
    if nv is not None and ((~mask) & (data == float(nv))).any():
        rec.skip("valid value equals the null value of the result")
        return
    judge(
        rec, key, r, g, data, mask, want_masked, m, (c, m),
        nv=m.nv if masked else None,
    )
    if src == "dict" and repr(arg) != repr(mp):
        rec.bad("reclassify|argument-changed", f"{arg} was {mp}")
    o = observe(r)
    if not np.array_equal(o.data, m.burned().data):
        rec.bad(key + "|mutated", "input changed")


def run(ctx):
    T = ctx.thorough
    kinds = RAST + SCAL + [None]
    cases = []
    for ci in range(len(CONDS)):
        for i, (a, b) in enumerate(itertools.product(kinds, kinds)):
            if a is None and b is None:
                continue
            for ch in range(3):
                if T or ch == (i + ci) % 3:
                    cases.append((ci, a, b, ch, "func"))
                    if isinstance(a, tuple) and ch == 1:
                        cases.append((ci, a, b, ch, "method"))
    ctx.explore("where", cases, case_where)

    cases = []
    for dt in ALL_DTYPES:
        kind = np.dtype(dt).kind
        pts = {
            "u": [0, 1, 3], "i": [-2, 0, 2], "b": [0, 1],
            "f": [-1.5, 0.5, 2.0],
        }[kind]
        news = [7, None] if kind != "f" else [7.5, None]
        if T or dt in ("uint8", "int16", "float32"):
            news.append(-3 if kind != "f" else 2)
        one = [
            (lo, hi, nw)
            for lo, hi in itertools.combinations(pts, 2)
            for nw in news
        ]
        lists = [(x,) for x in one]
        lists += list(itertools.product(one, one))
        if T and dt in ("int16", "float32"):
            lists += list(itertools.product(one, one, one))
        incs = ("left", "right", "both", "none")
        for i, (rg, inc) in enumerate(itertools.product(lists, incs)):
            for mk in (False, True):
                if not T and len(rg) > 1 and (
                    (dt not in ("int16", "float32"))
                    or i // 4 % 2 != int(mk)
                ):
                    continue
                cases.append((dt, mk, inc, rg, (i + len(rg)) % 2))
    ctx.explore("remap_range", cases, case_remap)

    cases = []
    for dt in ALL_DTYPES:
        a = list(dict.fromkeys(remap_alphabet(dt).tolist()))[:3]
        outs = [9, None, 2.5, -1]
        maps = []
        for k in (1, 2):
            for src in itertools.combinations(a, k):
                for to in itertools.product(outs, repeat=k):
                    maps.append(tuple(zip(src, to)))
        if T:
            for to in itertools.product(outs, repeat=len(a)):
                maps.append(tuple(zip(a, to)))
        for i, mp in enumerate(maps):
            for mk in (False, True):
                for un in (False, True):
                    if not T and dt not in ("uint8", "int16", "float32") and (
                        len(mp) > 1 and i % 4
                    ):
                        continue
                    cases.append((dt, mk, mp, un, (i + mk) % 2, "dict"))
        if dt in ("int16", "float32"):
            for i, mp in enumerate(maps):
                cases.append((dt, bool(i % 2), mp, False, 0, "file"))
    ctx.explore("reclassify", cases, case_reclass)
