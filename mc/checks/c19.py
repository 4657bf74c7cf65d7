"""C19 a mosaic resolves overlaps by its rule, cell by cell."""

import itertools
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    compare,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "n = 1..10 (12 thorough) co-located rasters holding every one of the 2^n "
    "patterns of valid/null inputs, x method x dtype; every placement of two "
    "and three small rasters on a canvas x order x method; options"
)
BOUNDS = "10 (12) inputs; canvas up to 6x6; 11 dtypes (boolean excluded)"
ASSUMPTIONS = [
    "cells where a valid input value equals the output null value are not "
    "judged (a raster cannot represent them)",
]

METHODS = ("first", "last", "min", "max", "sum")
DTYPES = [d for d in ALL_DTYPES if d != "bool"]

warnings.simplefilter("ignore")


def rule(method, vals):
    if method == "first":
        return vals[0]
    if method == "last":
        return vals[-1]
    return {"min": min, "max": max, "sum": sum}[method](vals)


def oracle(ms, rows, cols, method, nv, dtype):
    """ms: model rasters with .y/.x on the 10 unit lattice."""
    nb = max(m.shape[0] for m in ms)
    data = np.zeros((nb, len(rows), len(cols)), dtype)
    mask = np.ones(data.shape, bool)
    skip = np.zeros(data.shape, bool)
    place = [
        (
            m.data.astype(dtype).tolist(), m.mask.tolist(),
            int(round((995 - m.y[0]) / 10)), int(round((m.x[0] - 105) / 10)),
            m.shape,
        )
        for m in ms
    ]
    null = np.array(nv).astype(dtype).item()
    for b in range(nb):
        for i, r in enumerate(rows):
            for j, q in enumerate(cols):
                vals = []
                for d, k, oy, ox, sh in place:
                    a, c = r - oy, q - ox
                    if b < sh[0] and 0 <= a < sh[1] and 0 <= c < sh[2]:
                        if not k[b][a][c]:
                            vals.append(d[b][a][c])
                if not vals:
                    continue
                if null in vals:
                    skip[b, i, j] = True
                    continue
                v = rule(method, vals)
                if v == null:
                    skip[b, i, j] = True
                    continue
                data[b, i, j] = v
                mask[b, i, j] = False
    return data, mask, skip


def judge(rec, g, ms, rows, cols, method, nv, dtype, key, detail, tol=0.0):
    o = observe(g)
    rec.trace()
    rec.outcome(method, o.canon())
    f = invariants(o)
    data, mask, skip = oracle(ms, rows, cols, method, nv, dtype)
    if not nv_equal(o.nv, nv):
        f.append(f"null value {o.nv!r} expected {nv!r}")
    if o.data.shape == data.shape and skip.any():
        rec.skip("valid value equal to the null value")
        o.mask = o.mask | skip
        mask = mask | skip
    want = M(
        data, mask, o.nv, np.array(cols) * 10.0 + 105,
        995 - np.array(rows) * 10.0,
    )
    f += compare(o, want, rtol=tol)
    if f:
        rec.bad(key, "; ".join(f)[:1200], detail)


def case_patterns(rec, c):
    n, dt, method, nv, small = c
    from raster_tools import mosaic

    N = 2**n
    w = 2 ** ((n + 1) // 2)
    bits = np.arange(N).reshape(N // w, w)
    # distinct values, not monotone in the order of the inputs
    vals = [1 + (i * 7 + 3) % 11 for i in range(n)] if not small else [
        1 + i % 2 for i in range(n)
    ]
    if np.dtype(dt).kind == "i" and not small:
        vals = [v - 5 if v != 5 else 7 for v in vals]
    if np.dtype(dt).kind == "f":
        vals = [v - 4.5 for v in vals]
    ms, rs = [], []
    for i, v in enumerate(vals):
        k = (bits >> i & 1) == 0
        m = M(np.full((1,) + bits.shape, v, dt), k, nv)
        ms.append(m)
        ch = ((bits.shape[0],), (w,))
        if i % 3 == 1 and w > 1:
            ch = (ch[0], (1, w - 1))
        rs.append(build(m, ch))
    rec.trans()
    rec.state(c)
    g = mosaic(rs, method)
    out = nv
    # fast oracle: the same null pattern in every raster
    judge(
        rec, g, ms, list(range(bits.shape[0])), list(range(w)), method, out,
        dt, f"patterns|{method}|{dt}|{n}|{small}", c,
        1e-3 if dt == "float16" else 0,
    )
    rec.sample({"inputs": n, "dtype": dt, "method": method, "patterns": N})


SPECS = [  # dtype, bands, nv, shape
    ("int16", 1, -1, (2, 2)), ("uint8", 1, 200, (2, 3)),
    ("float32", 1, np.nan, (2, 2)), ("int32", 2, None, (3, 2)),
    ("float64", 1, -99.5, (2, 2)), ("uint8", 2, 0, (2, 2)),
]


def place(i, off, tag):
    dt, nb, nv, (ny, nx) = SPECS[i]
    n = nb * ny * nx
    a = np.arange(n).reshape(nb, ny, nx)
    d = ((a * 5 + tag * 4) % 13 + 1 + tag).astype(dt)
    k = np.zeros(d.shape, bool)
    if nv is not None:
        k.ravel()[tag % n] = n > 1
    return M(
        d, k, nv, np.arange(nx) * 10.0 + 105 + 10 * off[1],
        -np.arange(ny) * 10.0 + 995 - 10 * off[0],
    )


def case_place(rec, c):
    idx, offs, method, kw, ch = c
    from raster_tools import mosaic

    ms = [place(i, o, t) for t, (i, o) in enumerate(zip(idx, offs))]
    rs = []
    for t, m in enumerate(ms):
        ny, nx = m.shape[1:]
        cs = [((ny,), (nx,)), ((1,) * ny, (nx,)), ((ny,), (1,) * nx)]
        rs.append(build(m, cs[(ch + t) % 3]))
    kw = dict(kw)
    dtype = np.dtype(
        kw.get("dtype") or np.result_type(*[m.dtype for m in ms])
    )
    if "null_value" in kw:
        nv = kw["null_value"]
    else:
        nvs = [m.nv for m in ms if m.nv is not None]
        nv = nvs[0] if nvs else default_null(dtype)
    dst = kw.pop("dst", None)
    grids = ms if dst is None else [ms[dst]]
    r0 = [int(round((995 - m.y[0]) / 10)) for m in grids]
    c0 = [int(round((m.x[0] - 105) / 10)) for m in grids]
    rows = list(
        range(min(r0), max(a + m.shape[1] for a, m in zip(r0, grids)))
    )
    cols = list(
        range(min(c0), max(a + m.shape[2] for a, m in zip(c0, grids)))
    )
    if dst is not None:
        kw["dst_grid"] = rs[dst]
    rec.trans()
    rec.state(c)
    g = mosaic(rs, method, **kw)
    key = f"place|{method}|{'+'.join(str(i) for i in idx)}|{sorted(kw)}"
    judge(rec, g, ms, rows, cols, method, nv, dtype, key, (c, ms))
    if ch == 0:
        for r, m in zip(rs, ms):
            f = compare(observe(r), m.burned())
            if f:
                rec.bad(key + "|input", "; ".join(f), m)


def run(ctx):
    T = ctx.thorough
    mx = 12 if T else 10
    cases = []
    for n in range(1, mx + 1):
        for method in METHODS:
            for dt in DTYPES:
                if not T and n not in (2, 5, 8, 9) and dt not in (
                    "int16", "float32"
                ):
                    continue
                if n > 9 and dt not in ("int32", "float64", "int16"):
                    continue
                cases.append((n, dt, method, default_null(dt), False))
            cases.append((n, "int16", method, 3, True))
            cases.append((n, "float32", method, np.nan, False))
    cases.sort(key=lambda c: -c[0])
    ctx.explore("null patterns", cases, case_patterns)
    S = range(len(SPECS))
    offs = [(0, 0), (0, 1), (1, 0), (1, -1), (-1, 2), (2, 2), (0, -2)]
    cases = []
    n = 0
    for a, b in itertools.product(S, S):
        for off in offs:
            for me in METHODS:
                n += 1
                if T or n % 2:
                    cases.append(((a, b), ((0, 0), off), me, (), n % 3))
    for a, b, d in itertools.product(S, S, S):
        for o1, o2 in itertools.product(offs[:6], offs[:6]):
            n += 1
            if T or n % 13 == 0:
                cases.append(
                    ((a, b, d), ((0, 0), o1, o2), METHODS[n // 13 % 5], (),
                     n % 3)
                )
    for a, b in itertools.product(S, S):
        for j, kw in enumerate((
            (("dtype", "float64"),), (("null_value", 77),),
            (("dtype", "float32"), ("null_value", np.nan)),
            (("dst", 0),), (("dst", 1),),
            (("dst", 0), ("dtype", "float64"), ("null_value", -5.5)),
        )):
            cases.append(
                ((a, b), ((0, 0), offs[(a + b + j) % 7]),
                 METHODS[(a + 2 * b + j) % 5], kw, j % 3)
            )
    for a in S:
        for me in METHODS:
            cases.append(((a,), ((0, 0),), me, (), 0))
    ctx.explore("placements", cases, case_place)
