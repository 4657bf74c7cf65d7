"""C18 stacking, splitting and selecting bands is lossless."""

import itertools
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    compare,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every ordered stack of up to 3 rasters from a pool x options; every "
    "band index sequence; every pair of offset grids x join"
)
BOUNDS = "pool of 9 rasters, stacks of 1-3, rasters of 1-4 bands, 2x3 cells"

warnings.simplefilter("ignore")

# (dtype, nbands, null value or None, pattern of nulls)
POOL = [
    ("uint8", 1, None), ("uint8", 1, 255), ("uint8", 2, 7),
    ("int16", 1, -5), ("int32", 2, None), ("int8", 1, -128),
    ("float32", 1, np.nan), ("float64", 2, -999999.0), ("float32", 1, None),
    ("bool", 1, None), ("int64", 1, -(2**63)),
]


def pool(i, off=(0, 0)):
    dt, nb, nv = POOL[i]
    n = nb * 6
    a = (np.arange(n) + i).reshape(nb, 2, 3)
    kind = np.dtype(dt).kind
    if kind == "b":
        d = a % 2 == 0
    elif kind == "f":
        d = (a - 3.25).astype(dt)
    elif kind == "u":
        d = (a + 10).astype(dt)
    else:
        d = (a * 3 - 2).astype(dt)
    k = np.zeros(d.shape, bool)
    if nv is not None:
        k.ravel()[[i % n, (i + 2) % n]] = True
    x = np.arange(3) * 10.0 + 105 + 10 * off[1]
    y = -np.arange(2) * 10.0 + 995 - 10 * off[0]
    return M(d, k, nv, x, y)


CH = [((2,), (3,)), ((1, 1), (2, 1)), ((2,), (1, 1, 1))]


def joint(rec, ms, g, key, dtype, nv="any", grid=True):
    """g must hold exactly the bands of ms in order."""
    o = observe(g)
    rec.trace()
    rec.outcome(o.canon())
    f = invariants(o)
    data = np.concatenate([m.data.astype(dtype) for m in ms])
    mask = np.concatenate([m.mask for m in ms])
    want = M(data, mask, o.nv, ms[0].x, ms[0].y, ms[0].crs)
    f += compare(o, want)
    if nv != "any" and not nv_equal(o.nv, nv):
        f.append(f"null value {o.nv!r} expected {nv!r}")
    if f:
        rec.bad(key, "; ".join(f)[:1200], ms)
    return o


def case_stack(rec, c):
    idx, dt, nvopt, ch = c
    from raster_tools import stack_bands

    ms = [pool(i) for i in idx]
    rs = [build(m, CH[(ch + j) % 3]) for j, m in enumerate(ms)]
    kw = {}
    rdt = np.result_type(*[m.dtype for m in ms])
    if dt is not None:
        kw["dtype"] = dt
        rdt = np.dtype(dt)
    nvs = [m.nv for m in ms if m.nv is not None]
    if nvopt is not None:
        kw["null_value"] = nvopt
        nv = default_null(rdt) if nvopt == "default" else nvopt
    elif nvs:
        nv = nvs[0]
    else:
        nv = default_null(rdt)
    if len(ms) == 1 and ms[0].nv is None:
        nv = "any"
    rec.trans()
    rec.state(c)
    lst = list(rs)
    g = stack_bands(lst, **kw)
    key = f"stack|{'+'.join(POOL[i][0] for i in idx)}|{dt}|{nvopt}"
    joint(rec, ms, g, key, rdt, nv)
    if len(lst) != len(rs) or any(a is not b for a, b in zip(lst, rs)):
        rec.bad(key + "|list", "input list changed")
    for r, m in zip(rs, ms):
        f = compare(observe(r), m.burned())
        if f:
            rec.bad(key + "|input", "; ".join(f), m)
    rec.sample({"stack": [POOL[i] for i in idx], "opts": str(kw)})


def case_concat(rec, c):
    idx, ch = c
    from raster_tools import band_concat

    ms = [pool(i) for i in idx]
    rs = [build(m, CH[(ch + j) % 3]) for j, m in enumerate(ms)]
    rec.trans()
    rec.state(c)
    g = band_concat(rs)
    rdt = np.result_type(*[m.dtype for m in ms])
    masked = any(m.nv is not None for m in ms)
    o = observe(g)
    if (o.nv is not None) != masked:
        rec.bad("concat|nv", f"null value {o.nv!r}, masked {masked}", ms)
    joint(
        rec, ms, g, f"concat|{'+'.join(POOL[i][0] for i in idx)}", rdt
    )


def case_bands(rec, c):
    dt, nb, masked, ch = c
    from raster_tools import split_bands, stack_bands

    n = nb * 6
    a = np.arange(n).reshape(nb, 2, 3)
    d = (a % 2 == 0) if dt == "bool" else a.astype(dt)
    k = (a * 5) % 7 == 0 if masked else None
    m = M(d, k, default_null(dt) if masked else None)
    r = build(m, CH[ch])
    key = f"bands|{dt}|{nb}|{int(masked)}"
    for L in range(1, nb + 1):
        for seq in itertools.product(range(1, nb + 1), repeat=L):
            if L > 3 and len(set(seq)) < 3:
                continue
            forms = [list(seq), tuple(seq), np.array(seq)]
            if L == 1:
                forms += [seq[0], np.int64(seq[0])]
            for arg in forms if L < 3 else forms[:1]:
                rec.trans()
                rec.state(c, seq)
                g = r.get_bands(arg)
                i = [b - 1 for b in seq]
                joint(
                    rec, [m.copy(data=m.data[i], mask=m.mask[i])], g,
                    key + f"|{seq}|{type(arg).__name__}", m.dtype, m.nv,
                )
    for badarg in ([0], [nb + 1], 0, -1, [1, nb + 1]):
        try:
            r.get_bands(badarg)
        except IndexError:
            rec.trace()
            continue
        rec.bad(key + f"|{badarg}", "out of range band accepted")
    for parts in (r.split_bands(), split_bands(r)):
        if len(parts) != nb:
            rec.bad(key + "|split", f"{len(parts)} parts")
            continue
        for b, p in enumerate(parts):
            rec.trans()
            joint(
                rec,
                [m.copy(data=m.data[b : b + 1], mask=m.mask[b : b + 1])], p,
                key + f"|split{b}", m.dtype, m.nv,
            )
    back = stack_bands(r.split_bands())
    rec.trans()
    joint(
        rec, [m], back, key + "|split+stack", m.dtype,
        m.nv if masked else "any",
    )
    rec.sample({"dtype": dt, "nbands": nb, "masked": masked})


def align(m, rows, cols, nv):
    """m on the cells with global indices rows x cols."""
    oy = int(round((995 - m.y[0]) / 10))
    ox = int(round((m.x[0] - 105) / 10))
    nb = m.shape[0]
    d = np.zeros((nb, len(rows), len(cols)), m.dtype)
    k = np.ones(d.shape, bool)
    for i, r in enumerate(rows):
        for j, q in enumerate(cols):
            a, b = r - oy, q - ox
            if 0 <= a < m.shape[1] and 0 <= b < m.shape[2]:
                d[:, i, j] = m.data[:, a, b]
                k[:, i, j] = m.mask[:, a, b]
    return m.copy(
        data=d, mask=k, nv=nv, x=np.array(cols) * 10.0 + 105,
        y=995 - np.array(rows) * 10.0,
    )


def case_grids(rec, c):
    (i, j), off, join, ch, dst = c
    from raster_tools import stack_bands

    A, B = pool(i), pool(j, off)
    rs = [build(A, CH[ch]), build(B, CH[(ch + 1) % 3])]
    rowsA, rowsB = range(2), range(off[0], off[0] + 2)
    colsA, colsB = range(3), range(off[1], off[1] + 3)
    kw = {}
    if dst is None:
        op = set.__and__ if join == "inner" else set.__or__
        rows = sorted(op(set(rowsA), set(rowsB)))
        cols = sorted(op(set(colsA), set(colsB)))
        kw["join"] = join
    else:
        rows, cols = (rowsA, colsA) if dst == 0 else (rowsB, colsB)
        kw["dst_grid"] = rs[dst]
    key = f"grids|{i}|{j}|{join}|{dst}"
    rec.trans()
    rec.state(c)
    if not rows or not cols:
        try:
            stack_bands(rs, **kw)
        except ValueError:
            rec.trace()
            return
        rec.bad(key + "|empty", "empty intersection accepted")
        return
    # the union is the box around both grids
    rows = list(range(rows[0], rows[-1] + 1))
    cols = list(range(cols[0], cols[-1] + 1))
    g = stack_bands(rs, **kw)
    nvs = [m.nv for m in (A, B) if m.nv is not None]
    nv = nvs[0] if nvs else None
    ms = [align(A, rows, cols, nv), align(B, rows, cols, nv)]
    joint(
        rec, ms, g, key, np.result_type(A.dtype, B.dtype),
        nv if nvs else "any",
    )


def run(ctx):
    T = ctx.thorough
    P = range(len(POOL))
    cases = []
    for L in (1, 2, 3):
        for n, idx in enumerate(itertools.product(P, repeat=L)):
            if L == 3 and not T and n % 4:
                continue
            cases.append((idx, None, None, n % 3))
            if L < 3 or T:
                cases.append((idx, None, "default", n % 3))
                cases.append((idx, "float64", -123.0, n % 3))
                cases.append((idx, "float64", None, n % 3))
    ctx.explore("stack_bands", cases, case_stack)
    cases = [
        (idx, n % 3)
        for L in (1, 2, 3)
        for n, idx in enumerate(itertools.product(P, repeat=L))
        if T or L < 3 or n % 6 == 1
    ]
    ctx.explore("band_concat", cases, case_concat)
    cases = [
        (dt, nb, mk, ch)
        for dt in ALL_DTYPES
        for nb in (1, 2, 3, 4)
        for mk in (False, True)
        for ch in range(3)
        if (T or ch == nb % 3)
        and (nb < 4 or dt in ("int16", "float32"))
        and (T or nb != 3 or dt in ("uint8", "int32", "float64", "bool"))
    ]
    ctx.explore("get_bands/split", cases, case_bands)
    pairs = [(1, 3), (7, 2), (6, 8), (0, 1), (4, 5), (3, 3)]
    offs = list(itertools.product((-2, -1, 0, 1, 2), (-3, -2, -1, 0, 1, 3)))
    cases = [
        (p, off, join, n % 3, dst)
        for n, p in enumerate(pairs)
        for off in offs
        for join, dst in (
            ("inner", None), ("outer", None), (None, 0), (None, 1)
        )
        if T or (abs(off[0]) < 2 and abs(off[1]) < 2)
        or (off in [(2, 0), (0, 3)])
    ]
    ctx.explore("grids", cases, case_grids)
