"""C13 local statistics combine the bands of each cell."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    crs_equal,
    default_null,
    invariants,
    nv_equal,
    observe,
)
from mc.stats import agree, argext, small_values, stat

LEVEL = "model_checking"
RULE = (
    "every band vector over {3 values, null}, laid out as the cells of one "
    "raster, x statistic x dtype x chunk layout"
)
BOUNDS = (
    "1..4 bands (quick: 1, 2, 3), all dtypes, all statistics; 127..129 and "
    "255..257 bands for int32 and float32"
)
STATS = (
    "asm", "entropy", "max", "maxband", "mean", "median", "min", "minband",
    "mode", "prod", "std", "sum", "unique", "var",
)


def vectors(dt, nb, masked, inf=False):
    vals = small_values(dt)
    if inf:
        vals = np.array([-np.inf, np.inf, 1.0], dt)
    syms = [(v, False) for v in vals]
    if masked:
        syms.append((vals[0], True))
    vecs = list(itertools.product(range(len(syms)), repeat=nb))
    w = int(np.ceil(np.sqrt(len(vecs))))
    h = int(np.ceil(len(vecs) / w))
    d = np.zeros((nb, h, w), dt)
    k = np.zeros((nb, h, w), bool)
    for i, v in enumerate(vecs):
        y, x = divmod(i, w)
        for b, s in enumerate(v):
            d[b, y, x], k[b, y, x] = syms[s]
    return M(d, k, default_null(dt) if masked else None)


def case(rec, c):
    """All layouts etc. of one (statistic, dtype): one compilation."""
    st, dt, rest = c
    for nb, masked, chi, inf in rest:
        one(rec, (st, dt, nb, masked, chi, inf))


def one(rec, c):
    st, dt, nb, masked, chi, inf = c
    m = vectors(dt, nb, masked, inf)
    _, h, w = m.shape
    ch = [
        ((h,), (w,)), ((1,) * h, (w,)), ((h,), (1,) * w),
        ((h - h // 3, h // 3) if h > 2 else (h,), (1, w - 1)),
    ][chi]
    if inf and st not in ("max", "min", "maxband", "minband", "mode",
                          "unique"):
        return
    judge(rec, c, m, ch, st, f"{st}|{dt}|{nb}|{int(masked)}")


def case_wide(rec, c):
    """Band counts around the limits of the small integer types."""
    st, dt, rest = c
    for nb, masked in rest:
        i = np.arange(nb)
        d = np.empty((nb, 2, 3), dt)
        d[:, 0, 0] = i
        d[:, 0, 1] = i[::-1]
        d[:, 0, 2] = 7
        d[:, 1, 0] = i // 2
        d[:, 1, 1] = np.where(i == nb - 1, -5, i % 3)
        d[:, 1, 2] = np.where(i == nb - 2, 999, i % 3)
        k = np.zeros(d.shape, bool)
        if masked:
            k[::2, 1, 0] = True
            k[1:, 0, 2] = True
        m = M(d, k if masked else None, default_null(dt) if masked else None)
        judge(rec, (c, nb, masked), m, ((2,), (1, 2)), st,
              f"wide|{st}|{dt}|{nb}|{int(masked)}")


def judge(rec, c, m, ch, st, key):
    from raster_tools.general import local_stats

    _, h, w = m.shape
    masked = m.nv is not None
    r = build(m, ch)
    g = local_stats(r, st)
    o = observe(g)
    rec.trans()
    rec.trace()
    rec.state(c)
    f = invariants(o)
    if o.data.shape != (1, h, w):
        rec.bad(key + "|shape", f"shape {o.data.shape}, expected {(1, h, w)}")
        return
    want_mask = m.mask.all(axis=0)[None]
    if not np.array_equal(o.mask, want_mask):
        f.append("null exactly where all bands are null violated")
    if (o.nv is None) != (not masked):
        f.append(f"null value {o.nv!r} for masked={masked}")
    if masked and not nv_equal(o.nv, default_null(o.data.dtype)):
        f.append(f"null value {o.nv!r} is not the default")
    tol = {2: 2e-3, 4: 2e-6}.get(o.data.dtype.itemsize, 1e-9)
    if o.data.dtype.kind != "f":
        tol = 0
    atol = 1e-7
    if st in ("var", "std") and o.data.dtype.kind == "f":
        tol = max(tol, 1e-5)
    for y in range(h):
        for x in range(w):
            ok = ~m.mask[:, y, x]
            if not ok.any():
                continue
            col = m.data[:, y, x]
            if st in ("maxband", "minband"):
                want = argext(st[:3], col.tolist(), ok)
            else:
                want = stat(st, col[ok])
                if st == "prod" and abs(want) > 1e18:
                    continue
            got = o.data[0, y, x]
            rec.outcome(st, want)
            if not agree(got, want, tol, atol):
                f.append(
                    f"{st} of {col.tolist()} valid={ok.tolist()} gave {got!r}"
                    f", expected {want!r}"
                )
                break
        else:
            continue
        break
    if st == "mode" and o.data.dtype != m.dtype:
        f.append(f"mode dtype {o.data.dtype} for input {m.dtype}")
    if not (np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)):
        f.append("grid changed")
    if not crs_equal(o.crs, m.crs):
        f.append("crs lost")
    if f:
        rec.bad(key, "; ".join(f)[:1500], m if m.data.size < 60 else None)
    fm = compare(observe(r), m)
    if fm:
        rec.bad(key + "|mutated", "; ".join(fm)[:800])
    rec.sample({"stat": st, "dtype": str(m.dtype), "bands": m.shape[0],
                "masked": masked})


def run(ctx):
    nbs = (1, 2, 3, 4) if ctx.thorough else (1, 2, 3)
    cases = []
    for st in STATS:
        for dt in ALL_DTYPES:
            rest = [
                (nb, mk, ch, False)
                for nb in nbs
                for mk in (False, True)
                for ch in range(4)
                if ctx.thorough or ch == (nb + len(st)) % 4
                or dt in ("int16", "float32")
            ]
            if dt.startswith("float"):
                rest += [(3, True, ch, True) for ch in range(4)]
            cases.append((st, dt, tuple(rest)))
    cases.sort(key=lambda c: -len(c[2]))
    ctx.explore("local", cases, case)
    nbs = (127, 128, 129, 255, 256, 257)
    wide = [
        (st, dt, tuple((nb, mk) for nb in nbs for mk in (False, True)))
        for st in STATS if st != "prod"
        for dt in ("int32", "float32")
        if dt == "float32" or st in ("unique", "minband", "maxband")
    ]
    ctx.explore("band counts", wide, case_wide)
