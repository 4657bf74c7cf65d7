"""C14 aggregation summarises each window of cells."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    crs_equal,
    default_null,
    invariants,
    nv_equal,
    observe,
)
from mc.stats import agree, small_values, stat

LEVEL = "model_checking"
RULE = (
    "every window content over {2-3 values, null}, laid out as the windows "
    "of one raster, x statistic x dtype x window shape x chunk layout; the "
    "raster has a partial window at the right and bottom edge"
)
BOUNDS = "windows 1x2, 2x1, 2x2, 1x3, 3x1, 2x3 (thorough: 3x2, 1x4, 4x1), and 255..257 cells"
STATS = (
    "asm", "entropy", "max", "mean", "median", "min", "mode", "prod", "std",
    "sum", "unique", "var",
)


def tiled(dt, win, masked):
    wy, wx = win
    n = wy * wx
    vals = small_values(dt)
    nval = 3 if (n <= 3 and np.dtype(dt).kind != "b") else 2
    syms = [(v, False) for v in (vals[[0, 2]] if nval == 2 else vals)]
    if masked:
        syms.append((vals[0], True))
    pats = list(itertools.product(range(len(syms)), repeat=n))
    w = int(np.ceil(np.sqrt(len(pats))))
    h = int(np.ceil(len(pats) / w))
    # one extra partial row / column that must be trimmed away
    ey, ex = (1 if wy > 1 else 0), (1 if wx > 1 else 0)
    d = np.full((1, h * wy + ey, w * wx + ex), vals[0], dt)
    k = np.zeros(d.shape, bool)
    for i, p in enumerate(pats):
        r, c = divmod(i, w)
        for j, s in enumerate(p):
            a, b = divmod(j, wx)
            d[0, r * wy + a, c * wx + b] = syms[s][0]
            k[0, r * wy + a, c * wx + b] = syms[s][1]
    # second band: mirrored
    d = np.concatenate([d, d[:, ::-1]])
    k = np.concatenate([k, k[:, ::-1]])
    return M(d, k, default_null(dt) if masked else None)


def layout(n, kind):
    if kind == 0:
        return (n,)
    if kind == 1:
        s = 5
    elif kind == 2:
        s = 3
    else:
        return (1,) + layout(n - 1, 1) if n > 1 else (1,)
    return tuple([s] * (n // s) + ([n % s] if n % s else []))


def case(rec, c):
    """All window shapes etc. of one (statistic, dtype): one compilation."""
    st, dt, rest = c
    for win, masked, kind in rest:
        one(rec, (st, dt, win, masked, kind))


def big(dt, win, masked):
    """Windows whose cell count is around the limits of the integer types."""
    wy, wx = win
    n = wy * wx
    i = np.arange(n)
    pats = [i, i[::-1], i * 0 + 7, i // 2, np.where(i == n - 1, -5, i % 3)]
    d = np.concatenate([p.reshape(wy, wx) for p in pats], axis=1)
    d = np.concatenate([d, d[:, ::-1]], axis=0).astype(dt)[None]
    d = np.concatenate([d, d[:, ::-1]])
    k = np.zeros(d.shape, bool)
    if masked:
        k[:, :wy, wx : 2 * wx] = True
        k[:, ::2, ::3] = True
    return M(d, k, default_null(dt) if masked else None)


def one(rec, c):
    st, dt, win, masked, kind = c
    from raster_tools.general import aggregate

    wy, wx = win
    m = (tiled if wy * wx < 100 else big)(dt, win, masked)
    _, h, w = m.shape
    r = build(m, (layout(h, kind), layout(w, kind)))
    g = aggregate(r, win, st)
    o = observe(g)
    rec.trans()
    rec.trace()
    rec.state(c)
    key = f"{st}|{dt}|{win}|{int(masked)}"
    f = invariants(o)
    oh, ow = h // wy, w // wx
    if o.data.shape != (2, oh, ow):
        rec.bad(key + "|shape", f"shape {o.data.shape} for {m.shape} / {win}")
        return
    D = m.data[:, : oh * wy, : ow * wx].reshape(2, oh, wy, ow, wx)
    K = m.mask[:, : oh * wy, : ow * wx].reshape(2, oh, wy, ow, wx)
    want_mask = K.all(axis=(2, 4))
    if not np.array_equal(o.mask, want_mask):
        f.append("null exactly where the whole window is null violated")
    if (o.nv is None) != (not masked):
        f.append(f"null value {o.nv!r} for masked={masked}")
    if masked and not nv_equal(o.nv, default_null(o.data.dtype)):
        f.append(f"null value {o.nv!r} is not the default")
    tol = {2: 2e-3, 4: 2e-6}.get(o.data.dtype.itemsize, 1e-9)
    if o.data.dtype.kind != "f":
        tol = 0
    if st in ("var", "std") and o.data.dtype.kind == "f":
        tol = max(tol, 1e-5)
    memo = {}
    for idx in np.ndindex(2, oh, ow):
        b, i, j = idx
        ok = ~K[b, i, :, j]
        if not ok.any():
            continue
        win_v = D[b, i, :, j]
        kk = (win_v.tobytes(), ok.tobytes())
        if kk not in memo:
            memo[kk] = stat(st, win_v[ok])
        want = memo[kk]
        if st == "prod" and abs(want) > 1e18:
            continue
        rec.outcome(st, want)
        if not agree(o.data[idx], want, tol, 1e-7):
            f.append(
                f"{st} of {win_v.tolist()} valid={ok.tolist()} gave "
                f"{o.data[idx]!r}, expected {want!r} at {idx}"
            )
            break
    if st == "mode" and o.data.dtype != m.dtype:
        f.append(f"mode dtype {o.data.dtype} for input {m.dtype}")
    ex = m.x[: ow * wx].reshape(ow, wx).mean(axis=1)
    ey = m.y[: oh * wy].reshape(oh, wy).mean(axis=1)
    if not (np.allclose(o.x, ex) and np.allclose(o.y, ey)):
        f.append(f"grid x={o.x[:4]} y={o.y[:4]}")
    if not crs_equal(o.crs, m.crs):
        f.append("crs lost")
    if f:
        rec.bad(key, "; ".join(f)[:1500])
    from mc.model import compare

    fm = compare(observe(r), m)
    if fm:
        rec.bad(key + "|mutated", "; ".join(fm)[:800])
    rec.sample({"stat": st, "dtype": dt, "window": win, "masked": masked})


def run(ctx):
    wins = [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)]
    if ctx.thorough:
        wins += [(3, 2), (1, 4), (4, 1), (2, 4)]
    few = ("uint8", "int16", "float32")
    cases = []
    for st in STATS:
        for dt in ALL_DTYPES:
            rest = []
            for wi, win in enumerate(wins):
                for mk in (False, True):
                    for kind in range(4):
                        if not ctx.thorough:
                            if dt not in few and (
                                kind != wi % 4 or win not in wins[1:4]
                            ):
                                continue
                            if dt in few and kind not in (wi % 4, 3):
                                continue
                        rest.append((win, mk, kind))
            if dt in ("int16", "float32") and st != "prod":
                rest += [
                    (win, mk, kind)
                    for kind, win in enumerate(
                        [(16, 16), (5, 51), (15, 17), (257, 1)]
                    )
                    for mk in (False, True)
                ]
            cases.append((st, dt, tuple(rest)))
    cases.sort(key=lambda c: -len(c[2]))
    ctx.explore("aggregate", cases, case)
