"""C26 proximity analysis finds a nearest target."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "patterns: every set of targets of the grid shapes x metric x maximum "
    "distance x cell shape, one pattern per band; pairs: every set of up to "
    "two (three) targets of larger grids; layouts: every chunk layout of a "
    "grid around the origin x maximum distance x null state; types: dtype x "
    "null state x target values; globe: great circle distances on lon/lat "
    "grids of both hemispheres up to the poles x maximum distance x layout; "
    "names: every metric name and every refused argument. Proximity, "
    "allocation and direction are compared with the exhaustive search over "
    "all targets"
)
BOUNDS = "grids up to 3x4 (4x4) complete, up to 7x7 with 3 targets"
ASSUMPTIONS = [
    "any nearest target is accepted where several are equally near",
    "great circle grids span less than 180 degrees of longitude",
    "allocated values that equal the null value of the result are not judged",
]
R = 6371009.0
PLANE = ("euclidean", "taxi", "chebyshev")


def distances(metric, x, y):
    """D[i, j]: distance from cell i to cell j (flat, row major)"""
    X, Y = (q.ravel() for q in np.meshgrid(x, y))
    dx = np.abs(X[:, None] - X[None])
    dy = np.abs(Y[:, None] - Y[None])
    if metric == "euclidean":
        return np.hypot(dx, dy)
    if metric == "taxi":
        return dx + dy
    if metric == "chebyshev":
        return np.maximum(dx, dy)
    la, dla, dlo = np.radians(Y), np.radians(dy), np.radians(dx)
    h = np.sin(dla / 2) ** 2
    h = h + np.cos(la[:, None]) * np.cos(la[None]) * np.sin(dlo / 2) ** 2
    return 2 * R * np.arcsin(np.sqrt(np.clip(h, 0, 1)))


def bearings(x, y):
    """A[i, j]: compass direction from cell i to cell j"""
    X, Y = (q.ravel() for q in np.meshgrid(x, y))
    dx = X[None] - X[:, None]
    dy = Y[None] - Y[:, None]
    a = np.degrees(np.arctan2(dx, dy)) % 360
    a[a == 0] = 360
    a[(dx == 0) & (dy == 0)] = 0
    return a


def judge(rec, key, m, tgt, outs, metric, md, dbl, detail, ids=True):
    """tgt: (band, y, x) bool; with ids the values of the targets of a band
    differ from one another"""
    nb, ny, nx = m.shape
    obs = [observe(o) for o in outs]
    fdt = np.dtype("float64" if dbl else "float32")
    dts = (fdt, fdt, m.dtype)
    D = distances(metric, m.x, m.y)
    A = bearings(m.x, m.y)
    T = tgt.reshape(nb, -1)
    with np.errstate(all="ignore"):
        near = np.where(T[:, None, :], D[None], np.inf)
    best = near.min(-1)
    null = ~(np.isfinite(best) & (best <= md))
    names = ("proximity", "direction", "allocation")
    vals = []
    for name, o, dt in zip(names, obs, dts):
        f = invariants(o)
        if o.data.dtype != dt:
            f.append(f"dtype {o.data.dtype}")
        if o.data.shape != m.shape:
            f.append(f"shape {o.data.shape}")
        elif not (np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)):
            f.append("grid")
        if not nv_equal(o.nv, default_null(dt)):
            f.append(f"null value {o.nv}")
        if f:
            rec.bad(f"{key}|form", f"{name}: " + "; ".join(f)[:800], detail(0))
            return
        vals.append(o.data.reshape(nb, -1))
    rec.outcome(obs[0].canon(), obs[2].canon())
    free = np.zeros(null.shape, bool)
    if m.dtype == bool:
        free = free | True  # True is the null value itself
    tol = 1e-9 if dbl else 1e-6
    p, d, al = vals
    for name, o in zip(names, obs):
        k = o.mask.reshape(nb, -1) != null
        if name == "allocation":
            k = k & ~free
        if k.any():
            b, i = np.argwhere(k)[0]
            rec.bad(
                f"{key}|{name}|{patname(T[b], nx)}",
                f"{name} {'null' if not null[b, i] else 'not null'} at "
                f"{divmod(int(i), nx)}: nearest target at {best[b, i]}",
                detail(b),
            )
            return
    ok = ~null
    with np.errstate(all="ignore"):
        k = ok & ~(np.abs(p - best) <= tol * (1 + best))
    if k.any():
        b, i = np.argwhere(k)[0]
        rec.bad(
            f"{key}|proximity|{patname(T[b], nx)}",
            f"cell {divmod(int(i), nx)}: {p[b, i]} expected {best[b, i]}",
            detail(b),
        )
        return
    # the candidates: the targets that are equally near
    with np.errstate(all="ignore"):
        cand = T[:, None, :] & (
            near <= (best * (1 + tol) + tol)[..., None]
        )
    val = m.data.reshape(nb, -1)
    with np.errstate(all="ignore"):
        by_val = cand & (val[:, None, :] == al[:, :, None])
    k = ok & ~by_val.any(-1) & ~free
    if k.any():
        b, i = np.argwhere(k)[0]
        rec.bad(
            f"{key}|allocation|{patname(T[b], nx)}",
            f"cell {divmod(int(i), nx)}: {al[b, i]} expected one of "
            f"{val[b][cand[b, i]].tolist()}", detail(b),
        )
        return
    off = np.abs(A[None] - d[:, :, None]) <= 360 * 1e-6
    both = (by_val | free[..., None] if ids else cand) & cand & off
    k = ok & ~both.any(-1)
    if k.any():
        b, i = np.argwhere(k)[0]
        rec.bad(
            f"{key}|direction|{patname(T[b], nx)}",
            f"cell {divmod(int(i), nx)}: {d[b, i]} expected one of "
            f"{A[i][cand[b, i]].tolist()} (allocation {al[b, i]})", detail(b),
        )


def patname(t, nx):
    """Where the targets are."""
    return " ".join(f"{i // nx},{i % nx}" for i in np.flatnonzero(t))


def grid(ny, nx, x0, y0, ax, ay):
    return x0 + ax * np.arange(nx), y0 - ay * np.arange(ny)


def call(m, lay, metric, md, dbl, tv=None):
    from raster_tools import distance

    return distance.proximity_analysis(
        build(m, lay), tv, distance_metric=metric, max_distance=md,
        double_precision=dbl,
    )


def sets(ny, nx, kmax):
    n = ny * nx
    if kmax is None:
        b = np.arange(2**n)
        return (b[:, None] >> np.arange(n)) & 1
    out = []
    for k in range(0, kmax + 1):
        for s in itertools.combinations(range(n), k):
            a = np.zeros(n, int)
            a[list(s)] = 1
            out.append(a)
    return np.array(out)


def case_patterns(rec, c):
    ny, nx, kmax, cell, metric, md, split, part, parts = c
    pats = sets(ny, nx, kmax)[part::parts]
    x, y = grid(ny, nx, 105.0, 995.0, *cell)
    ids = (np.arange(ny * nx) + 2) * pats
    m = M(ids.reshape(-1, ny, nx).astype("int32"), None, None, x, y)
    lay = ((ny,), (nx,)) if not split else (
        (1, ny - 1), (nx - 2, 2))
    outs = call(m, lay, metric, md, True)
    n = len(pats)
    rec.trans(3 * n)
    rec.trace(n)
    for q in pats:
        rec.state(ny, nx, q.tobytes(), cell, metric, md, split)
    judge(
        rec, f"{'pairs' if kmax else 'all'}|{metric}|{ny}x{nx}", m,
        m.data > 0, outs, metric, md, True,
        lambda b: {"case": c, "targets": m.data[b].tolist()},
    )


def case_far(rec, c):
    """Three targets: the proximities alone, every deviation on its own."""
    from raster_tools import distance

    ny, nx, metric, part, parts = c
    pats = sets(ny, nx, 3)
    pats = pats[pats.sum(1) == 3][part::parts]
    x, y = grid(ny, nx, 105.0, 995.0, 10.0, 10.0)
    m = M(pats.reshape(-1, ny, nx).astype("int32"), None, None, x, y)
    got = observe(
        distance.pa_proximity(
            build(m, ((ny,), (nx,))), distance_metric=metric,
            double_precision=True,
        )
    ).data.reshape(len(pats), -1)
    D = distances(metric, x, y)
    best = np.where(pats[:, None, :] > 0, D[None], np.inf).min(-1)
    rec.trans(len(pats))
    rec.trace(len(pats))
    rec.outcome(got.tobytes())
    for q, g, b in zip(pats, got, best):
        rec.state(ny, nx, metric, q.tobytes())
        if np.abs(g - b).max() > 1e-9 * (1 + b.max()):
            i = int(np.abs(g - b).argmax())
            rec.bad(
                f"{metric}|{ny}x{nx}|{patname(q, nx)}",
                f"cell {divmod(i, nx)}: {g[i]} expected {b[i]}",
                q.reshape(ny, nx).tolist(),
            )


def some(ny, nx, n, most=3):
    """n spread target sets"""
    out = []
    for k in range(n):
        a = np.zeros(ny * nx, int)
        for j in range(1 + k % most):
            a[(k * 5 + j * 7 + k * j) % (ny * nx)] = 1
        out.append(a)
    return np.array(out)


def case_layouts(rec, c):
    ny, nx, dt, masked, cell, metric, md, lay = c
    pats = some(ny, nx, 6)
    x, y = grid(ny, nx, -cell[0] * 1.0, cell[1] * 1.0, *cell)
    ids = ((np.arange(ny * nx) + 2) * pats).reshape(-1, ny, nx).astype(dt)
    if masked:
        mask = ids == 0
        nv = np.nan if np.dtype(dt).kind == "f" else 1
        m = M(ids, mask, nv, x, y)
        tgt = ~mask
    else:
        m = M(ids, None, None, x, y)
        tgt = ids != 0
    outs = call(m, lay, metric, md, False)
    rec.trans(3 * len(pats))
    rec.trace()
    rec.state(c)
    judge(
        rec, f"layouts|{dt}|{masked}|{metric}", m, tgt, outs, metric, md,
        False, lambda b: {"case": c, "targets": m.data[b].tolist()},
    )


def case_types(rec, c):
    dt, state, tv, md, dbl, lay = c
    ny, nx = 3, 4
    k = np.dtype(dt).kind
    a = np.array([[0, 3, 0, 5], [2, 0, 0, 3], [0, 0, 7, 1]])[None]
    a = (a > 2) if k == "b" else a.astype(dt)
    if k == "f":
        a[0, 0, 2], a[0, 1, 1] = np.inf, -np.inf
    mask = np.zeros(a.shape, bool)
    nv = None
    if state != "none":
        mask[0, 1, 0] = mask[0, 2, 1] = mask[0, 0, 3] = True
        nv = {"default": default_null(dt), "nan": np.nan, "two": 2}[state]
        if k == "b":
            nv = True
            a = np.where(mask, True, False)
    m = M(a, mask if nv is not None else None, nv)
    with np.errstate(all="ignore"):
        tgt = np.isin(a, tv) if tv else (a != 0) & np.isfinite(
            a.astype("float64"))
    tgt &= ~mask
    outs = call(m, lay, "euclidean", md, dbl, tv)
    rec.trans(3)
    rec.trace()
    rec.state(c)
    judge(
        rec, f"types|{dt}|{state}", m, tgt, outs, "euclidean", md, dbl,
        lambda b: c, ids=False,
    )


def case_globe(rec, c):
    lon0, lat0, cell, ny, nx, mul, side, dt, lay, part = c
    x, y = grid(ny, nx, lon0, lat0, *cell)
    pats = sets(ny, nx, 1)[1:] if part == 1 else some(ny, nx, 12, 2)
    ids = ((np.arange(ny * nx) + 2) * pats).reshape(-1, ny, nx).astype(dt)
    m = M(ids, None, None, x, y, "EPSG:4326")
    if np.dtype(dt).kind == "f":
        m = M(ids, ids == 0, np.nan, x, y, "EPSG:4326")
    D = distances("haversine", x, y).reshape(ny, nx, ny, nx)
    if mul is None:
        md = np.inf
    else:
        # between lattice distances, so that rounding does not decide
        edge = {"low": np.argmin(np.abs(y)), "high": np.argmax(np.abs(y))}
        r = edge[side] if side in edge else 0
        md = (D[r, 0, r, 1] if side in edge else D[0, 0, 1, 0]) * mul
        gap = np.abs(D - md).min() / md
        if gap < 1e-9:
            md *= 1 + 1e-7
    outs = call(m, lay, "haversine", md, True)
    rec.trans(3 * len(pats))
    rec.trace()
    rec.state(c)
    judge(
        rec, f"globe|{lat0}|{cell[1]}", m, ids > 0, outs, "haversine", md,
        True, lambda b: {"case": c, "targets": m.data[b].tolist()},
    )


NAMES = {
    "euclidean": (None, "euclidean"),
    "taxi": ("taxi", "taxicab", "manhatten", "city_block"),
    "chebyshev": ("chebyshev", "chessboard"),
    "haversine": ("haversine", "great_circle"),
}


def case_names(rec, c):
    from raster_tools import distance

    kind, arg = c
    a = np.zeros((1, 3, 4), "int32")
    a[0, 0, 0], a[0, 2, 2] = 5, 6
    x, y = grid(3, 4, 10.0, 50.0, 1.0, 2.0)
    m = M(a, None, None, x, y, "EPSG:4326")
    lay = ((3,), (4,))
    rec.state(c)
    rec.trans(4)
    rec.trace()
    if kind == "metric":
        base, name = arg
        outs = call(m, lay, name, np.inf, True)
        judge(rec, f"names|{name}", m, a != 0, outs, base, np.inf, True,
              lambda b: c)
        one = [
            distance.pa_proximity(build(m, lay), distance_metric=name,
                                  double_precision=True),
            distance.pa_direction(build(m, lay), distance_metric=name,
                                  double_precision=True),
            distance.pa_allocation(build(m, lay), distance_metric=name,
                                   double_precision=True),
        ]
        for u, v in zip(outs, one):
            if observe(u).canon() != observe(v).canon():
                rec.bad(f"names|{name}|single", "proximity_analysis differs "
                        "from the single function", c)
        return
    kw = dict(arg)
    for f in ("pa_proximity", "pa_direction", "pa_allocation",
              "proximity_analysis"):
        try:
            getattr(distance, f)(build(m, lay), **kw)
        except ValueError:
            continue
        rec.bad(f"names|refused|{f}", f"accepted {kw}", c)


def run(ctx):
    with ctx.joint():
        explore(ctx)


def explore(ctx):
    t = ctx.thorough
    cases = []
    sq, tall = (10.0, 10.0), (10.0, 30.0)
    for metric in PLANE:
        for cell, md, split in (
            (sq, np.inf, False), (sq, 25.0, True), (sq, 10.0, True),
            (tall, 25.0, True),
        ):
            cases.append((2, 4, None, cell, metric, md, split, 0, 1))
            if t or (cell == sq and md == 25.0):
                cases.append((3, 3, None, cell, metric, md, split, 0, 1))
            if t:
                cases += [
                    (3, 4, None, cell, metric, md, split, q, 16)
                    for q in range(16)
                ]
            elif (metric, cell, md) == ("euclidean", sq, np.inf):
                cases += [
                    (3, 4, None, cell, metric, md, split, q, 32)
                    for q in range(0, 32, 4)
                ]
        if t:
            cases += [
                (4, 4, None, sq, metric, np.inf, False, q, 64)
                for q in range(64)
            ]
    ctx.explore("patterns", cases, case_patterns,
                affinity=lambda c: (c[4], "int32", True, c[7] % 3))

    cases = []
    for metric in PLANE:
        for ny, nx, cell in ((5, 5, sq), (4, 6, (10.0, 50.0))) + (
            ((7, 7, sq), (6, 6, (30.0, 10.0))) if t else ()
        ):
            for md in (np.inf, 30.0):
                if not t and (ny == 5) != (md == 30.0):
                    continue
                cases += [
                    (ny, nx, 2, cell, metric, md, md == 30.0, q, 2)
                    for q in range(2)
                ]
    ctx.explore("pairs", cases, case_patterns,
                affinity=lambda c: (c[4], "int32", True, c[7] % 3))
    cases = [(5, 5, "euclidean", q, 16) for q in range(16)]
    if t:
        cases += [
            (5, 5, k, q, 16) for q in range(16)
            for k in ("taxi", "chebyshev")
        ]
    ctx.explore("far", cases, case_far,
                affinity=lambda c: (c[2], "int32", True, c[3] % 3))

    cases = []
    shapes = ((3, 4), (4, 5)) if t else ((3, 4),)
    for ny, nx in shapes:
        for lay in chunkings(ny, nx):
            for dt, masked in (("int32", False), ("float32", True)) + (
                (("int16", True), ("uint8", False)) if t else ()
            ):
                for cell, metric, md in (
                    ((10.0, 10.0), "euclidean", 20.0),
                    ((10.0, 4.0), "euclidean", 12.0),
                    ((10.0, 10.0), "taxi", 30.0),
                    ((10.0, 10.0), "chebyshev", 10.0),
                ):
                    if not t and (
                        (metric != "euclidean") != (len(lay[0]) % 2 == 0)
                        or dt == "float32" and len(lay[1]) == 2
                    ):
                        continue
                    cases.append((ny, nx, dt, masked, cell, metric, md, lay))
    ctx.explore("layouts", cases, case_layouts,
                affinity=lambda c: (c[5], c[2], False, 0))

    cases = []
    one, two = ((3,), (4,)), ((1, 2), (2, 2))
    for dt in ALL_DTYPES:
        k = np.dtype(dt).kind
        for state in ("none", "default", "two") + (
            ("nan",) if k == "f" else ()
        ):
            if k == "b" and state == "two":
                continue
            for tv in (None, [3], [0, 7], [2.0], [3.0, -1.0]):
                if not t and tv not in (None, [0, 7]) and dt not in (
                    "uint8", "int32", "float32"
                ):
                    continue
                for md, lay in ((np.inf, one), (15.0, two)):
                    for dbl in (False, True):
                        if not t and (
                            dbl != (k == "u") or md != 15.0 and tv
                        ):
                            continue
                        cases.append((dt, state, tv, md, dbl, lay))
    ctx.explore("types", cases, case_types, affinity=lambda c: ("euclidean", c[0], c[4], 0))

    cases = []
    n = 0
    for lon0, lat0, cell in (
        (-3.0, 3.0, (1.0, 1.0)), (10.0, 89.5, (6.0, 1.0)),
        (-100.0, 75.0, (4.0, 2.0)), (20.0, -80.0, (4.0, 2.0)),
        (200.0, -40.0, (2.0, 4.0)), (-60.0, -84.5, (15.0, 1.0)),
    ):
        for ny, nx in ((4, 6),) + (((3, 9),) if t else ()):
            for mul, side in (
                (None, "low"), (1.2, "low"), (2.2, "high"), (4.95, "high"),
                (3.3, "high"), (1.01, "y"), (2.5, "y"),
            ):
                for dt in ("int32", "float32"):
                    for lay in (
                        ((ny,), (nx,)), ((1, ny - 1), (nx - 4, 2, 2)),
                        ((1,) * ny, (1,) * nx),
                    ):
                        for part in (1, 2):
                            n += 1
                            if not t and n % 13:
                                continue
                            cases.append((lon0, lat0, cell, ny, nx, mul,
                                          side, dt, lay, part))
    ctx.explore("globe", cases, case_globe, affinity=lambda c: ("haversine", c[7], True, 0))

    cases = [
        ("metric", (base, q)) for base, names in NAMES.items() for q in names
    ]
    cases += [
        ("refused", q) for q in (
            (("max_distance", 0),), (("max_distance", -5.0),),
            (("distance_metric", "euclid"),),
            (("target_values", (np.nan,)),),
            (("target_values", ((1, 2), (3, 4))),),
        )
    ]
    ctx.explore(
        "names", cases, case_names,
        affinity=lambda c: (
            c[1][0] if c[0] == "metric" else "euclidean", "int32", True, 0
        ),
    )
