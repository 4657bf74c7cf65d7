"""C23 clipping keeps exactly the cells on the right side."""

import itertools
import math
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every point, segment, box and triangle whose corners lie on a lattice in "
    "general position over the grid, and feature pairs, x operation; x dtype "
    "x null state x bands x chunk layout for fixed features"
)
BOUNDS = "4x4 and 3x5 grids of 10 m cells, lattice of two points per cell side"
ASSUMPTIONS = [
    "cells that features touch only at their border (within 1/1000 cell) are "
    "not judged",
    "results one cell wide are widened by the underlying crop; any window "
    "that contains the bounds and adds at most two cells is accepted",
]
RES = 10.0
OPS = ("clip", "erase", "mask", "mask_invert", "envelope")


def raster(dt, nb, ny, nx, masked, nv=None):
    a = np.arange(nb * ny * nx).reshape(nb, ny, nx)
    d = (a % 2 == 0) if dt == "bool" else (a % 100 + 1).astype(dt)
    k = (a * 5) % 7 == 2
    if masked and nv is None:
        nv = default_null(dt)
    return M(d, k if masked else None, nv if masked else None)


def to_xy(m, u, v):
    """Cell units (column, row from the top) to coordinates."""
    return m.x[0] - RES / 2 + u * RES, m.y[0] + RES / 2 - v * RES


def geometry(m, spec):
    from shapely.geometry import (
        LineString,
        MultiPolygon,
        Point,
        Polygon,
        box,
    )

    kind, *pts = spec
    if kind == "box":
        (u0, v0), (u1, v1) = pts
        x0, y1 = to_xy(m, u0, v0)
        x1, y0 = to_xy(m, u1, v1)
        return box(x0, y0, x1, y1)
    if kind == "hole":
        a = [to_xy(m, *p) for p in pts]
        c = np.mean(a, axis=0)
        inner = [tuple(c + (np.array(p) - c) * 0.55) for p in a]
        return Polygon(a, [inner])
    if kind == "multi":
        return MultiPolygon([geometry(m, p) for p in pts])
    a = [to_xy(m, *p) for p in pts]
    if kind == "point":
        return Point(a[0])
    if kind == "line":
        return LineString(a)
    return Polygon(a)


def touch(m, geoms):
    """1 touched, 0 not touched, -1 not judged."""
    from shapely.geometry import box
    from shapely.ops import unary_union

    g = unary_union(geoms)
    _, ny, nx = m.shape
    out = np.zeros((ny, nx), int)
    e = RES / 1000
    for i in range(ny):
        for j in range(nx):
            b = box(
                m.x[j] - RES / 2, m.y[i] - RES / 2,
                m.x[j] + RES / 2, m.y[i] + RES / 2,
            )
            big, small = b.buffer(e).intersects(g), b.buffer(-e).intersects(g)
            out[i, j] = 1 if small else (-1 if big else 0)
    return out


def window(lo, hi, n):
    a, b = max(math.floor(lo), 0), min(math.ceil(hi), n)
    if a == b and 0 <= a < n:
        b = a + 1
    return list(range(a, b))


def apply_op(op, feat, r, bounds=None):
    from raster_tools import clipping as cl

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if op == "clip":
            return cl.clip(feat, r, bounds=bounds)
        if op == "erase":
            return cl.erase(feat, r, bounds=bounds)
        if op == "mask":
            return cl.mask(feat, r)
        if op == "mask_invert":
            return cl.mask(feat, r, invert=True)
        return cl.envelope(feat, r)


def judge(rec, key, m, r, geoms, op, feat=None, bounds=None):
    import geopandas as gpd

    if feat is None:
        feat = gpd.GeoDataFrame(
            {"v": np.arange(len(geoms))}, geometry=geoms, crs=m.crs
        )
    _, ny, nx = m.shape
    X0, Y0 = m.x[0] - RES / 2, m.y[0] + RES / 2
    if bounds is None:
        from shapely.ops import unary_union

        bx = unary_union(geoms).bounds
    else:
        bx = tuple(bounds)
    lo_c, hi_c = (bx[0] - X0) / RES, (bx[2] - X0) / RES
    lo_r, hi_r = (Y0 - bx[3]) / RES, (Y0 - bx[1]) / RES
    rows, cols = window(lo_r, hi_r, ny), window(lo_c, hi_c, nx)
    if op.startswith("mask"):
        rows, cols = list(range(ny)), list(range(nx))
    rec.trans()
    try:
        g = apply_op(op, feat, r, bounds)
    except RuntimeError as e:
        rec.trace()
        if rows and cols:
            rec.bad(key + "|refused", f"{bx}: {e}"[:500])
        return
    o = observe(g)
    rec.trace()
    if not rows or not cols:
        # near misses may be widened into the raster; far ones must not be
        far = hi_r <= -3 or lo_r >= ny + 3 or hi_c <= -3 or lo_c >= nx + 3
        if far:
            rec.bad(key + "|outside", f"{bx} gave {o.data.shape}")
        return
    if not np.allclose(np.diff(o.x), RES) or not np.allclose(
        np.diff(o.y), -RES
    ):
        rec.bad(key + "|grid", f"x={o.x} y={o.y}")
        return
    i0 = int(round((m.y[0] - o.y[0]) / RES))
    j0 = int(round((o.x[0] - m.x[0]) / RES))
    R = list(range(i0, i0 + o.data.shape[1]))
    C = list(range(j0, j0 + o.data.shape[2]))
    if len(rows) > 1 and len(cols) > 1:
        ok = R == rows and C == cols
    else:
        ok = (
            R[0] >= 0 and C[0] >= 0 and R[-1] < ny and C[-1] < nx
            and set(rows) <= set(R) and set(cols) <= set(C)
            and len(R) <= len(rows) + 2 and len(C) <= len(cols) + 2
        )
    if not ok:
        rec.bad(
            key + "|window", f"rows {R} cols {C}, expected {rows} {cols}",
            str(geoms),
        )
        return
    t = touch(m, geoms)[np.ix_(R, C)]
    if op == "envelope":
        keep = np.ones_like(t)
    elif op in ("erase", "mask_invert"):
        keep = np.where(t < 0, -1, 1 - t)
    else:
        keep = t
    i = np.ix_(range(m.shape[0]), R, C)
    data, mask = m.data[i].copy(), m.mask[i].copy()
    mask |= (keep == 0)[None]
    # cells that are not judged take the observed state
    free = np.broadcast_to((keep < 0)[None], mask.shape) & ~mask
    if o.mask.shape == mask.shape:
        mask = np.where(free, o.mask, mask)
    nv = m.nv if m.nv is not None else default_null(m.dtype)
    want = m.copy(data=data, mask=mask, x=m.x[C], y=m.y[R], nv=nv).burned()
    f = invariants(o) + compare(o, want)
    if f:
        rec.bad(key, "; ".join(f)[:1000], (str(geoms), repr(m)[:400]))
    rec.outcome(op, mask.tobytes())
    for q in range(o.data.shape[1] * o.data.shape[2]):
        rec.state(str(geoms), op, q)


def case_shapes(rec, c):
    ny, nx, masked, ch, op, specs = c
    m = raster("int16", 1, ny, nx, masked)
    r = build(m, ch)
    for spec in specs:
        judge(rec, f"{spec[0]}|{op}", m, r, [geometry(m, spec)], op)
    f = compare(observe(r), m.burned())
    if f:
        rec.bad("mutated", "; ".join(f)[:500])


def case_sets(rec, c):
    specs, op, parts = c
    import dask_geopandas as dgpd
    import geopandas as gpd

    m = raster("float32", 2, 4, 4, True)
    r = build(m, ((2, 2), (1, 3)))
    geoms = [geometry(m, s) for s in specs]
    feat = gpd.GeoDataFrame({"v": range(len(geoms))}, geometry=geoms,
                            crs=m.crs)
    if parts == "4326":
        feat = feat.to_crs("EPSG:4326")
    elif parts == "vector":
        from raster_tools.vector import Vector

        feat = Vector(feat)
    elif parts > 1:
        feat = dgpd.from_geopandas(feat, npartitions=parts)
    judge(rec, f"set|{op}|{parts}", m, r, geoms, op, feat)


FIXED = [
    ("tri", (0.3, 0.3), (3.7, 0.7), (1.3, 3.3)),
    ("line", (0.3, 2.7), (2.7, 0.3)),
    ("box", (1.3, 1.3), (2.7, 3.7)),
]


def case_raster(rec, c):
    dt, nb, masked, nv, ny, nx, ch, op, bounds = c
    m = raster(dt, nb, ny, nx, masked, nv)
    r = build(m, ch)
    for spec in FIXED[: 2 if bounds is None else 3]:
        bx = None
        if bounds is not None:
            u0, v0, u1, v1 = bounds
            x0, y1 = to_xy(m, u0, v0)
            x1, y0 = to_xy(m, u1, v1)
            bx = (x0, y0, x1, y1)
        judge(rec, f"raster|{dt}|{nb}|{int(masked)}|{op}|{bounds}", m, r,
              [geometry(m, spec)], op, bounds=bx)


def groups(specs, n):
    return [tuple(specs[i : i + n]) for i in range(0, len(specs), n)]


def run(ctx):
    lat = [k + f for k in range(4) for f in (0.3, 0.7)]
    out = [-0.7, *lat, 4.3]
    pts = list(itertools.product(lat, lat))
    points = [("point", p) for p in itertools.product(out, out)
              if not (min(p) < 0 or max(p) > 4)]
    segs = [("line", p, q) for p, q in itertools.combinations(pts, 2)]
    if not ctx.thorough:
        segs = segs[::9]
    boxes = [
        ("box", (u0, v0), (u1, v1))
        for u0, u1 in itertools.combinations(out, 2)
        for v0, v1 in itertools.combinations(out, 2)
    ]
    coarse = list(itertools.product((0.3, 1.7, 2.3, 3.7), repeat=2))
    tris = [
        (kind, a, b, c)
        for a, b, c in itertools.combinations(coarse, 3)
        if abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
        > 0.2
        for kind in ("tri", "hole")
    ]
    some_tris = tris[40], tris[501]
    if not ctx.thorough:
        # tri, hole, hole, tri, ...: both kinds keep taking part
        tris = [t for i, t in enumerate(tris) if i % 4 in (0, 3)]
    chs = chunkings(4, 4)
    cases = []
    i = 0
    for name, specs, ops in (
        ("point", points, OPS), ("seg", segs, ("mask", "clip")),
        ("box", boxes, OPS), ("tri", tris, ("clip", "mask_invert")),
    ):
        for op_i, op in enumerate(ops):
            sel = specs
            if not ctx.thorough and name != "point":
                # every shape once: the operations take turns
                sel = specs[op_i % len(ops) :: len(ops)]
                if name == "box":
                    sel = sel[::4]
            for grp in groups(sel, 40):
                cases.append((4, 4, bool(i % 2), chs[i % len(chs)], op, grp))
                i += 1
    ctx.explore("shapes", cases, case_shapes)
    some = [points[0], points[27], points[-1], segs[100], segs[200],
            boxes[700], boxes[1500], *some_tris,
            ("multi", ("box", (0.3, 0.3), (0.7, 0.7)),
             ("box", (2.3, 1.3), (3.7, 2.7)))]
    cases = [
        (sel, op, parts)
        for sel in itertools.permutations(some, 2)
        for op, parts in itertools.product(
            ("clip", "erase", "mask", "mask_invert"), (1, 2, "vector", "4326")
        )
    ]
    if not ctx.thorough:
        cases = cases[::5]
    ctx.explore("feature sets", cases, case_sets)
    cases = []
    for dt in ALL_DTYPES:
        for nb in (1, 2, 3):
            nvs = [(False, None), (True, None)]
            if dt.startswith("float"):
                nvs.append((True, np.nan))
            for masked, nv in nvs:
                for oi, op in enumerate(OPS):
                    if not ctx.thorough and (oi + nb + masked) % 5 > 1 and (
                        dt not in ("uint8", "float32")
                    ):
                        continue
                    bs = [None]
                    if op in ("clip", "erase"):
                        bs += [(0.3, 0.3, 2.7, 3.7)]
                    for b in bs:
                        ch = chunkings(4, 4)[(nb * 7 + oi * 11) % 64]
                        cases.append((dt, nb, masked, nv, 4, 4, ch, op, b))
    for ci, ch in enumerate(chunkings(3, 5)):
        for op in OPS if ctx.thorough else (OPS[ci % 5],):
            cases.append(("float64", 2, True, np.nan, 3, 5, ch, op, None))
    for ch in chunkings(4, 4)[:: 4 if ctx.thorough else 9]:
        for b in ((0.3, 0.3, 1.7, 1.7), (-0.7, -0.7, 4.7, 4.7),
                  (2.3, 0.7, 3.7, 1.3), (7.0, 7.0, 9.0, 9.0)):
            for op in ("clip", "erase"):
                cases.append(("int16", 1, True, None, 4, 4, ch, op, b))
    ctx.explore("rasters", cases, case_raster)
