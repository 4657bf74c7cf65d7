"""C33 point extraction reads the cell that contains each point."""

import itertools
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    compositions,
    default_null,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "points on the complete half-cell lattice of the grid and its "
    "surroundings x dtype x null pattern x bands x partitioning x chunk layout"
)
BOUNDS = (
    "2x2 and 3x2 grids, every point of the half-cell lattice up to one cell "
    "outside, 1..3 bands, all partitionings of 5 points"
)
PID_COORDS = [(10.0, 105.0, 995.0), (0.5, -3.25, 7.75), (30.0, 45.0, 165.0)]


def raster(dt, nb, ny, nx, pattern, grid=0, masked=True):
    res, x0, y0 = PID_COORDS[grid]
    a = np.arange(nb * ny * nx).reshape(nb, ny, nx)
    d = (a % 2 == 0) if dt == "bool" else (a * 3 + 1).astype(dt)
    k = np.zeros(a.shape, bool)
    k[0].ravel()[:] = pattern
    for b in range(1, nb):
        k[b] = np.roll(k[0].ravel(), b).reshape(ny, nx)
    return M(
        d, k if masked else None, default_null(dt) if masked else None,
        x0 + np.arange(nx) * res, y0 - np.arange(ny) * res,
    ), res


def lattice(m, res):
    """(x, y, row, col) for the half-cell lattice in and around the grid."""
    _, ny, nx = m.shape
    out = []
    for i2 in range(-2, 2 * ny + 3):
        for j2 in range(-2, 2 * nx + 3):
            x = m.x[0] - res / 2 + j2 * res / 2
            y = m.y[0] + res / 2 - i2 * res / 2
            out.append((x, y, i2 // 2, j2 // 2))
    return out


def expected(m, pts):
    nb, ny, nx = m.shape
    out = np.full((nb, len(pts)), np.nan)
    for b in range(nb):
        for i, (_, _, r, c) in enumerate(pts):
            if r is None or not (0 <= r < ny and 0 <= c < nx):
                continue
            if not m.mask[b, r, c]:
                out[b, i] = m.data[b, r, c]
    return out


def vector(pts, parts=None, crs="EPSG:5070", index=None):
    import dask_geopandas as dgpd
    import geopandas as gpd
    from shapely.geometry import Point

    geoms = [Point() if p[2] is None else Point(p[0], p[1]) for p in pts]
    g = gpd.GeoDataFrame(
        {"v": np.arange(len(pts))}, geometry=geoms, crs=crs, index=index
    )
    if parts is None:
        return g
    import dask.dataframe as dd

    cuts = np.cumsum((0,) + tuple(parts))
    frames = [g.iloc[a:b] for a, b in zip(cuts, cuts[1:], strict=False)]
    divs = tuple(int(g.index[a]) for a in cuts[:-1]) + (int(g.index[-1]),)
    import dask

    meta = g.iloc[:0]
    d = dd.from_delayed(
        [dask.delayed(f) for f in frames], meta=meta, divisions=divs
    )
    assert isinstance(d, dgpd.GeoDataFrame)
    return d


def judge(rec, key, m, pts, r, vec, axis, col="extracted", **kw):
    from raster_tools.zonal import extract_points_eager

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = extract_points_eager(
            vec, r, axis=axis, **({} if col == "extracted" else
                                  {"column_name": col}), **kw
        ).compute()
    rec.trans()
    rec.trace()
    want = expected(m, pts)
    nb, n = want.shape
    f = []
    if axis == 0:
        if list(out.columns) != ["band", col]:
            f.append(f"columns {list(out.columns)}")
        elif len(out) != nb * n:
            f.append(f"{len(out)} rows for {n} points and {nb} bands")
        else:
            if out["band"].tolist() != np.repeat(
                np.arange(1, nb + 1), n
            ).tolist():
                f.append(f"bands {out['band'].tolist()}")
            if out.index.tolist() != list(range(nb * n)):
                f.append("index is not 0..N-1")
            got = out[col].to_numpy().reshape(nb, n)
    else:
        if list(out.columns) != [f"{col}_{b + 1}" for b in range(nb)]:
            f.append(f"columns {list(out.columns)}")
        elif len(out) != n:
            f.append(f"{len(out)} rows for {n} points")
        else:
            got = out.to_numpy().T
    if not f:
        ok = (got == want) | (np.isnan(got) & np.isnan(want))
        if not ok.all():
            b, i = np.argwhere(~ok)[0]
            f.append(
                f"point {pts[i]} band {b + 1}: {got[b, i]!r} expected "
                f"{want[b, i]!r}"
            )
    if f:
        rec.bad(key, "; ".join(f)[:900])
    rec.outcome(key, int(np.isnan(want).sum()))


def case_lattice(rec, c):
    dt, nb, ny, nx, pattern, grid, masked, axis = c
    m, res = raster(dt, nb, ny, nx, pattern, grid, masked)
    pts = lattice(m, res)
    pts.insert(3, (0.0, 0.0, None, None))  # an empty point
    r = build(m, ((1,) * ny, (nx,)))
    for p in pts:
        rec.state(c, p)
    judge(rec, f"lattice|{dt}|{nb}|{int(masked)}|{axis}", m, pts, r,
          vector(pts), axis)
    f = compare(observe(r), m.burned())
    if f:
        rec.bad("mutated", "; ".join(f)[:500])


def case_layout(rec, c):
    dt, nb, parts, ch, axis = c
    m, res = raster(dt, nb, 3, 2, [0, 1, 0, 0, 1, 0])
    lat = lattice(m, res)
    pick = [31, 3, 43, 22, 49]
    pts = [lat[i % len(lat)] for i in pick]
    r = build(m, ch)
    if parts == "gdf":
        vec = vector(pts)
    elif parts == "vector":
        from raster_tools.vector import Vector

        vec = Vector(vector(pts))
    elif parts == "gapindex":
        vec = vector(pts, index=[0, 3, 7, 7, 9])
    elif parts == "series":
        vec = vector(pts).geometry
    else:
        vec = vector(pts, parts)
    rec.state(c)
    judge(rec, f"layout|{parts}|{len(ch[0])}|{len(ch[1])}|{axis}", m, pts, r,
          vec, axis, "val", skip_validation=(len(ch[0]) != 2))


def case_one(rec, c):
    """Single points and repeated points; other CRS."""
    dt, i, axis = c
    m, res = raster(dt, 2, 3, 2, [0, 1, 0, 0, 0, 0])
    lat = lattice(m, res)
    r = build(m, ((2, 1), (1, 1)))
    p = lat[i]
    judge(rec, f"single|{axis}", m, [p], r, vector([p]), axis)
    judge(rec, f"repeat|{axis}", m, [p, p, p], r, vector([p] * 3, (2, 1)),
          axis)
    rec.state(c)
    # only cell centres survive reprojection exactly
    if p[2] is not None and (p[0] - m.x[0]) % res == 0 and (
        p[1] - m.y[0]
    ) % res == 0:
        g = vector([p, p]).to_crs("EPSG:4326")
        judge(rec, f"crs|{axis}", m, [p, p], r, g, axis)


def run(ctx):
    cases = []
    for pattern in itertools.product((0, 1), repeat=4):
        cases.append(("float32", 1, 2, 2, pattern, 0, True,
                      sum(pattern) % 2))
    for dt in ALL_DTYPES:
        for nb in (1, 2, 3):
            for masked in (False, True):
                for axis in (0, 1):
                    for grid in (0, 1, 2) if ctx.thorough else (nb - 1,):
                        cases.append((dt, nb, 3, 2, (0, 1, 0, 0, 1, 1), grid,
                                      masked, axis))
    ctx.explore("cells and edges", cases, case_lattice)
    parts = list(compositions(5)) + ["gdf", "vector", "gapindex", "series"]
    chs = chunkings(3, 2) if ctx.thorough else chunkings(3, 2)[::3]
    ctx.explore(
        "layouts",
        [
            (dt, nb, p, ch, axis)
            for dt in (("int16", "float64") if ctx.thorough else ("int16",))
            for nb in ((1, 2, 3) if ctx.thorough else (2,))
            for p in parts for ch in chs for axis in (0, 1)
        ],
        case_layout,
    )
    ctx.explore(
        "single points",
        [("int32", i, axis) for i in range(99) for axis in (0, 1)
         if i < 11 * 9],
        case_one,
    )
