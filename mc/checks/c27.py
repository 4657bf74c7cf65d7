"""C27 line length statistics."""

import itertools

import numpy as np

from mc.model import M, build, chunkings, default_null, invariants, observe

LEVEL = "model_checking"
RULE = (
    "sets: every set of up to two (three) features of a catalogue of line "
    "shapes x radius; weights: every weight type and value pattern x field "
    "name; layouts: every chunk layout of the grid x number of partitions of "
    "the features; many: enough features and vertices to be worked on in "
    "batches; form: dtype, bands and null state of the template raster, "
    "reprojected features, refused arguments. Oracle: lengths of the shapely "
    "intersections with the discs of the radius and of 0.98 times the radius "
    "(the circle may be approximated by an inscribed 16-gon or better)"
)
BOUNDS = "4x5 and 3x3 grids, up to 3 features (batches: 1500), 4 partitions"
ASSUMPTIONS = [
    "lines that run along the rim of a neighbourhood are not in the catalogue",
]
INNER = float(np.cos(np.pi / 16))


def catalogue():
    from shapely.geometry import LinearRing, LineString, MultiLineString

    return {
        "h": LineString([(100, 984), (150, 984)]),
        "d": LineString([(99, 1001), (141, 959)]),
        "v": LineString([(126, 900), (126, 1100)]),
        "parts": MultiLineString(
            [[(101, 999), (120, 997)], [(131, 961), (149, 990)]]
        ),
        "ring": LinearRing([(110, 970), (130, 970), (130, 991)]),
        "far": LineString([(0, 0), (50, 50)]),
        "short": LineString([(114.2, 985.5), (115.9, 984.6)]),
        "bend": LineString([(60, 981), (101, 981), (60, 1003)]),
        "corner": LineString([(75, 1000), (85, 1030)]),
        "zigzag": LineString(
            [(100 + i, 979 + 3 * (i % 2)) for i in range(41)]
        ),
        "over": LineString([(103, 966), (143, 966), (103, 966.5)]),
    }


def discs(x, y, r):
    from shapely.geometry import Point

    out = []
    for q in (r * INNER, r):
        out.append([Point(a, b).buffer(q, 64) for b in y for a in x])
    return out


def bounds(m, r, geoms, w):
    import shapely

    lo = np.zeros(m.shape[1] * m.shape[2])
    hi = lo.copy()
    size = lo.copy()
    inner, outer = (np.array(q) for q in discs(m.x, m.y, r))
    for g, k in zip(geoms, w):
        a = k * shapely.length(shapely.intersection(inner, g))
        b = k * shapely.length(shapely.intersection(outer, g))
        lo += np.minimum(a, b)
        hi += np.maximum(a, b)
        size += np.abs(b)
    tol = 2e-3 * size + 1e-6
    s = m.shape[1:]
    return (lo - tol).reshape(s), (hi + tol).reshape(s)


def vector(geoms, w, field, parts, crs="EPSG:5070"):
    import dask_geopandas as dgpd
    import geopandas as gpd

    from raster_tools import Vector

    g = gpd.GeoDataFrame(
        {"other": np.arange(len(geoms))}, geometry=list(geoms), crs="EPSG:5070"
    )
    if w is not None:
        g[field] = w
    if crs != "EPSG:5070":
        g = g.to_crs(crs)
    return Vector(dgpd.from_geopandas(g, npartitions=parts))


def template(ny=4, nx=5, nb=1, dt="int32", masked=False, crs="EPSG:5070"):
    d = (np.arange(nb * ny * nx).reshape(nb, ny, nx) % 7).astype(dt)
    x = 105.0 + 10 * np.arange(nx)
    y = 995.0 - 10 * np.arange(ny)
    if masked:
        mask = d == 3
        return M(d, mask, 3, x, y, crs)
    return M(d, None, None, x, y, crs)


def measure(rec, key, m, lay, r, names, w=None, field=None, parts=1,
            detail=None, geoms=None, crs="EPSG:5070", slack=0.0):
    from raster_tools import line_stats

    cat = catalogue()
    geoms = [cat[n] for n in names] if geoms is None else geoms
    out = observe(
        line_stats.length(
            vector(geoms, w, field, parts, crs), build(m, lay), r,
            *([field] if w is not None else []),
        )
    )
    rec.trans()
    rec.trace()
    f = invariants(out)
    s = (1,) + m.shape[1:]
    if out.data.shape != s:
        f.append(f"shape {out.data.shape}")
    elif not (np.array_equal(out.x, m.x) and np.array_equal(out.y, m.y)):
        f.append("grid")
    if out.data.dtype != np.float32:
        f.append(f"dtype {out.data.dtype}")
    if out.mask.any():
        f.append("null cells")
    if f:
        rec.bad(f"{key}|form", "; ".join(f)[:800], detail)
        return None
    k = w if w is not None else [1.0] * len(geoms)
    lo, hi = bounds(m, r, geoms, [float(q) for q in k])
    d = out.data[0].astype(float)
    bad = ~((d >= lo - slack) & (d <= hi + slack))
    rec.outcome(out.data.tobytes())
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.bad(f"{key}|length", f"cell {i}: {d[i]} expected between {lo[i]} "
                f"and {hi[i]}", detail)
        return None
    return d


WHOLE = ((4,), (5,))


def case_sets(rec, c):
    names, r, lay, parts = c
    rec.state(c)
    measure(rec, "sets", template(), lay, r, names, parts=parts, detail=c)


def case_weights(rec, c):
    names, w, wdt, field, lay = c
    rec.state(c)
    measure(
        rec, f"weights|{wdt}", template(), lay, 17.0, names,
        np.array(w).astype(wdt), field, detail=c,
    )


def case_layouts(rec, c):
    lay, parts, r = c
    rec.state(c)
    names = ("h", "d", "parts", "ring", "zigzag", "bend")
    m = template()
    a = measure(rec, "layouts", m, lay, r, names, parts=parts, detail=c)
    b = measure(rec, "layouts", m, WHOLE, r, names, detail=c)
    if a is not None and b is not None and not np.allclose(
        a, b, rtol=1e-5, atol=1e-4
    ):
        rec.bad("layouts|differ", "the length depends on the chunks or the "
                f"partitions: max {np.abs(a - b).max()}", c)


def case_many(rec, c):
    from shapely.geometry import LineString

    n, verts, r, lay, weighted = c
    rec.state(c)
    geoms = []
    for i in range(n):
        x0, y0 = 101 + (i * 7) % 41, 961 + (i * 11) % 35
        geoms.append(LineString(
            [(x0 + 6.0 * k / verts, y0 + ((i + k) % 3)) for k in range(verts)]
        ))
    w = 1 + np.arange(n) % 3 if weighted else None
    measure(rec, "many", template(), lay, r, None, w, "k", detail=c,
            geoms=geoms)


def case_form(rec, c):
    from raster_tools import line_stats

    kind, arg = c
    rec.state(c)
    rec.trans()
    if kind == "like":
        nb, dt, masked, shape = arg
        m = template(*shape, nb=nb, dt=dt, masked=masked)
        lay = ((shape[0],), (2, shape[1] - 2))
        measure(rec, f"like|{dt}|{masked}", m, lay, 12.0, ("h", "d"),
                detail=c)
    elif kind == "crs":
        # the features come in another reference system
        measure(rec, "crs", template(), WHOLE, 12.0, ("h", "short"), detail=c,
                crs=arg, slack=0.02)
    else:
        cat = catalogue()
        from shapely.geometry import Point, box

        geoms = [cat["h"]]
        crs, r, field, w = "EPSG:5070", 10.0, None, [1]
        if arg == "radius":
            r = 0
        elif arg == "negative":
            r = -2.0
        elif arg == "array":
            r = [10.0]
        elif arg == "point":
            geoms = [cat["h"], Point(105, 995)]
        elif arg == "polygon":
            geoms = [box(100, 960, 120, 980)]
        elif arg == "field":
            field = "nope"
        elif arg == "text":
            field, w = "k", ["a"]
        elif arg == "number":
            field = 3
        elif arg == "crs":
            crs = None
        v = vector(geoms, w * len(geoms), "k", 1)
        like = build(template(crs=crs), WHOLE)
        try:
            line_stats.length(v, like, r, field)
        except (TypeError, ValueError):
            rec.trace()
            return
        rec.bad(f"refused|{arg}", "accepted", c)


def run(ctx):
    t = ctx.thorough
    names = sorted(catalogue())
    cases = []
    radii = (4.0, 10.0, 17.0, 26.0, 70.0)
    split = ((2, 2), (1, 4))
    n = 0
    for k in (1, 2, 3) if t else (1, 2):
        for s in itertools.combinations(names, k):
            for r in radii:
                n += 1
                if not t and k == 2 and n % 3:
                    continue
                lay = split if n % 2 else WHOLE
                cases.append((s, r, lay, 1 + n % k))
    ctx.explore("sets", cases, case_sets)

    cases = []
    for w, dts in (
        ((1, 2), ("int8", "int64", "float32", "float64", "uint16")),
        ((1, 0), ("bool", "int32")), ((-1, 3), ("int32", "float64")),
        ((0.25, 1e6), ("float64",)),
    ):
        for wdt in dts:
            for field in ("weights", "len", "k"):
                for s in (("h", "v"), ("zigzag", "parts")):
                    for lay in (WHOLE, split):
                        if not t and (lay is split) != (s[0] == "h"):
                            continue
                        cases.append((s, w, wdt, field, lay))
    ctx.explore("weights", cases, case_weights)

    cases = [
        (lay, parts, r)
        for n, lay in enumerate(chunkings(4, 5))
        for parts in (1, 2, 4)
        for r in (12.0, 33.0)
        if t or (n + parts + int(r)) % 6 == 0
    ]
    ctx.explore("layouts", cases, case_layouts)

    cases = []
    for nn, verts in ((3, 40), (60, 17), (800, 2), (1500, 4), (701, 20)):
        for weighted in (False, True):
            for lay in (WHOLE, split):
                if not t and (lay is split) != weighted:
                    continue
                cases.append((nn, verts, 9.0, lay, weighted))
    ctx.explore("many", cases, case_many)

    cases = [
        ("like", (nb, dt, masked, shape))
        for nb in (1, 2)
        for dt in ("uint8", "int16", "float32", "bool")
        for masked in (False, True)
        for shape in ((4, 5), (3, 3))
        if not (dt == "bool" and masked)
    ]
    cases += [("crs", "EPSG:4326"), ("crs", "EPSG:32612")]
    cases += [
        ("refused", q) for q in (
            "radius", "negative", "array", "point", "polygon", "field",
            "text", "number", "crs",
        )
    ]
    ctx.explore("form", cases, case_form)
