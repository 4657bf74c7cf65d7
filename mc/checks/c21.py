"""C21 rasterizing features is correct for every partitioning."""

import functools
import itertools
import warnings

import numpy as np

from mc.checks.c23 import RES, geometry, to_xy, touch
from mc.model import (
    CRS,
    M,
    build,
    chunkings,
    compositions,
    default_null,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every ordered selection of up to three features from a catalogue x "
    "overlap method (partitioning, chunking, spatial route rotating); every "
    "partitioning x chunk layout of five features; every dtype x null value; "
    "masks of every feature pair; sequences of two calls on one feature table"
)
BOUNDS = "4x4 grid of 10 m cells, 8 shapes, up to 6 features, 6 partitions"
ASSUMPTIONS = [
    "cells that a feature touches only at its border (within 1/1000 cell) "
    "are not judged",
    "features whose value is the null value are not judged",
    "integer values beyond 2^53 are not judged: the underlying GDAL call "
    "takes doubles",
    "all_touched=False is judged for points and polygons only (GDAL's line "
    "walk is its own)",
]
SHAPES = [
    ("box", (0.3, 0.3), (1.7, 3.7)),
    ("box", (1.3, 0.7), (3.7, 2.3)),
    ("tri", (0.3, 3.3), (3.3, 3.7), (2.3, 0.3)),
    ("line", (0.3, 2.7), (3.4, 0.3)),
    ("point", (1.4, 1.6)),
    ("hole", (0.2, 0.2), (3.8, 0.6), (3.7, 3.8), (0.4, 3.7)),
    ("multi", ("box", (0.3, 0.3), (0.7, 0.7)),
     ("box", (2.3, 1.3), (3.7, 2.7))),
    ("line", (1.5, 3.8), (1.7, 1.3), (3.6, 1.4)),
]
POLY = [0, 1, 2, 4, 5, 6]
METHODS = ("first", "last", "min", "max")
GRID = M(np.zeros((1, 4, 4), "int32"))


@functools.lru_cache(None)
def cells(i, all_touched):
    """+1 burned, 0 not, -1 unknown."""
    from shapely.geometry import Point

    g = geometry(GRID, SHAPES[i])
    if all_touched or g.geom_type == "Point":
        return touch(GRID, [g])
    out = np.zeros((4, 4), int)
    for r, c in itertools.product(range(4), repeat=2):
        p = Point(GRID.x[c], GRID.y[r])
        near = g.boundary.distance(p) < RES / 1000
        out[r, c] = -1 if near else int(g.contains(p))
    return out


def expect(feats, vals, method, fill, all_touched):
    """Value per cell; NaN values lose against others for min and max."""
    out = np.full((4, 4), fill, object)
    known = np.ones((4, 4), bool)
    for r, c in itertools.product(range(4), repeat=2):
        got = []
        for i, v in zip(feats, vals):
            if i is None:
                continue
            k = cells(i, all_touched)[r, c]
            if k < 0:
                known[r, c] = False
            elif k:
                got.append(v)
        if not got:
            continue
        real = [v for v in got if v == v]
        if method == "first":
            out[r, c] = got[0]
        elif method == "last":
            out[r, c] = got[-1]
        elif not real:
            out[r, c] = got[0]
        else:
            out[r, c] = min(real) if method == "min" else max(real)
    return out, known


def table(feats, vals, dt, parts, crs=CRS, dx=0.0):
    import dask
    import dask.dataframe as dd
    import dask_geopandas as dgpd
    import geopandas as gpd
    from shapely.affinity import translate
    from shapely.geometry import Polygon

    geoms = []
    for i in feats:
        if i is None:
            geoms.append(None)
        elif i == "empty":
            geoms.append(Polygon())
        else:
            g = geometry(GRID, SHAPES[i])
            geoms.append(translate(g, dx, -dx) if dx else g)
    g = gpd.GeoDataFrame({"v": np.array(vals, dt)}, geometry=geoms, crs=CRS)
    if crs is not CRS:
        g = g.to_crs(crs)
    if parts == "gdf":
        return g
    if parts == "vector":
        from raster_tools.vector import Vector

        return Vector(g)
    if isinstance(parts, int):
        return dgpd.from_geopandas(g, npartitions=parts)
    if len(parts) == 1:
        return dgpd.from_geopandas(g, npartitions=1)
    pos = [0, *np.cumsum(parts).tolist()]
    return dd.from_delayed(
        [dask.delayed(g.iloc[a:b].copy()) for a, b in zip(pos, pos[1:])],
        meta=dgpd.from_geopandas(g, npartitions=1)._meta,
        divisions=(*pos[:-1], len(feats) - 1),
    )


def route(d, how):
    """Prepare features; returns (features, keyword arguments)."""
    if how == "flag":
        return d, {"use_spatial_aware": True}
    if how == "computed":
        d = d.copy()
        (d if hasattr(d, "calculate_spatial_partitions") else d.data
         ).calculate_spatial_partitions()
    elif how == "shuffled":
        from raster_tools.vector import Vector

        d = Vector(d).spatial_shuffle()
    return d, {}


def same(a, b):
    return a == b or (a != a and b != b)


def call(feat, r, **kw):
    from raster_tools.rasterize import rasterize

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return rasterize(feat, r, **kw)


def values_judge(rec, key, o, feats, vals, dt, method, fill, all_touched,
                 grid=GRID):
    rec.trace()
    if o.data.shape != (1, 4, 4) or o.dtype != np.dtype(dt):
        rec.bad(key + "|form", f"{o.data.shape} {o.dtype}, wanted {dt}")
        return
    if o.nv is None or not same(np.dtype(dt).type(o.nv),
                                np.dtype(dt).type(fill)):
        rec.bad(key + "|null", f"null value {o.nv}, wanted {fill}")
        return
    if o.crs != grid.crs or not (
        np.array_equal(o.x, grid.x) and np.array_equal(o.y, grid.y)
    ):
        rec.bad(key + "|grid", f"{o.crs} {o.x} {o.y}")
        return
    want, known = expect(feats, vals, method, fill, all_touched)
    for r, c in itertools.product(range(4), repeat=2):
        w = want[r, c]
        g = o.data[0, r, c]
        null = same(np.dtype(dt).type(w), np.dtype(dt).type(fill))
        rec.state(feats, method, r, c)
        if not known[r, c]:
            continue
        if not same(np.dtype(dt).type(w), g) or (bool(o.mask[0, r, c]) != null):
            rec.bad(
                key,
                f"cell {r},{c}: {g} (masked {o.mask[0, r, c]}), "
                f"wanted {w}",
                f"features {feats} values {vals} got {o.data.tolist()}",
            )
            return
    rec.outcome(method, o.data.tobytes())


def case_overlap(rec, c):
    feats, vals, method, parts, ch, how, all_touched = c
    d = table(feats, vals, "int32", parts)
    d, kw = route(d, how)
    rec.trans()
    o = observe(
        call(d, build(GRID, ch), field="v", overlap_resolve_method=method,
             all_touched=all_touched, **kw)
    )
    values_judge(rec, f"{method}|{how}|{int(all_touched)}", o, feats, vals,
                 "int32", method, default_null("int32"), all_touched)


def case_dtype(rec, c):
    dt, nulls = c
    feats = (0, 1, 2, 3, 4)
    for vi, vals in enumerate(
        [(3, 1, 4, 2, 5), (5, 2, 1, 4, 3)]
        + ([(3.5, np.nan, 1.5, np.nan, 2.5)] if dt.startswith("f") else [])
    ):
        for nv, method, parts in itertools.product(
            nulls, METHODS, ((5,), (1, 1, 1, 2))
        ):
            if vi == 2 and nv is not None and nv != nv:
                continue
            d = table(feats, vals, dt, parts)
            kw = {} if nv is None else {"null_value": nv}
            rec.trans()
            o = observe(
                call(d, build(GRID, ((2, 2), (1, 3))), field="v",
                     overlap_resolve_method=method, **kw)
            )
            values_judge(
                rec, f"{dt}|{nv}|{method}|{len(parts)}", o, feats, vals, dt,
                method, default_null(dt) if nv is None else nv, True,
            )


def case_index(rec, c):
    feats, method, parts, ch, nv, how = c
    d = table(feats, [9] * len(feats), "int32", parts)
    d, kw = route(d, how)
    if nv is not None:
        kw["null_value"] = nv
    rec.trans()
    o = observe(
        call(d, build(GRID, ch), overlap_resolve_method=method, **kw)
    )
    values_judge(rec, f"index|{method}", o, feats,
                 list(range(1, len(feats) + 1)), "int64", method,
                 0 if nv is None else nv, True)


def mask_judge(rec, key, o, feats, invert, nv):
    rec.trace()
    if o.data.shape != (1, 4, 4) or o.nv != (0 if nv is None else nv):
        rec.bad(key + "|form", f"{o.data.shape} {o.dtype} {o.nv}")
        return
    for r, c in itertools.product(range(4), repeat=2):
        k = [cells(i, True)[r, c] for i in feats if i is not None
             and i != "empty"]
        if -1 in k:
            continue
        inside = any(k) != invert
        w = 1 if inside else o.nv
        rec.state(feats, invert, r, c)
        if o.data[0, r, c] != w or bool(o.mask[0, r, c]) == inside:
            rec.bad(key, f"cell {r},{c}: {o.data[0, r, c]} masked "
                    f"{o.mask[0, r, c]}, wanted {w}", f"{feats}")
            return
    rec.outcome(invert, o.data.tobytes())


def case_mask(rec, c):
    feats, invert, nv, parts, ch, how = c
    d = table(feats, list(range(len(feats))), "int32", parts)
    d, kw = route(d, how)
    if nv is not None:
        kw["null_value"] = nv
    rec.trans()
    o = observe(call(d, build(GRID, ch), mask=True, mask_invert=invert, **kw))
    mask_judge(rec, f"mask|{int(invert)}|{nv}|{how}", o, feats, invert, nv)


def case_sequence(rec, c):
    """Several rasters from one table: no call may affect a later one."""
    feats, parts, seq, kind = c
    d = table(feats, list(range(1, len(feats) + 1)), "int32", parts)
    if kind == "vector":
        from raster_tools.vector import Vector

        d = Vector(d)
    before = (d.data if kind == "vector" else d).spatial_partitions
    for step, (dx, masked) in enumerate(seq):
        g = GRID.copy(x=GRID.x + dx, y=GRID.y - dx)
        rec.trans()
        r = build(g, ((2, 2), (1, 3)))
        # features stay where they are: the far raster sees none of them
        fs = feats if dx == 0 else ()
        key = f"sequence|{kind}"
        if masked:
            mask_judge(rec, key, observe(call(d, r, mask=True)), fs, False,
                       None)
        else:
            values_judge(rec, key, observe(call(d, r, field="v")), fs,
                         range(1, len(fs) + 1), "int32", "last",
                         default_null("int32"), True, g)
    after = (d.data if kind == "vector" else d).spatial_partitions
    if (before is None) != (after is None):
        rec.bad("sequence|mutated", "the features gained spatial partitions")


def case_far(rec, c):
    """Features in two places, a raster over each, in both orders."""
    import geopandas as gpd
    import pandas as pd

    order, parts, how = c
    import dask_geopandas as dgpd

    a = table((0, 1), (1, 2), "int32", "gdf")
    b = table((2, 3), (3, 4), "int32", "gdf", dx=400.0)
    g = gpd.GeoDataFrame(pd.concat([a, b], ignore_index=True), crs=CRS)
    d = dgpd.from_geopandas(g, npartitions=parts)
    d, kw = route(d, how)
    for place in order:
        dx, fs, vals = ((0.0, (0, 1), (1, 2)), (400.0, (2, 3), (3, 4)))[place]
        grid = GRID.copy(x=GRID.x + dx, y=GRID.y - dx)
        rec.trans()
        o = observe(call(d, build(grid, ((1, 3), (2, 2))), field="v", **kw))
        values_judge(rec, f"two places|{how}", o, fs, vals, "int32", "last",
                     default_null("int32"), True, grid)


def case_inputs(rec, c):
    feats, kind, masked, how = c
    vals = list(range(1, len(feats) + 1))
    if kind == "4326":
        d = table(feats, vals, "int32", (len(feats),), crs="EPSG:4326")
    elif kind == "filtered":
        # partitions that are left without rows
        d = table(feats, vals, "int32", tuple([1] * len(feats)))
        d = d[d.v != 2]
        vals = [v for v in vals if v != 2]
        feats = (feats[0], *feats[2:])
    elif isinstance(kind, str):
        d = table(feats, vals, "int32", kind)
    else:
        d = table(feats, vals, "int32", kind)
    kw = {}
    if how == "flag":
        kw["use_spatial_aware"] = True
    rec.trans()
    r = build(GRID.copy(data=np.zeros((2, 4, 4), "int16"),
                        mask=np.zeros((2, 4, 4), bool)), ((3, 1), (2, 2)))
    fs = tuple(None if f == "empty" else f for f in feats)
    key = f"input|{kind}|{how}"
    if masked:
        mask_judge(rec, key, observe(call(d, r, mask=True, **kw)), fs, False,
                   None)
    else:
        values_judge(rec, key, observe(call(d, r, field="v", **kw)), fs,
                     vals, "int32", "last", default_null("int32"), True)


def run(ctx):
    th = ctx.thorough
    chs = chunkings(4, 4)
    rot = itertools.count(ctx.seed % 7)
    routes = ("naive", "flag", "computed")
    cases = []
    for n in (1, 2, 3):
        for feats in itertools.permutations(range(8), n):
            i = next(rot)
            if n == 3 and not th and i % 3:
                continue
            comps = list(compositions(n))
            perms = list(itertools.permutations(range(1, n + 1)))
            for mi, method in enumerate(METHODS):
                j = next(rot)
                vals = perms[j % len(perms)]
                if j % 5 == 0:
                    vals = tuple(7 for _ in vals)
                cases.append((feats, vals, method, comps[(j + mi) % len(comps)],
                              chs[(j * 13) % 64], routes[(j // 4) % 3], True))
            if all(f in POLY for f in feats):
                cases.append((feats, perms[i % len(perms)], METHODS[i % 4],
                              comps[-1], chs[i % 64], "naive", False))
    # what rasterizes together runs together: one worker compiles once
    ctx.explore("ordered overlaps", cases, case_overlap)
    five = (2, 5, 0, 3, 1)
    cases = []
    for pi, parts in enumerate(compositions(5)):
        for ci, ch in enumerate(chs):
            if not th and (pi * 3 + ci) % 4:
                continue
            cases.append((five, (3, 5, 1, 4, 2), METHODS[(pi + ci) % 4],
                          parts, ch, routes[(pi + ci // 4) % 3], True))
    for method, n in itertools.product(("min", "max"), (1, 2, 5)):
        for ch in chs[:: 12 if not th else 2]:
            cases.append((five, (3, 5, 1, 4, 2), method, n, ch, "shuffled",
                          True))
    ctx.explore("partitions x chunks", cases, case_overlap)
    cases = []
    for dt in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64",
               "uint64", "float16", "float32", "float64"):
        nulls = [None, 0]
        nulls += [np.nan, -5.5] if dt.startswith("f") else [100]
        for nv in nulls:
            cases.append((dt, (nv,)))
    ctx.explore("dtypes", cases, case_dtype)
    cases = []
    for feats in itertools.permutations((0, 1, 3, 4, 6), 3 if th else 2):
        for method in METHODS:
            i = next(rot)
            comps = list(compositions(len(feats)))
            cases.append((feats, method, comps[i % len(comps)],
                          chs[(i * 11) % 64], (None, -3, 77)[i % 3],
                          routes[(i // 3) % 3]))
    ctx.explore("index values", cases, case_index)
    cases = []
    pairs = [*itertools.combinations(range(8), 2),
             *((i, None) for i in range(8)), *(("empty", i) for i in range(8)),
             (None,), ("empty",), (None, "empty"), (1, 4, None), (None, 2, 3)]
    for feats in pairs:
        for invert in (False, True):
            for nv in (None, 7, 200) if th else (None, 7):
                i = next(rot)
                comps = list(compositions(len(feats)))
                cases.append((feats, invert, nv, comps[i % len(comps)],
                              chs[(i * 7) % 64], "naive"))
    for invert, how, parts in itertools.product(
        (False, True), routes, compositions(4)
    ):
        cases.append(((0, 3, 4, 6), invert, None, parts, ((1, 3), (2, 2)),
                      how))
    ctx.explore("masks", cases, case_mask)
    steps = [(0.0, False), (0.0, True), (400.0, False)]
    cases = [
        ((0, 3, 1), parts, seq, kind)
        for parts in ((3,), (1, 2))
        for seq in itertools.product(steps, repeat=3 if th else 2)
        for kind in ("dask", "vector")
    ]
    ctx.explore("call sequences", cases, case_sequence)
    cases = [
        (order, parts, how)
        for order in itertools.product((0, 1), repeat=3 if th else 2)
        for parts in (1, 2, 4)
        for how in routes
    ]
    ctx.explore("two places", cases, case_far)
    cases = []
    for feats in ((0, 1, 3), (2, 4, 5), (6, 7, 0)):
        for kind, masked, how in itertools.product(
            ("gdf", "vector", "4326", "filtered", (1, 2)), (False, True),
            ("naive", "flag")
        ):
            if kind == "4326":
                cases.append((feats, kind, masked, how))
            else:
                cases.append((feats, kind, masked, how))
    for feats in ((0, None), (None, 1), ("empty", 2), (None,), ("empty",),
                  (3, "empty", None, 1)):
        for parts in compositions(len(feats)):
            for masked in (False, True):
                cases.append((feats, parts, masked, "naive"))
    ctx.explore("inputs", cases, case_inputs)
