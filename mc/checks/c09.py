"""C09 block georeferencing tiles the grid and composes exactly."""

import itertools
import pickle
import warnings

import dask
import numpy as np

from mc.model import M, build, chunkings, crs_equal

LEVEL = "model_checking"
RULE = (
    "tiling: every chunk layout of grids up to the bound x grids x bands x "
    "crs, eager and dask block infos; moves: breadth-first search over "
    "pad/pad_x/pad_y/shift/shift_x/shift_y with all amounts in a range, from "
    "every block of every layout, every reached window compared with index "
    "arithmetic, every parent info re-inspected afterwards; wrap: "
    "to_dataarray of every block and of every window reached by one move"
)
BOUNDS = (
    "grids up to 4x5 (5x5 thorough), amounts -2..2, sequences up to depth 3 "
    "(4 thorough) with windows inside [-4, n+4]"
)
ASSUMPTIONS = [
    "two windows with the same rows, columns and observable attributes "
    "behave the same under further moves (states are merged on them; every "
    "attribute is compared with the model at every transition)",
    "coordinates of windows of 0 rows or columns are only required to be "
    "empty",
]

warnings.simplefilter("ignore")

GRIDS = [
    (10.0, 10.0, 105.0, 995.0), (30.0, 20.0, 1000015.0, 2000015.0),
    (0.1, 0.25, 0.05, 1.95), (1 / 3, 1 / 7, 5.5, 7.25),
]


def grid(g, ny, nx):
    rx, ry, x0, y0 = GRIDS[g]
    return x0 + np.arange(nx) * rx, y0 - np.arange(ny) * ry


def make(nb, ny, nx, g, crs="EPSG:5070"):
    n = nb * ny * nx
    d = np.arange(n, dtype="int32").reshape(nb, ny, nx)
    x, y = grid(g, ny, nx)
    return M(d, d % 3 == 1, -7, x, y, crs)


def faults(info, g, band, rows, cols, loc, shape, crs):
    """Compare a block info with the window rows x cols of the parent grid."""
    rx, ry, x0, y0 = GRIDS[g]
    tol = 1e-6 * min(rx, ry)
    f = []
    (r0, r1), (c0, c1) = rows, cols
    nb = band[1] - band[0]
    ny, nx = r1 - r0, c1 - c0
    if tuple(info.shape) != (nb, ny, nx):
        f.append(f"shape {tuple(info.shape)} expected {(nb, ny, nx)}")
        return f
    for name, want in (
        ("band_slice", band), ("row_slice", rows), ("col_slice", cols)
    ):
        s = getattr(info, name)
        if (s.start, s.stop) != tuple(want) or s.step not in (None, 1):
            f.append(f"{name} {s} expected {want}")
    if tuple(info.chunk_location) != tuple(loc):
        f.append(f"chunk_location {info.chunk_location} expected {loc}")
    if tuple(info.parent_shape) != tuple(shape):
        f.append(f"parent_shape {info.parent_shape} expected {shape}")
    left, top = x0 - rx / 2, y0 + ry / 2
    want = (rx, 0, left + c0 * rx, 0, -ry, top - r0 * ry)
    if not np.allclose(tuple(info.affine)[:6], want, rtol=0, atol=tol):
        f.append(f"affine {tuple(info.affine)[:6]} expected {want}")
    want = (rx, 0, left, 0, -ry, top)
    if not np.allclose(tuple(info.parent_affine)[:6], want, rtol=0, atol=tol):
        f.append(f"parent affine {tuple(info.parent_affine)[:6]}")
    if not crs_equal(info.crs, crs):
        f.append(f"crs {info.crs} expected {crs}")
    if list(info.band) != list(range(*band)):
        f.append(f"band {list(info.band)} expected {band}")
    x, y = np.asarray(info.x), np.asarray(info.y)
    if nx and ny:
        wx = x0 + np.arange(c0, c1) * rx
        wy = y0 - np.arange(r0, r1) * ry
        if len(x) != nx or not np.allclose(x, wx, rtol=0, atol=tol):
            f.append(f"x {x.tolist()} expected {wx.tolist()}")
        if len(y) != ny or not np.allclose(y, wy, rtol=0, atol=tol):
            f.append(f"y {y.tolist()} expected {wy.tolist()}")
        b = info.bbox.bounds
        want = (
            left + c0 * rx, top - r1 * ry, left + c1 * rx, top - r0 * ry
        )
        if not np.allclose(b, want, rtol=0, atol=tol):
            f.append(f"bbox {b} expected {want}")
        if abs(info.bbox.area - ny * nx * rx * ry) > 1e-6 * ny * nx * rx * ry:
            f.append(f"bbox is not the rectangle: area {info.bbox.area}")
    elif len(x) != nx or len(y) != ny:
        f.append(f"coordinates of empty window: {len(y)}x{len(x)}")
    return f


def spans(parts):
    e = np.cumsum((0,) + tuple(parts))
    return [(int(a), int(b)) for a, b in zip(e[:-1], e[1:])]


def blocks_of(nb, lay):
    for (i, bs), (j, rs), (k, cs) in itertools.product(
        enumerate(spans((1,) * nb)), enumerate(spans(lay[0])),
        enumerate(spans(lay[1])),
    ):
        yield (i, j, k), bs, rs, cs


def case_tiling(rec, c):
    from raster_tools.blocks import geo_block_infos, geo_block_infos_as_dask

    nb, ny, nx, g, crs = c
    m = make(nb, ny, nx, g, crs)
    for lay in chunkings(ny, nx):
        key = "tiling"
        r = build(m, lay)
        want = (nb, len(lay[0]), len(lay[1]))
        lazy = (r.geo_block_infos, geo_block_infos_as_dask(r))
        for a in lazy:
            if a.chunks != tuple((1,) * n for n in want):
                rec.bad("tiling|chunks", f"{a.chunks} for {want}", (c, lay))
        arrays = [geo_block_infos(r), *dask.compute(*lazy)]
        for which, arr in zip(("eager", "property", "dask"), arrays):
            if arr.shape != want:
                rec.bad(f"{key}|shape", f"{arr.shape} != {want}", (c, lay))
                continue
            cover = np.zeros(m.shape, int)
            for loc, bs, rs, cs in blocks_of(nb, lay):
                info = arr[loc]
                f = faults(info, g, bs, rs, cs, loc, m.shape, crs)
                if f:
                    rec.bad(
                        f"{key}|{which}", f"{'; '.join(f)}", (c, lay, loc)
                    )
                cover[info.band_slice, info.row_slice, info.col_slice] += 1
                rec.trans()
            if not (cover == 1).all():
                rec.bad(f"{key}|cover", f"{cover.tolist()}", (c, lay))
            rec.trace()
        rec.state(c, lay)
        rec.outcome(want)


def moves(amounts, full):
    out = []
    for a in amounts:
        out += [("shift_y", (a,)), ("shift_x", (a,)), ("shift", (a,)),
                ("pad", (a,))]
    for a, b in itertools.product(amounts, repeat=2):
        out += [("pad_y", (a, b)), ("pad_x", (a, b))]
        if full or a != b:
            out += [("shift", (a, b)), ("pad", (a, b))]
    return out


def model_move(w, op, a):
    r0, r1, c0, c1 = w
    if op == "pad_y":
        return (r0 - a[0], r1 + a[1], c0, c1)
    if op == "pad_x":
        return (r0, r1, c0 - a[0], c1 + a[1])
    if op == "shift_y":
        return (r0 + a[0], r1 + a[0], c0, c1)
    if op == "shift_x":
        return (r0, r1, c0 + a[0], c1 + a[0])
    y = a[0]
    x = a[1] if len(a) > 1 else y
    if op == "pad":
        return (r0 - y, r1 + y, c0 - x, c1 + x)
    return (r0 + y, r1 + y, c0 + x, c1 + x)


def ident(info):
    return (
        tuple(info.shape), tuple(info.affine), str(info.row_slice),
        str(info.col_slice), str(info.band_slice), info.chunk_location,
        tuple(info.parent_affine), tuple(info.parent_shape),
    )


def case_moves(rec, c):
    from raster_tools.blocks import geo_block_infos

    nb, lay, g, loc, amounts, depth, margin = c
    ny, nx = sum(lay[0]), sum(lay[1])
    m = make(nb, ny, nx, g)
    arr = geo_block_infos(build(m, lay))
    _, bs, rs, cs = next(b for b in blocks_of(nb, lay) if b[0] == loc)
    start = (*rs, *cs)
    first = arr[loc]
    ops = moves(amounts, False)
    seen = {start: (first, ident(first), ())}
    front = [start]
    for level in range(depth):
        new = []
        for w in front:
            info, before, path = seen[w]
            for op, a in ops:
                t = model_move(w, op, a)
                negative = t[1] < t[0] or t[3] < t[2]
                if not negative and (
                    min(t[0], t[2]) < -margin or t[1] > ny + margin
                    or t[3] > nx + margin
                ):
                    continue
                rec.trans()
                try:
                    got = getattr(info, op)(*a)
                except ValueError as e:
                    if not negative:
                        rec.bad(f"{op}|raises", repr(e), (c, path, op, a))
                    continue
                if negative:
                    rec.bad(
                        f"{op}|negative",
                        f"{w} -> {t} accepted: {got.shape}", (path, op, a)
                    )
                    continue
                if t in seen:
                    # already compared with the model: must be the same
                    other = seen[t][1]
                    mine = ident(got)
                    if (
                        mine[0] != other[0] or mine[2:6] != other[2:6]
                        or not np.allclose(
                            mine[1], other[1], rtol=0,
                            atol=1e-6 * min(GRIDS[g][:2]),
                        )
                        or not crs_equal(got.crs, m.crs)
                    ):
                        rec.bad(
                            f"{op}|moved",
                            f"{w} -> {t}: {mine} expected {other}",
                            (path, op, a),
                        )
                    continue
                f = faults(got, g, bs, t[:2], t[2:], loc, m.shape, m.crs)
                if f:
                    rec.bad(
                        f"{op}|moved", f"{w} -> {t}: {'; '.join(f)}",
                        (path, op, a),
                    )
                seen[t] = (got, ident(got), path + ((op, a),))
                rec.state(c[:4], t)
                new.append(t)
            if ident(info) != before:
                rec.bad("mutated", f"{before} became {ident(info)}", path)
        front = new
    for w, (info, before, path) in seen.items():
        if ident(info) != before:
            rec.bad("mutated", f"{before} became {ident(info)}", path)
    rec.trace(len(seen))
    rec.outcome(len(seen))


def case_reject(rec, c):
    from raster_tools.blocks import geo_block_infos

    op, bad = c
    info = geo_block_infos(build(make(1, 3, 4, 0), ((3,), (2, 2))))[0, 0, 1]
    n = {"pad_y": 2, "pad_x": 2, "shift_y": 1, "shift_x": 1}.get(op)
    for args in (
        [(bad,), (bad, 1), (1, bad)] if n is None
        else [tuple(bad if k == i else 1 for k in range(n)) for i in range(n)]
    ):
        if args == (1, bad) and bad is None:
            continue  # x=None means "as y"
        before = ident(info)
        rec.trans()
        try:
            got = getattr(info, op)(*args)
        except (TypeError, ValueError):
            rec.outcome("rejected")
        else:
            rec.bad(f"{op}|accepts", f"{args} -> {got.shape}", c)
        if ident(info) != before:
            rec.bad("mutated", f"{before} became {ident(info)}", c)
    rec.trace()
    rec.state(c)


def case_wrap(rec, c):
    from raster_tools.blocks import geo_block_infos

    nb, lay, g, loc, crs, ops = c
    ny, nx = sum(lay[0]), sum(lay[1])
    m = make(nb, ny, nx, g, crs)
    info = geo_block_infos(build(m, lay))[loc]
    _, bs, rs, cs = next(b for b in blocks_of(nb, lay) if b[0] == loc)
    w = (*rs, *cs)
    rx, ry, x0, y0 = GRIDS[g]
    for op, a in ops:
        t = model_move(w, op, a)
        if t[1] <= t[0] or t[3] <= t[2]:
            continue
        blk = getattr(info, op)(*a)
        # a round trip through pickle is how the info reaches the workers
        blk = pickle.loads(pickle.dumps(blk))
        f = faults(blk, g, bs, t[:2], t[2:], loc, m.shape, crs)
        if f:
            rec.bad("pickle", "; ".join(f), (c, op, a))
        data = np.arange(np.prod(blk.shape)).reshape(blk.shape) * 1.5
        mask = data % 2 == 1
        for mk, nd in ((None, None), (mask, None), (None, -5), (mask, -5)):
            out = blk.to_dataarray(data, mask=mk, nodata=nd)
            parts = [(out, data)] if mk is None else [
                (out[0], data), (out[1], mk)
            ]
            for i, (xa, want) in enumerate(parts):
                rec.trans()
                wx = x0 + np.arange(t[2], t[3]) * rx
                wy = y0 - np.arange(t[0], t[1]) * ry
                tol = 1e-6 * min(rx, ry)
                if (
                    xa.dims != ("band", "y", "x")
                    or not np.array_equal(xa.values, want)
                    or xa.band.values.tolist() != list(range(*bs))
                    or not np.allclose(xa.x.values, wx, rtol=0, atol=tol)
                    or not np.allclose(xa.y.values, wy, rtol=0, atol=tol)
                    or not crs_equal(xa.rio.crs, crs)
                ):
                    rec.bad(f"dataarray|{i}", repr(xa)[:900], (c, op, a))
                if i == 0 and xa.rio.nodata != nd:
                    rec.bad("dataarray|nodata", f"{xa.rio.nodata} != {nd}")
        for bad in (data[:, :-1], data[0], data[:, :, 1:]):
            for kw in ({}, {"mask": mask}):
                try:
                    blk.to_dataarray(bad, **kw)
                except ValueError:
                    pass
                else:
                    rec.bad("dataarray|shape", f"accepted {bad.shape}", c)
        try:
            blk.to_dataarray(data, mask=mask[:, 1:])
        except ValueError:
            pass
        else:
            rec.bad("dataarray|maskshape", "accepted", c)
        rec.state(c[:5], op, a)
        rec.trace()


def run(ctx):
    sizes = [
        (ny, nx) for ny in range(2, 5 + ctx.thorough)
        for nx in range(2, 6)
    ]
    cases = [
        (nb, ny, nx, g, crs)
        for ny, nx in sizes for g in range(len(GRIDS)) for nb in (1, 2, 3)
        for crs in ("EPSG:5070", "EPSG:4326", None)
        if (nb == 1 or ny * nx <= 9)
        and (crs == "EPSG:5070" or (nb == 2 and g in (0, 2)))
        and ((g == 0 and nb < 3) or ny * nx <= 9 or ctx.thorough)
    ]
    ctx.explore("tiling", cases, case_tiling)

    amounts = (-2, -1, 0, 1, 2)
    deep = 4 if ctx.thorough else 3
    cases = []
    for lay in chunkings(3, 3):
        for loc, *_ in blocks_of(1, lay):
            cases.append((1, lay, 0, loc, (-1, 0, 1), deep, 3))
    for nb, lay, g in (
        (1, ((2, 2), (2, 3)), 1), (2, ((1, 3), (3, 2)), 2),
        (2, ((4,), (1, 4)), 3), (1, ((3, 1), (5,)), 0),
    ):
        for loc, *_ in blocks_of(nb, lay):
            cases.append((nb, lay, g, loc, amounts, 2 + ctx.thorough, 4))
    if ctx.thorough:
        for lay in chunkings(4, 4):
            for loc, *_ in blocks_of(1, lay):
                cases.append((1, lay, 3, loc, amounts, 2, 4))
    ctx.explore("moves", cases, case_moves)
    ctx.explore(
        "reject",
        [
            (op, bad)
            for op in ("pad", "pad_x", "pad_y", "shift", "shift_x", "shift_y")
            for bad in (1.5, "1", None, np.float64(1.25), (1,))
        ],
        case_reject,
    )
    ops = [("pad", (0,)), ("pad", (1, 2)), ("pad_y", (-1, 2)),
           ("pad_x", (2, -1)), ("shift", (1, -2)), ("shift_y", (-3,)),
           ("shift_x", (2,))]
    cases = [
        (nb, lay, g, loc, crs, ops)
        for nb, lay, g, crs in (
            (1, ((2, 2), (2, 3)), 1, "EPSG:5070"),
            (2, ((1, 3), (3, 2)), 2, None),
            (2, ((3,), (4,)), 0, "EPSG:4326"),
            (1, ((1, 1, 1), (2, 1, 1)), 3, "EPSG:5070"),
        )
        for loc, *_ in blocks_of(nb, lay)
    ]
    ctx.explore("wrap", cases, case_wrap)
