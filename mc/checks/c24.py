"""C24 cells, points, polygons, quadrants and chunks partition a raster."""

import itertools
import warnings

import dask
import numpy as np
import shapely

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    crs_equal,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every cell, offset and interior point of several grids (xy/index); "
    "every null mask x dtype x chunk layout (points); every 2x3 content over "
    "{null, a, b} x neighbourhood x layout (polygons); every chunk layout of "
    "grids up to 4x5 (quadrants, chunk rasters, chunk boxes)"
)
BOUNDS = "grids up to 4x5 cells, two bands, 12 dtypes"

warnings.simplefilter("ignore")

GRIDS = [
    (10.0, 10.0, 105.0, 995.0), (0.1, 0.25, 0.05, 1.95),
    (1 / 3, 1 / 7, 5.5, 7.25), (30.0, 20.0, 1000015.0, 2000015.0),
    (0.0002777, 0.0003, -110.3, 40.1),
]


def grid(g, ny, nx):
    rx, ry, x0, y0 = GRIDS[g]
    return x0 + np.arange(nx) * rx, y0 - np.arange(ny) * ry


def make(dt, nb, ny, nx, bits, g=0, vals=None):
    n = nb * ny * nx
    a = np.arange(n).reshape(nb, ny, nx)
    if vals is not None:
        d = np.asarray(vals, dt).reshape(nb, ny, nx)
    elif dt == "bool":
        d = a % 3 == 0
    else:
        d = (a % 120 + (0.5 if np.dtype(dt).kind == "f" else 0)).astype(dt)
    k = None
    if bits is not None:
        k = np.array([bool(bits >> (i % 60) & 1) for i in range(n)])
        k = k.reshape(d.shape)
    x, y = grid(g, ny, nx)
    return M(d, k, default_null(dt) if bits is not None else None, x, y)


OFF = {
    "center": (0, 0), "ul": (0.5, -0.5), "ur": (0.5, 0.5),
    "ll": (-0.5, -0.5), "lr": (-0.5, 0.5),
}


def case_xy(rec, c):
    g, ny, nx = c
    m = make("int16", 1, ny, nx, 0b10, g)
    r = build(m)
    rx, ry = GRIDS[g][:2]
    tol = 1e-6 * min(rx, ry)
    want_b = (
        m.x[0] - rx / 2, m.y[-1] - ry / 2, m.x[-1] + rx / 2, m.y[0] + ry / 2
    )
    if not np.allclose(r.bounds, want_b, rtol=0, atol=tol):
        rec.bad("xy|bounds", f"{r.bounds} expected {want_b}")
    a = r.affine
    for i, j in np.ndindex(ny, nx):
        for o, (dy, dx) in OFF.items():
            rec.trans()
            rec.state(c, i, j, o)
            x, y = r.xy(i, j, o)
            wx, wy = m.x[j] + dx * rx, m.y[i] + dy * ry
            if abs(x - wx) > tol or abs(y - wy) > tol:
                rec.bad(
                    f"xy|{o}", f"cell {i},{j} of grid {g}: {(x, y)} expected "
                    f"{(wx, wy)}",
                )
        for fy, fx in itertools.product((0.01, 0.3, 0.5, 0.99), repeat=2):
            px, py = m.x[j] + (fx - 0.5) * rx, m.y[i] - (fy - 0.5) * ry
            rec.trans()
            got = r.index(px, py)
            if tuple(int(v) for v in got) != (i, j):
                rec.bad("index", f"{(px, py)} -> {got} expected {(i, j)}")
        rec.trace()
        rec.outcome(i, j, r.xy(i, j), tuple(a))
    rows, cols = np.indices((ny, nx))
    X, Y = r.xy(rows.ravel(), cols.ravel())
    R, C = r.index(X, Y)
    if not (
        np.allclose(X, m.x[cols.ravel()], rtol=0, atol=tol)
        and np.allclose(Y, m.y[rows.ravel()], rtol=0, atol=tol)
        and np.array_equal(R, rows.ravel())
        and np.array_equal(C, cols.ravel())
    ):
        rec.bad("xy|arrays", f"array form wrong on grid {g}")
    # outside
    x, y = m.x[0] - rx, m.y[0] + ry
    if tuple(int(v) for v in r.index(x, y)) != (-1, -1):
        rec.bad("index|outside", f"{r.index(x, y)}")
    rec.sample({"grid": GRIDS[g], "shape": (ny, nx)})


def case_points(rec, c):
    dt, nb, ny, nx, bits, g, chs = c
    m = make(dt, nb, ny, nx, bits, g)
    base = None
    for ch in chs:
        r = build(m, ch)
        rec.trans()
        rec.state(c, ch)
        df = (r.to_points() if g != 1 else r.to_vector()).compute()
        rec.trace()
        key = f"points|{dt}|{int(bits is not None)}"
        idx = np.argwhere(~m.mask)
        f = []
        if list(df.columns) != ["value", "band", "row", "col", "geometry"]:
            f.append(f"columns {list(df.columns)}")
        if len(df) != len(idx):
            f.append(f"{len(df)} points expected {len(idx)}")
        if not df.index.is_unique:
            f.append("index not unique")
        if df["value"].dtype != m.dtype:
            f.append(f"value dtype {df['value'].dtype}")
        if not crs_equal(df.crs, m.crs):
            f.append(f"crs {df.crs}")
        if not f:
            df2 = df.sort_values(["band", "row", "col"])
            want = m.data[~m.mask]
            cells = np.c_[
                df2["band"].to_numpy() - 1, df2["row"], df2["col"]
            ]
            if not np.array_equal(cells, idx):
                f.append(f"cells {cells.tolist()} expected {idx.tolist()}")
            elif not np.array_equal(df2["value"].to_numpy(), want):
                f.append(
                    f"values {df2['value'].tolist()} expected {want.tolist()}"
                )
            else:
                px = df2.geometry.x.to_numpy()
                py = df2.geometry.y.to_numpy()
                t = 1e-6 * min(GRIDS[g][:2])
                if not (
                    np.allclose(px, m.x[idx[:, 2]], rtol=0, atol=t)
                    and np.allclose(py, m.y[idx[:, 1]], rtol=0, atol=t)
                ):
                    f.append(f"points {px} {py}")
                flat = np.ravel_multi_index(tuple(idx.T), m.shape)
                if base is None:
                    base = df2.index.to_numpy()
                elif not np.array_equal(base, df2.index.to_numpy()):
                    f.append(
                        f"index {df2.index.tolist()} depends on chunks "
                        f"(was {base.tolist()}, cells {flat.tolist()})"
                    )
        rec.outcome(df.to_string())
        if f:
            rec.bad(key, "; ".join(f)[:1000], (c, ch))
    rec.sample({"dtype": dt, "mask": bits, "layouts": len(chs)})


def case_polys(rec, c):
    dt, pair, codes, nb, ny, nx, neigh, ch, via = c
    codes = np.array(codes).reshape(nb, ny, nx)
    vals = np.array([pair[0], pair[0], pair[1]], dt)[codes]
    m = M(vals, codes == 0, default_null(dt), *grid(0, ny, nx))
    r = build(m, ch)
    rec.trans()
    rec.state(c)
    src = r.data
    if via:
        df = r.to_vector(as_polygons=True, neighbors=neigh).compute()
    else:
        df = r.to_polygons(neigh).compute()
    rec.trace()
    key = f"polygons|{dt}|{neigh}"
    f = []
    if list(df.columns) != ["value", "band", "geometry"] and set(
        df.columns
    ) != {"value", "band", "geometry"}:
        f.append(f"columns {list(df.columns)}")
    if not crs_equal(df.crs, m.crs):
        f.append(f"crs {df.crs}")
    want = {}
    for b, i, j in np.argwhere(~m.mask):
        want.setdefault((int(b) + 1, vals[b, i, j].item()), []).append((i, j))
    got = {}
    for v, b, geom in zip(df["value"], df["band"], df.geometry):
        got.setdefault((int(b), v), []).append(geom)
    if set(got) != set(want):
        f.append(f"(band, value) {sorted(got)} expected {sorted(want)}")
    else:
        for kk, cells in want.items():
            geom = shapely.union_all(got[kk])
            if len(got[kk]) != 1:
                f.append(f"{kk} appears {len(got[kk])} times")
            boxes = shapely.union_all(
                [
                    shapely.box(
                        m.x[j] - 5, m.y[i] - 5, m.x[j] + 5, m.y[i] + 5
                    )
                    for i, j in cells
                ]
            )
            if abs(geom.area - 100 * len(cells)) > 1e-6 or (
                geom.symmetric_difference(boxes).area > 1e-6
            ):
                f.append(f"{kk} covers {geom.wkt} expected cells {cells}")
            rec.outcome(kk, geom.normalize().wkt)
    if f:
        rec.bad(key, "; ".join(map(str, f))[:1000], (c, m))
    if not np.array_equal(np.asarray(src.compute()), m.burned().data):
        rec.bad(key + "|input", "input changed", c)
    rec.sample({"dtype": dt, "codes": codes.tolist(), "neighbors": neigh})


def case_parts(rec, c):
    dt, nb, ny, nx, bits, g, chs = c
    m = make(dt, nb, ny, nx, bits, g)
    rx, ry = GRIDS[g][:2]
    t = 1e-6 * min(rx, ry)
    for ch in chs:
        r = build(m, ch)
        rec.trans()
        rec.state(c, ch)
        q = r.to_quadrants()
        h, w = ny // 2, nx // 2
        if h and w:
            for name, sy, sx in (
                ("nw", slice(0, h), slice(0, w)),
                ("ne", slice(0, h), slice(w, nx)),
                ("sw", slice(h, ny), slice(0, w)),
                ("se", slice(h, ny), slice(w, nx)),
            ):
                part = getattr(q, name)
                o = observe(part)
                rec.trace()
                want = m.burned().copy(
                    data=m.burned().data[:, sy, sx], mask=m.mask[:, sy, sx],
                    x=m.x[sx], y=m.y[sy],
                )
                f = compare(o, want) + [
                    z for z in invariants(o) if "chunks" not in z
                ]
                if f:
                    rec.bad(f"quadrants|{name}", "; ".join(f)[:900], (c, ch))
                rec.outcome(o.canon())
        parts = r.get_chunk_rasters()
        if parts.shape != (nb, len(ch[0]), len(ch[1])):
            rec.bad("chunk_rasters|shape", f"{parts.shape}", (c, ch))
            continue
        boxes = r.get_chunk_bounding_boxes()
        boxes3 = r.get_chunk_bounding_boxes(include_band=True)
        if len(boxes) != len(ch[0]) * len(ch[1]) or len(
            boxes3
        ) != parts.size or not crs_equal(boxes.crs, m.crs):
            rec.bad("boxes|count", f"{len(boxes)} {len(boxes3)}", (c, ch))
            continue
        bt = {
            (a, b): gm
            for a, b, gm in zip(
                boxes.chunk_row, boxes.chunk_col, boxes.geometry
            )
        }
        bt3 = {
            (z, a, b): gm
            for z, a, b, gm in zip(
                boxes3.chunk_band, boxes3.chunk_row, boxes3.chunk_col,
                boxes3.geometry,
            )
        }
        ys = np.cumsum((0,) + tuple(ch[0]))
        xs = np.cumsum((0,) + tuple(ch[1]))
        obs = dask.compute(
            *[(p.data, p.mask) for p in parts.ravel()]
        )
        for n, (b, a, e) in enumerate(np.ndindex(parts.shape)):
            p = parts[b, a, e]
            sy, sx = slice(ys[a], ys[a + 1]), slice(xs[e], xs[e + 1])
            d, k = obs[n]
            rec.trace()
            f = []
            if not (
                np.array_equal(d, m.burned().data[b : b + 1, sy, sx])
                and np.array_equal(k, m.mask[b : b + 1, sy, sx])
            ):
                f.append(f"cells {d.tolist()} {k.tolist()}")
            if not (
                np.allclose(p.x, m.x[sx], rtol=0, atol=t)
                and np.allclose(p.y, m.y[sy], rtol=0, atol=t)
            ):
                f.append("coordinates")
            if not crs_equal(p.crs, m.crs) or p.band.tolist() != [1]:
                f.append(f"crs/band {p.crs} {p.band}")
            if (p.null_value is None) != (m.nv is None):
                f.append(f"null value {p.null_value}")
            if f:
                rec.bad("chunk_rasters", "; ".join(f)[:900], (c, ch, b, a, e))
            bx = (
                m.x[sx][0] - rx / 2, m.y[sy][-1] - ry / 2,
                m.x[sx][-1] + rx / 2, m.y[sy][0] + ry / 2,
            )
            for name, tab, kk in (
                ("boxes", bt, (a, e)), ("boxes3", bt3, (b, a, e))
            ):
                gm = tab.get(kk)
                if gm is None or not np.allclose(
                    gm.bounds, bx, rtol=0, atol=t
                ):
                    rec.bad(
                        name, f"chunk {kk}: {gm and gm.bounds} expected {bx}",
                        (c, ch),
                    )
            # bounds/affine of the chunk raster itself
            if d.shape[1] > 1 and d.shape[2] > 1 and not np.allclose(
                p.bounds, bx, rtol=0, atol=t
            ):
                rec.bad("chunk_rasters|bounds", f"{p.bounds} {bx}", (c, ch))


def run(ctx):
    T = ctx.thorough
    ctx.explore(
        "xy/index",
        [(g, ny, nx) for g in range(len(GRIDS))
         for ny, nx in ((2, 2), (2, 5), (4, 3), (7, 6))],
        case_xy,
    )
    cases = []
    n = 0
    for dt in ALL_DTYPES:
        for bits in [None] + list(range(64)):
            n += 1
            if not T and dt not in ("int16",) and n % 9:
                continue
            chs = chunkings(2, 3)
            cases.append(
                (dt, 1, 2, 3, bits, n % len(GRIDS), chs if T else chs[n % 3 :: 3])
            )
        cases.append((dt, 2, 3, 3, 0b1011001110001101, 0, chunkings(3, 3)[::3]))
        cases.append((dt, 3, 2, 2, None, 1, chunkings(2, 2)))
    ctx.explore("points", cases, case_points)
    pairs = {
        "uint8": (3, 0), "int8": (-3, 5), "int16": (-3, 5), "uint16": (1, 9),
        "int32": (7, -70000), "uint32": (1, 2**31 + 5),
        "int64": (2**40, 2**40 + 1), "uint64": (3, 2**60 + 1),
        "float16": (0.5, -2.0), "float32": (0.1, 0.25),
        "float64": (0.1, 0.1 + 1e-12), "bool": (False, True),
    }
    cases = []
    chs = chunkings(2, 3)
    n = 0
    for codes in itertools.product((0, 1, 2), repeat=6):
        n += 1
        if T or n % 4 == 0:
            cases.append(
                ("int16", pairs["int16"], codes, 1, 2, 3, (4, 8)[n // 4 % 2],
                 chs[n // 8 % len(chs)], n % 3 == 0)
            )
    c33 = chunkings(3, 3)
    for dt in ALL_DTYPES:
        if dt == "bool":
            # the default null value of bool is True
            pr = (False, False)
        else:
            pr = pairs[dt]
        for k, codes in enumerate((
            (1, 2, 1, 2, 1, 2, 1, 2, 1), (0, 1, 2, 0, 1, 2, 0, 1, 2),
            (1, 1, 1, 1, 0, 1, 1, 1, 1), (2, 2, 0, 0, 2, 2, 1, 2, 1),
        )):
            for ne in (4, 8):
                for ch in (c33 if T else c33[k::5]):
                    cases.append((dt, pr, codes, 1, 3, 3, ne, ch, False))
    cases.append(
        ("int32", (4, 9), (1, 2, 0, 1, 2, 2, 0, 1), 2, 2, 2, 4,
         ((1, 1), (2,)), False)
    )
    ctx.explore("polygons", cases, case_polys)
    cases = []
    for k, (ny, nx) in enumerate(((2, 2), (3, 3), (2, 5), (4, 5), (5, 4))):
        al = chunkings(ny, nx)
        step = 1 if T else (1 if len(al) < 40 else 4)
        for i in range(0, len(al), 8 * step):
            for j, (dt, nb, bits) in enumerate((
                ("int16", 1, 0b1100100110), ("float32", 2, None),
            )):
                cases.append(
                    (dt, nb, ny, nx, bits, (k + j) % len(GRIDS),
                     al[i : i + 8 * step : step])
                )
    ctx.explore("parts", cases, case_parts)
