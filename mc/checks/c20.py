"""C20 padding and cropping keep cells at their coordinates."""

import itertools
import math

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "pad: every combination of per-side extents (inside, on the edge, "
    "fractions of a cell, whole cells) x fill x dtype x null state x target "
    "form; crop: every box with corners on a quarter-cell lattice"
)
BOUNDS = "grids 2x2..6x7, resolutions 10, 0.1, 1/3, 30, 2.777e-4"

GRIDS = [
    (10.0, 105.0, 995.0), (0.1, 0.05, 1.95), (1 / 3, 5.5, 7.25),
    (30.0, 1000015.0, 2000015.0), (0.3, -120.7, 45.2),
    (0.0002777, -110.3, 40.1),
]


def raster(dt, nb, ny, nx, masked, grid=0, nv=None):
    res, x0, y0 = GRIDS[grid]
    n = nb * ny * nx
    a = np.arange(n).reshape(nb, ny, nx)
    d = (a % 2 == 0) if dt == "bool" else (a % 100 + 1).astype(dt)
    k = (a * 5) % 7 == 2
    if masked and nv is None:
        nv = default_null(dt)
    return M(
        d, k if masked else None, nv if masked else None,
        x0 + np.arange(nx) * res, y0 - np.arange(ny) * res,
    )


def expected_pad(m, n, fill, res):
    left, bottom, right, top = n
    nb, ny, nx = m.shape
    shape = (nb, ny + top + bottom, nx + left + right)
    data = np.zeros(shape, m.dtype)
    mask = np.zeros(shape, bool)
    nv = m.nv
    if fill is None:
        nv = m.nv if m.nv is not None else default_null(m.dtype)
    fl = fill if isinstance(fill, (list, tuple)) else [fill] * nb
    for b in range(nb):
        null = fill is None or (
            m.nv is not None and nv_equal(fl[b], m.nv)
        )
        mask[b] = null
        data[b] = np.array(nv if null else fl[b]).astype(m.dtype)
    i = (slice(None), slice(top, top + ny), slice(left, left + nx))
    data[i] = m.data
    mask[i] = m.mask
    x = m.x[0] + (np.arange(shape[2]) - left) * res
    y = m.y[0] - (np.arange(shape[1]) - top) * res
    return M(data, mask, nv, x, y, m.crs)


def case_pad(rec, c):
    dt, nb, ny, nx, masked, grid, ext, fill, form, ch, nocrs = c
    from odc.geo.geobox import GeoBox

    from raster_tools import pad

    m = raster(dt, nb, ny, nx, masked, grid)
    if nocrs:
        m.crs = None
    res = GRIDS[grid][0]
    r = build(m, chunkings(ny, nx)[ch % 2 ** (ny + nx - 2)])
    minx, maxx = m.x[0] - res / 2, m.x[-1] + res / 2
    miny, maxy = m.y[-1] - res / 2, m.y[0] + res / 2
    l, b, rt, t = ext
    box = (minx - l * res, miny - b * res, maxx + rt * res, maxy + t * res)
    n = tuple(max(math.ceil(e - 1e-9), 0) for e in ext)
    if form == "list":
        target = list(box)
    elif form == "array":
        target = np.array(box)
    elif form == "geobox":
        w = int(round((box[2] - box[0]) / res))
        h = int(round((box[3] - box[1]) / res))
        from affine import Affine

        target = GeoBox(
            (h, w), Affine(res, 0, box[0], 0, -res, box[3]), m.crs
        )
    elif form == "raster":
        w = int(round((box[2] - box[0]) / res))
        h = int(round((box[3] - box[1]) / res))
        target = build(
            M(
                np.zeros((h, w), "uint8"), None, None,
                box[0] + res / 2 + np.arange(w) * res,
                box[3] - res / 2 - np.arange(h) * res, m.crs,
            )
        )
    else:
        target = box
    rec.trans()
    rec.state(c)
    g = (
        r.pad(target, fill_values=fill)
        if ch % 2
        else pad(r, target, fill_values=fill)
    )
    o = observe(g)
    rec.trace()
    rec.outcome(o.canon())
    want = expected_pad(m, n, fill, res)
    key = f"pad|{dt}|{int(masked)}|g{grid}|{type(fill).__name__}|{form}"
    f = invariants(o)
    f += compare(o, want)
    if o.data.shape == want.shape and not (
        np.allclose(o.x, want.x, rtol=0, atol=1e-6 * res)
        and np.allclose(o.y, want.y, rtol=0, atol=1e-6 * res)
    ):
        f.append(f"coordinates {o.x} {o.y} expected {want.x} {want.y}")
    if f:
        rec.bad(key, "; ".join(f)[:1200], (c, m))
        return
    # cropping back gives the original
    if grid == 0 and m.crs is not None:
        from raster_tools.clipping import clip_box

        rec.trans()
        back = observe(clip_box(g, (minx, miny, maxx, maxy)))
        f = compare(back, m.burned().copy(nv=want.nv))
        if f:
            rec.bad(key + "|crop", "; ".join(f)[:1200], (c, m))
    f = compare(observe(r), m.burned())
    if f:
        rec.bad(key + "|input", "; ".join(f)[:500], m)
    rec.sample({"ext": ext, "fill": str(fill), "dtype": dt, "form": form})


def touched(lo, hi, n):
    """Cells of 0..n-1 overlapping [lo, hi] (cell units), strictly."""
    a = max(math.floor(lo + 1e-9), 0)
    b = min(math.ceil(hi - 1e-9), n)
    return list(range(a, b))


def case_crop(rec, c):
    dt, nb, ny, nx, masked, grid, ys, ch = c
    from raster_tools.clipping import clip_box
    from raster_tools.exceptions import RasterNoDataError

    m = raster(dt, nb, ny, nx, masked, grid)
    res = GRIDS[grid][0]
    chs = chunkings(ny, nx)
    r = build(m, chs[ch % len(chs)])
    X0, Y0 = m.x[0] - res / 2, m.y[0] + res / 2
    y0, y1 = ys
    xs = [-5.0, -4.0, -0.75, 0.0, 0.25, 1.0, 1.5, nx - 1.0, nx - 0.5,
          float(nx), nx + 0.75, nx + 4.0, nx + 5.0]
    for x0, x1 in itertools.combinations(xs, 2):
        rows, cols = touched(y0, y1, ny), touched(x0, x1, nx)
        rec.trans()
        rec.state(c, x0, x1)
        box = (X0 + x0 * res, Y0 - y1 * res, X0 + x1 * res, Y0 - y0 * res)
        key = f"crop|{dt}|{int(masked)}|g{grid}"
        try:
            g = clip_box(r, list(box) if ch % 2 else box)
        except RasterNoDataError:
            far = x1 <= 0 or x0 >= nx or y1 <= 0 or y0 >= ny
            if not far:
                rec.bad(key + "|nodata", f"{box} refused", (c, x0, x1))
            rec.trace()
            continue
        except Exception as e:  # noqa: BLE001
            far = x1 <= -3 or x0 >= nx + 3 or y1 <= -3 or y0 >= ny + 3
            if far or (rows and cols):
                rec.bad(
                    key + f"|{type(e).__name__}", f"{box}: {e}", (c, x0, x1)
                )
            continue
        o = observe(g)
        rec.trace()
        rec.outcome(o.canon())
        if not rows or not cols:
            far = x1 <= -3 or x0 >= nx + 3 or y1 <= -3 or y0 >= ny + 3
            if far:
                rec.bad(key + "|outside", f"{box} gave {o.shape}", (c, x0))
            continue
        exact = len(rows) > 1 and len(cols) > 1 and grid == 0
        if not exact:
            # one cell wide crops are widened by design and float noise may
            # include a neighbour; the result must stay a window
            i0 = int(round((m.y[0] - o.y[0]) / res))
            j0 = int(round((o.x[0] - m.x[0]) / res))
            R = list(range(i0, i0 + o.shape[1]))
            C = list(range(j0, j0 + o.shape[2]))
            ok = (
                R[0] >= 0 and C[0] >= 0 and R[-1] < ny and C[-1] < nx
                and set(rows) <= set(R) and set(cols) <= set(C)
                and len(R) <= len(rows) + 2 and len(C) <= len(cols) + 2
            )
            if not ok:
                rec.bad(
                    key + "|window",
                    f"rows {R} cols {C} for {rows} {cols}", (c, x0, x1),
                )
                continue
            rows, cols = R, C
        i = np.ix_(range(nb), rows, cols)
        want = m.copy(
            data=m.data[i], mask=m.mask[i], x=m.x[cols], y=m.y[rows]
        ).burned()
        f = invariants(o) + compare(o, want)
        if f:
            rec.bad(key, "; ".join(f)[:1200], (c, x0, x1))


def case_errors(rec, c):
    from raster_tools import pad

    m = raster("int16", 2, 3, 3, True)
    r = build(m)
    b = r.bounds
    bad = [
        (lambda: pad(r, b[:3]), ValueError),
        (lambda: pad(r, 5), TypeError),
        (lambda: pad(r, b, fill_values=[1]), ValueError),
        (lambda: pad(r, b, fill_values=[1, 2, 3]), ValueError),
        (lambda: pad(r, b, fill_values="x"), TypeError),
        (lambda: pad(r, build(raster("int16", 1, 2, 2, False).copy(
            crs="EPSG:4326"))), ValueError),
    ]
    for i, (fn, exc) in enumerate(bad):
        rec.trans()
        rec.state(i)
        try:
            fn()
        except exc:
            rec.trace()
            continue
        rec.bad(f"errors|{i}", "bad argument accepted")


def run(ctx):
    T = ctx.thorough
    es = (-0.5, 0, 0.3, 1, 1.5, 3)
    cases = []
    n = 0
    for ext in itertools.product(es, repeat=4):
        n += 1
        for j, (dt, mk, fill) in enumerate((
            ("int16", True, None), ("float32", False, None),
            ("uint8", True, 7), ("float64", True, [-999999.0, 2.5]),
        )):
            if T or (n + j) % 3 == 0:
                nb = 2 if isinstance(fill, list) else 1
                cases.append(
                    (dt, nb, 2 + n % 2, 2 + (n // 2) % 2, mk, 0, ext, fill,
                     "tuple", n, False)
                )
    whole = list(itertools.product((0, 1, 2), repeat=4))
    for g in range(len(GRIDS)):
        for e in whole:
            for ny, nx in ((2, 3), (5, 4)):
                n += 1
                if T or n % 2:
                    cases.append(
                        ("int32", 1, ny, nx, True, g, e, None, "tuple", n,
                         False)
                    )
    for dt in ALL_DTYPES:
        nv = default_null(dt)
        for mk in (False, True):
            for fill in (None, 1, 0, nv, [1, nv], [nv, 0], (nv, nv)):
                for form in ("list", "array", "geobox", "raster"):
                    for e in ((1, 0, 2, 0), (0, 1, 0, 1)):
                        n += 1
                        if T or n % 3 == 0:
                            cases.append(
                                (dt, 2, 3, 2, mk, 0, e, fill, form, n,
                                 n % 5 == 0)
                            )
    ctx.explore("pad", cases, case_pad)
    ys = [-5.0, -4.0, -0.5, 0.0, 0.25, 1.0, 2.5, 4.0, 4.5, 9.0, 10.0]
    cases = [
        (dt, nb, 4, 5, mk, g, yy, n)
        for n, yy in enumerate(itertools.combinations(ys, 2))
        for dt, nb, mk, g in (
            ("int16", 1, True, 0), ("float32", 2, False, 0),
            ("uint8", 1, True, 1), ("bool", 1, False, 0),
        )
        if T or (n + g + nb) % 2 == 0
    ]
    ctx.explore("crop", cases, case_crop)
    ctx.explore("errors", [0], case_errors)
