"""C12 surface derivatives match their published formulas."""

import itertools

import numpy as np

from mc import surf
from mc.checks.c10 import expected as focal_expected
from mc.checks.c10 import window
from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "patterns: every 3x3 elevation neighbourhood over a small alphabet "
    "(with null), tiled into one raster, x function x cell size x chunk "
    "layout; nulls: every single and pairwise null position on a small "
    "raster; dtypes: every dtype x function x mask x chunk layout; sun: "
    "azimuth x altitude lattice; tpi: every radius pair"
)
BOUNDS = "alphabet of 2-3 levels (+null), rasters up to about 120x120 cells"
ASSUMPTIONS = [
    "hillshade values within rounding of an integer may be off by one (the "
    "result is truncated); 255 itself is the documented null value and is "
    "not judged",
    "flat cells have aspect -1 and northing/easting of that angle",
]

TRIG = {
    "northing": np.cos, "easting": np.sin,
}


def funcs():
    from raster_tools import surface as s

    return {
        "slope": (s.slope, surf.slope),
        "percent": (
            lambda r: s.slope(r, degrees=False),
            lambda z, rx, ry: surf.slope(z, rx, ry, False),
        ),
        "aspect": (s.aspect, surf.aspect),
        "curvature": (s.curvature, surf.curvature),
        "hillshade": (s.hillshade, surf.hillshade),
        "area": (s.surface_area_3d, surf.surface_area),
        "northing": (
            s.northing, lambda *a: np.cos(np.radians(surf.aspect(*a)))
        ),
        "easting": (
            s.easting, lambda *a: np.sin(np.radians(surf.aspect(*a)))
        ),
    }


NAMES = (
    "slope", "percent", "aspect", "curvature", "hillshade", "area",
    "northing", "easting",
)


def make(data, mask, nv, rx, ry):
    nb, ny, nx = data.shape
    return M(
        data, mask, nv, 1000 + np.arange(nx) * rx, 5000 - np.arange(ny) * ry
    )


def judge(rec, key, name, m, o, ref, info):
    f = invariants(o)
    if o.data.shape != m.shape:
        rec.bad(key + "|shape", f"{o.data.shape} for {m.shape}", info)
        return
    if not (np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)):
        f.append("grid changed")
    for b in range(m.shape[0]):
        z = np.where(m.mask[b], np.nan, m.data[b].astype(float))
        e = np.asarray(ref(z), float)
        null = np.isnan(e) | m.mask[b]
        got, gnull = o.data[b].astype(float), o.mask[b]
        free = np.zeros(null.shape, bool)
        if name == "hillshade":
            free = ~null & (e > 254.99)
        if (null & ~gnull).any():
            i = tuple(np.argwhere(null & ~gnull)[0])
            f.append(f"{i} has a value ({got[i]}) but no valid neighbourhood")
        if (~null & gnull & ~free).any():
            i = tuple(np.argwhere(~null & gnull & ~free)[0])
            f.append(f"{i} is null, expected {e[i]}")
        live = ~null & ~gnull & ~free
        if name == "hillshade":
            ok = (got <= e + 1e-2) & (got >= np.floor(e - 1e-2) - 1e-9)
            ok &= got == np.floor(got)
            ok &= e - got < 1 + 1e-2
        else:
            tol = 1e-6 if name in ("northing", "easting") else 1e-8
            ok = np.abs(got - e) <= tol * (1 + np.abs(e))
            if name == "area":
                # Heron's formula cancels on flat triangles
                ok = np.abs(got - e) <= 1e-6 * (1 + np.abs(e))
        if (live & ~ok).any():
            i = tuple(np.argwhere(live & ~ok)[0])
            f.append(
                f"{int((live & ~ok).sum())} cells differ, e.g. {i}: {got[i]} "
                f"expected {e[i]}"
            )
    if f:
        rec.bad(key, "; ".join(f)[:900], info)


def layouts(ny, nx):
    def cut(n, at):
        at = sorted({a for a in at if 0 < a < n})
        return tuple(np.diff([0, *at, n]).tolist())

    return [
        ((ny,), (nx,)),
        (cut(ny, [ny // 2, ny // 2 + 1]), cut(nx, [4, 5, nx - 1])),
        (cut(ny, range(7, ny, max(7, ny // 4))), cut(nx, [nx // 3])),
    ]


CELLS = [(10.0, 10.0), (10.0, 25.0), (30.0, 12.5), (0.5, 0.5)]


def tiled(letters):
    n = letters ** 9
    cols = int(np.ceil(np.sqrt(n)))
    g = np.zeros((-(-n // cols) * 3, cols * 3), "int8")
    idx = np.arange(-(-n // cols) * cols) % n
    for a in range(3):
        for b in range(3):
            v = idx % letters
            idx = idx // letters
            g[a::3, b::3] = v.reshape(-1, cols)
    return g


def case_patterns(rec, c):
    name, part, parts, letters, withnull, dt, cell, li = c
    g = tiled(letters)
    rows = g.shape[0] // 3
    lo, hi = rows * part // parts * 3, rows * (part + 1) // parts * 3
    g = g[lo:hi]
    z = np.array([3, 17, 8, 60], dt)
    if withnull:
        m = make(
            z[np.maximum(g.astype(int) - 1, 0)][None], (g == 0)[None],
            default_null(dt), *CELLS[cell],
        )
    else:
        m = make(z[g][None], None, None, *CELLS[cell])
    f, ref = funcs()[name]
    ch = layouts(*g.shape)[li]
    rec.trans()
    rec.state(c)
    o = observe(f(build(m, ch)))
    rec.trace()
    rec.outcome(o.canon())
    judge(
        rec, f"patterns|{name}|{dt}|{int(withnull)}|{cell}", name, m, o,
        lambda z: ref(z, *CELLS[cell]), c,
    )
    rec.sample({"function": name, "letters": letters, "cell": CELLS[cell]})


def case_nulls(rec, c):
    name, dt, T = c
    ny, nx = 4, 5
    n = ny * nx
    pats = [(i,) for i in range(n)] + list(
        itertools.combinations(range(n), 2)
    )
    if not T:
        pats = pats[:n] + pats[n::4]
    k = np.zeros((len(pats), n), bool)
    for i, p in enumerate(pats):
        k[i, list(p)] = True
    k = k.reshape(-1, ny, nx)
    d = ((np.arange(n) * 37) % 101).reshape(1, ny, nx).astype(dt)
    m = make(
        np.broadcast_to(d, k.shape).copy(), k, default_null(dt), 10.0, 10.0
    )
    chs = chunkings(ny, nx)
    f, ref = funcs()[name]
    for i in range(3 if not T else 12):
        ch = chs[(i * 41 + len(name) * 13) % len(chs)]
        rec.trans()
        rec.state(c, ch)
        o = observe(f(build(m, ch)))
        rec.trace()
        rec.outcome(o.canon())
        judge(
            rec, f"nulls|{name}|{dt}", name, m, o,
            lambda z: ref(z, 10.0, 10.0), (c, ch),
        )


def case_dtypes(rec, c):
    name, dt, T = c
    ny, nx = 5, 6
    chs = chunkings(ny, nx)
    f, ref = funcs()[name]
    a = np.arange(2 * ny * nx).reshape(2, ny, nx)
    if dt == "bool":
        d = a * a % 3 == 1
    else:
        d = ((a * 53) % 97 + (100 if np.dtype(dt).kind == "u" else 0)).astype(
            dt
        )
    k = (a * 11) % 23 == 4
    for masked in (False, True):
        for cell in range(len(CELLS)):
            m = make(
                d, k if masked else None,
                default_null(dt) if masked else None, *CELLS[cell],
            )
            ch = chs[(cell * 97 + len(name) * 31 + len(dt)) % len(chs)]
            rec.trans()
            rec.state(c, masked, cell)
            r = build(m, ch)
            o = observe(f(r))
            rec.trace()
            rec.outcome(o.canon())
            key = f"dtypes|{name}|{dt}|{int(masked)}|{cell}"
            judge(
                rec, key, name, m, o, lambda z: ref(z, *CELLS[cell]), (c, ch)
            )
            if o.nv is None:
                rec.bad(key + "|nv", "no null value", c)
            f2 = compare(observe(r), m.burned())
            if f2:
                rec.bad(key + "|input", "; ".join(f2)[:400], c)


def case_chunks(rec, c):
    """Every chunking of one raster."""
    name, masked = c
    ny, nx = 4, 5
    a = np.arange(ny * nx).reshape(1, ny, nx)
    d = ((a * 29) % 83).astype("float32")
    k = a == 2
    m = make(
        d, k if masked else None, -1.0 if masked else None, 10.0, 20.0
    )
    f, ref = funcs()[name]
    for ch in chunkings(ny, nx):
        rec.trans()
        rec.state(c, ch)
        o = observe(f(build(m, ch)))
        rec.trace()
        rec.outcome(o.canon())
        judge(
            rec, f"chunks|{name}|{int(masked)}", name, m, o,
            lambda z: ref(z, 10.0, 20.0), (c, ch),
        )


def case_sun(rec, c):
    from raster_tools import surface

    azs, alts = c
    g = tiled(2)[:54, :54]
    m = make(
        np.array([0, 9], "float32")[g][None], None, None, 10.0, 10.0
    )
    r = build(m, ((20, 34), (54,)))
    for az in azs:
        for alt in alts:
            rec.trans()
            rec.state(az, alt)
            o = observe(surface.hillshade(r, azimuth=az, altitude=alt))
            rec.trace()
            rec.outcome(o.canon())
            judge(
                rec, f"sun|{az}|{alt}", "hillshade", m, o,
                lambda z: surf.hillshade(z, 10.0, 10.0, az, alt), c,
            )
            if o.dtype != np.uint8 or o.nv != 255:
                rec.bad(f"sun|{az}|{alt}|type", f"{o.dtype} {o.nv}", c)


def case_aspect_input(rec, c):
    """northing/easting of an aspect raster."""
    from raster_tools import surface

    dt, masked = c
    a = np.arange(24).reshape(1, 4, 6)
    d = (a * 15 % 361).astype(dt)
    k = a % 5 == 2
    m = make(
        d, k if masked else None, default_null(dt) if masked else None,
        10.0, 10.0,
    )
    for name in ("northing", "easting"):
        for ch in (((4,), (6,)), ((1, 3), (2, 4))):
            r = build(m, ch)
            rec.trans()
            rec.state(c, name, ch)
            o = observe(getattr(surface, name)(r, is_aspect=True))
            rec.trace()
            rec.outcome(o.canon())
            key = f"is_aspect|{name}|{dt}|{int(masked)}"
            judge(
                rec, key, name, m, o,
                lambda z: TRIG[name](np.radians(z)), (c, ch),
            )
            f = compare(observe(r), m.burned())
            if f:
                rec.bad(key + "|input", "; ".join(f)[:400], c)


def case_tpi(rec, c):
    from raster_tools import surface

    dt, masked, radii, T = c
    ny, nx = 7, 8
    a = np.arange(2 * ny * nx).reshape(2, ny, nx)
    d = ((a * 53) % 97).astype(dt)
    k = (a * 11) % 7 == 4
    m = make(
        d, k if masked else None, default_null(dt) if masked else None,
        10.0, 10.0,
    )
    inner, outer = radii
    w = window((outer if inner == 0 else (inner, outer), None))
    chs = [((7,), (8,)), ((3, 4), (5, 3)), ((4, 1, 2), (4, 4))]
    for ch in chs:
        rec.trans()
        rec.state(c, ch)
        o = observe(surface.tpi(build(m, ch), inner, outer))
        rec.trace()
        rec.outcome(o.canon())
        key = f"tpi|{dt}|{int(masked)}|{radii}"
        f = invariants(o)
        if o.dtype != np.int32:
            f.append(f"dtype {o.dtype}")
        for b in range(2):
            e, n = focal_expected(
                "mean", m.data[b].astype(float), ~m.mask[b], w
            )
            raw = m.data[b] - e + 0.5
            want = np.trunc(raw)
            null = m.mask[b] | (n == 0)
            if masked and (o.mask[b] != null).any():
                f.append("null cells differ")
            ok = (o.data[b] == want) | (
                # float noise next to an integer
                (np.abs(raw - np.round(raw)) < 1e-4)
                & (np.abs(o.data[b] - raw) < 1.001)
            )
            if (~null & ~o.mask[b] & ~ok).any():
                i = tuple(np.argwhere(~null & ~o.mask[b] & ~ok)[0])
                f.append(f"{i}: {o.data[b][i]} expected {want[i]}")
        if f:
            rec.bad(key, "; ".join(f)[:800], (c, ch))


def case_errors(rec, c):
    from raster_tools import surface

    r = build(make(np.ones((1, 4, 4)), None, None, 10.0, 10.0))
    bad = [
        (lambda: surface.tpi(r, 2, 2), ValueError),
        (lambda: surface.tpi(r, -1, 2), ValueError),
        (lambda: surface.tpi(r, 0, 0), ValueError),
        (lambda: surface.tpi(r, 1.5, 2), TypeError),
        (lambda: surface.slope(np.ones((3, 3))), TypeError),
    ]
    for i, (fn, exc) in enumerate(bad):
        rec.trans()
        rec.state(i)
        try:
            fn()
        except exc:
            rec.trace()
            continue
        rec.bad(f"errors|{i}", "bad argument accepted")


def run(ctx):
    T = ctx.thorough
    cases = []
    for n, name in enumerate(NAMES):
        for j, (letters, withnull, dt) in enumerate((
            (2, False, "float32"), (3, True, "int16"), (3, False, "float64"),
        )):
            for cell in range(len(CELLS)):
                for li in range(3):
                    if not T and (cell + li + n + j) % 6:
                        continue
                    cases.append(
                        (name, 0, 1, letters, withnull, dt, cell, li)
                    )
        if T:
            for part in range(8):
                cases.append((name, part, 8, 4, True, "float32", 1, 1))
    ctx.explore("patterns", cases, case_patterns)
    ctx.explore(
        "nulls",
        [(name, dt, T) for name in NAMES
         for dt in (("float32", "uint8") if T else ("float32",))],
        case_nulls,
    )
    ctx.explore(
        "dtypes", [(name, dt, T) for name in NAMES for dt in ALL_DTYPES],
        case_dtypes,
    )
    ctx.explore(
        "chunks",
        [(n, mk) for n in NAMES for mk in (False, True)
         if T or (len(n) + mk) % 2],
        case_chunks,
    )
    step = 15 if T else 45
    azs = list(range(0, 361, step)) + [-45, 400, 12.5]
    alts = [0, 10, 30, 45, 60, 89.5, 90]
    ctx.explore("sun", [(azs[i::8], alts) for i in range(8)], case_sun)
    ctx.explore(
        "is_aspect",
        [(dt, mk) for dt in ("float64", "float32", "float16", "int16")
         for mk in (False, True)],
        case_aspect_input,
    )
    ctx.explore(
        "tpi",
        [
            (dt, mk, rr, T)
            for dt in ("float32", "int16", "uint8", "float64")
            for mk in (False, True)
            for rr in (
                (0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3), (2, 4)
            )
            if T or dt in ("float32", "int16")
        ],
        case_tpi,
    )
    ctx.explore("errors", [0], case_errors)
