"""C10 focal statistics equal the statistic of each neighbourhood."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    observe,
)
from mc.stats import small_values, stat

LEVEL = "model_checking"
RULE = (
    "patterns: one raster per window that holds, block by block, every "
    "content of the window over {null, 3 values} (fewer values for the "
    "larger windows) x every statistic x masked/unmasked x float/int; edges: "
    "every 2x2 and 2x3 raster over {null, value} x windows; dtypes: every "
    "dtype x statistic x mask x ignore_null x chunk layouts; windows: every "
    "radius, annulus and rectangle up to the bound"
)
BOUNDS = (
    "windows up to 9 cells exhaustively (13-cell circle over null/1 value), "
    "rasters of those patterns, 2x2/2x3 edge rasters"
)
ASSUMPTIONS = [
    "a rectangle window given as (a, b) has a rows and b columns, as the "
    "repository's tests pin it; for even sizes the extra row/column is below "
    "and to the right, as for ESRI",
    "asm is the positive sum of squared probabilities, as the tests pin it",
    "the value of sum/asm/entropy at a valid cell whose window has no valid "
    "cell at all (annulus) may be 0 or null; an unmasked raster's value at a "
    "cell with no cell in the window is not judged",
]

STATS = (
    "asm", "entropy", "max", "mean", "median", "min", "mode", "std", "sum",
    "unique", "var",
)
ZERO = ("sum", "asm", "entropy")


def window(spec):
    a, h = spec
    if h is not None:
        return np.ones((a, h), bool)

    def disc(r, n):
        g = np.arange(n) - n // 2
        return (g[:, None] ** 2 + g[None] ** 2) <= (r - 1) ** 2

    if isinstance(a, tuple):
        n = 2 * a[1] - 1
        return disc(a[1], n) & ~disc(a[0], n)
    return disc(a, 2 * a - 1)


def gather(data, valid, w):
    """(ncell, k) window values and validity, clipped at the edge."""
    ny, nx = data.shape
    kr, kc = w.shape
    t, l = (kr - 1) // 2, (kc - 1) // 2
    d = np.zeros((ny + kr, nx + kc), data.dtype)
    v = np.zeros((ny + kr, nx + kc), bool)
    d[t:t + ny, l:l + nx] = data
    v[t:t + ny, l:l + nx] = valid
    D, V = [], []
    for a, b in zip(*np.nonzero(w)):
        D.append(d[a:a + ny, b:b + nx].ravel())
        V.append(v[a:a + ny, b:b + nx].ravel())
    return np.array(D).T, np.array(V).T


def expected(name, data, valid, w):
    """Value and count of valid cells of every window."""
    D, V = gather(data, valid, w)
    alphabet = np.unique(data)
    counts = np.stack(
        [((D == u) & V).sum(1) for u in alphabet], axis=1
    )
    uniq, inv = np.unique(counts, axis=0, return_inverse=True)
    vals = np.full(len(uniq), np.nan)
    for i, c in enumerate(uniq):
        xs = [u for u, k in zip(alphabet, c) for _ in range(k)]
        if xs:
            vals[i] = stat(name, xs)
    inv = inv.ravel()
    return (
        vals[inv].reshape(data.shape),
        counts.sum(1).reshape(data.shape),
    )


def judge(rec, key, m, o, name, w, ignore, tol, info):
    """Compare one observed focal result with the definition."""
    f = invariants(o)
    masked = m.nv is not None
    if o.data.shape != m.shape:
        rec.bad(key + "|shape", f"{o.data.shape} for {m.shape}", info)
        return
    if masked != (o.nv is not None):
        f.append(f"null value {o.nv} for masked={masked}")
    if not (
        np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)
    ):
        f.append("grid changed")
    valid = ~m.mask if masked else np.ones(m.shape, bool)
    for b in range(m.shape[0]):
        e, n = expected(name, m.data[b], valid[b], w)
        got, null = o.data[b].astype(float), o.mask[b]
        keep_null = masked & ~valid[b] & (not ignore)
        if (null[keep_null] == False).any():  # noqa: E712
            f.append("a null cell of the input has data")
        live = ~keep_null
        if masked:
            empty = live & (n == 0)
            if name in ZERO:
                # a valid cell with an empty window: 0 or null
                empty &= ~valid[b]
            if not null[empty].all():
                f.append("data where the window has no valid cell")
        has = live & (n > 0)
        if null[has].any():
            i = np.argwhere(has & null)[0]
            f.append(f"null at {i} although {n[tuple(i)]} valid cells")
            continue
        diff = has & ~(
            np.abs(got - np.nan_to_num(e))
            <= 1e-9 + tol * np.maximum(np.abs(e), np.abs(got))
        )
        if diff.any():
            i = tuple(np.argwhere(diff)[0])
            f.append(
                f"{int(diff.sum())} cells differ, e.g. band {b} {i}: "
                f"{got[i]} expected {e[i]}"
            )
    if f:
        rec.bad(key, "; ".join(f)[:1000], info)


def tol_of(o, name, dt):
    if name in ("max", "min", "unique", "mode"):
        return 0.0
    if name in ("std", "var", "mean", "median", "sum"):
        return 2e-6 if np.dtype(dt).itemsize < 8 else 1e-12
    return 2e-6


def layouts(ny, nx):
    """A few chunkings of a large raster that cut through blocks."""
    def cut(n, at):
        at = sorted({a for a in at if 0 < a < n})
        return tuple(np.diff([0, *at, n]).tolist())

    return [
        ((ny,), (nx,)),
        (cut(ny, [ny // 2, ny // 2 + 1]), cut(nx, [5, 6, nx - 1])),
        (cut(ny, [2, ny - 2]), (nx,)),
        ((ny,), cut(nx, range(7, nx, max(7, nx // 5)))),
    ]


def pattern_raster(w, letters):
    """Grid of indices into the alphabet: a block per window content."""
    kr, kc = w.shape
    pos = np.argwhere(w)
    n = letters ** len(pos)
    cols = int(np.ceil(np.sqrt(n * kr / kc)))
    rows = -(-n // cols)
    g = np.zeros((rows * kr, cols * kc), "int8")
    for i in range(rows * cols):
        r, c = divmod(i, cols)
        j = i % n
        for a, b in pos:
            g[r * kr + a, c * kc + b] = j % letters
            j //= letters
    return g


PATTERNS = [  # window, letters with a null, letters without
    ((1, None), 4, 3), ((2, None), 4, 4), ((3, None), 2, 2),
    (((1, 2), None), 4, 4), (((2, 3), None), 3, 3),
    ((3, 3), 3, 3), ((1, 3), 4, 4), ((2, 2), 4, 4), ((2, 3), 3, 4),
    ((4, 1), 4, 4), ((3, 2), 3, 3),
]
VALUES = {
    "int": np.array([3, -2, 7, 0], "int16"),
    "float": np.array([0.5, -1.25, 8.0, 3.0], "float32"),
    "double": np.array([0.1, -1e6, 8.0, 3.0], "float64"),
}


def case_patterns(rec, c):
    from raster_tools import focal

    name, kind, masked, specs = c
    for si, (spec, lm, lu) in specs:
        w = window(spec)
        letters = lm if masked else lu
        g = pattern_raster(w, letters)
        vals = VALUES[kind]
        if masked:
            d = vals[np.maximum(g.astype(int) - 1, 0)][None]
            k = (g == 0)[None]
            nv = default_null(vals.dtype) if si % 2 else (
                vals[3] if letters < 4 else -77
            )
            m = M(d, k, nv)
        else:
            m = M(vals[g][None], None, None)
        ls = layouts(*g.shape)
        ls = [ls[0], ls[1 + si % 3]]
        for li, ch in enumerate(ls):
            ignore = bool(masked and (si + li) % 2)
            rec.trans()
            rec.state(name, kind, masked, spec, li, ignore)
            r = build(m, ch)
            o = observe(focal.focal(r, name, *spec, ignore_null=ignore))
            rec.trace()
            rec.outcome(o.canon())
            key = f"patterns|{name}|{kind}|{int(masked)}|{spec}"
            judge(
                rec, key, m, o, name, w, ignore,
                tol_of(o, name, vals.dtype), (c[:3], spec, ch),
            )
    rec.sample({"stat": name, "kind": kind, "masked": masked})


EDGE_WINDOWS = [
    (1, None), (2, None), (3, None), ((1, 2), None), ((2, 3), None),
    ((1, 3), None), (3, 3), (1, 2), (2, 2), (3, 1), (2, 4), (5, 2),
]


def case_edges(rec, c):
    shapes = ((2, 2), (2, 3), (3, 2))
    for ny, nx in shapes if c[-1] else shapes[:2]:
        edges(rec, (c[0], ny, nx, *c[1:]))


def edges(rec, c):
    from raster_tools import focal

    name, ny, nx, masked, dt, T = c
    n = STATS.index(name)
    base = np.array([0, 5, 9] if dt != "float32" else [0.0, 2.5, -4.0], dt)
    letters = 3 if T and ny * nx <= 4 else 2
    grids = np.array(
        list(itertools.product(range(letters), repeat=ny * nx))
    ).reshape(-1, ny, nx)
    if masked:
        # letter 0 is null
        d = base[grids]
        if letters == 2:
            d = np.where(
                (np.arange(ny * nx).reshape(ny, nx) % 2 == 0)[None],
                base[1], base[2],
            ) * np.ones_like(d)
            d = d.astype(dt)
        m = M(d, grids == 0, default_null(dt))
    else:
        m = M(base[grids], None, None)
    chs = chunkings(ny, nx)
    for wi, spec in enumerate(EDGE_WINDOWS):
        w = window(spec)
        if any(k // 2 + (k % 2 == 0) > q for k, q in zip(w.shape, (ny, nx))):
            # dask refuses overlaps larger than the array
            continue
        if not T and (wi + masked + ny * nx + n) % 2:
            continue
        for ci, ch in enumerate(chs):
            if not T and (ci + wi + n) % len(chs) not in (0,):
                continue
            ignore = bool(masked and (ci + wi + n) % 2)
            rec.trans()
            rec.state(name, ny, nx, masked, dt, spec, ci, ignore)
            o = observe(
                focal.focal(build(m, ch), name, *spec, ignore_null=ignore)
            )
            rec.trace()
            rec.outcome(o.canon())
            key = f"edges|{name}|{dt}|{int(masked)}|{spec}"
            judge(
                rec, key, m, o, name, w, ignore, tol_of(o, name, dt),
                (c, spec, ch),
            )


def case_dtypes(rec, c):
    from raster_tools import focal

    name, dts, T = c
    ny, nx = 4, 5
    chs = chunkings(ny, nx)
    h = STATS.index(name)
    for di, dt in enumerate(dts):
        vals = small_values(dt)
        a = np.arange(2 * ny * nx).reshape(2, ny, nx)
        d = vals[(a * a + a // 3) % 3]
        k = (a * 7) % 5 == 1
        for masked in (False, True):
            m = M(
                d, k if masked else None,
                default_null(dt) if masked else None,
            )
            for wi, spec in enumerate(
                ((2, None), (3, 3), ((1, 2), None), (2, 3))
            ):
                if not T and (wi + di + h) % 2:
                    continue
                h += 1
                ignore = masked and h % 2 == 0
                ch = chs[(h * 37) % len(chs)]
                rec.trans()
                rec.state(name, dt, masked, spec, ignore, ch)
                r = build(m, ch)
                o = observe(focal.focal(r, name, *spec, ignore_null=ignore))
                rec.trace()
                rec.outcome(o.canon())
                key = f"dtypes|{name}|{dt}|{int(masked)}|{spec}"
                judge(
                    rec, key, m, o, name, window(spec), ignore,
                    tol_of(o, name, "float32"), (c, spec, ch),
                )
                if not masked and name in ("min", "max", "mode")[
                    : 2 if dt == "bool" else 3
                ]:
                    if o.dtype.kind != np.dtype(dt).kind:
                        rec.bad(
                            key + "|dtype", f"{o.dtype} for {dt}", (c, spec)
                        )
                f = compare(observe(r), m.burned())
                if f:
                    rec.bad(key + "|input", "; ".join(f)[:400], (c, spec))


def case_wide(rec, c):
    """Windows of more than 255 cells with all values distinct."""
    from raster_tools import focal

    name, spec, masked = c
    ny, nx = 19, 23
    a = np.arange(ny * nx).reshape(1, ny, nx)
    m = M(
        ((a * 5) % 439).astype("float32"), a % 97 == 3 if masked else None,
        -1.0 if masked else None,
    )
    w = window(spec)
    for ch in (((19,), (23,)), ((9, 10), (12, 11))):
        rec.trans()
        rec.state(c, ch)
        o = observe(focal.focal(build(m, ch), name, *spec))
        rec.trace()
        rec.outcome(o.canon())
        judge(
            rec, f"wide|{name}|{spec}|{int(masked)}", m, o, name, w, False,
            2e-5, (c, ch),
        )


def case_windows(rec, c):
    from raster_tools import focal

    for spec in c:
        rec.trans()
        rec.state(spec)
        g = focal.get_focal_window(*spec)
        rec.trace()
        w = window(spec)
        if g.shape != w.shape or g.dtype != bool or (g != w).any():
            rec.bad(f"windows|{spec}", f"{g.astype(int).tolist()}", spec)


def case_errors(rec, c):
    from raster_tools import focal

    m = M(np.arange(12, dtype="int16").reshape(1, 3, 4))
    r = build(m)
    bad = [
        (lambda: focal.focal(r, "nope", 2), ValueError),
        (lambda: focal.focal(r, "max", 0), ValueError),
        (lambda: focal.focal(r, "max", -1, 3), ValueError),
        (lambda: focal.focal(r, "max", 2.5), TypeError),
        (lambda: focal.focal(r, "max", (3, 2)), ValueError),
        (lambda: focal.focal(r, "max", (1, 2), 3), ValueError),
        (lambda: focal.focal(r, "max", (1, 2, 3)), ValueError),
        (lambda: focal.focal(m.data, "max", 2), TypeError),
    ]
    for i, (fn, exc) in enumerate(bad):
        rec.trans()
        rec.state(i)
        try:
            fn()
        except exc:
            rec.trace()
            continue
        rec.bad(f"errors|{i}", "bad argument accepted")


NARROW = ("bool", "int8", "uint8", "int16", "uint16", "float16", "float32")


def together(c):
    """What compiles the same kernel."""
    name, what = c[0], c[1]
    if what in ("int", "float"):
        what = "float32"
    elif what == "double":
        what = "float64"
    elif isinstance(what, list):
        what = "float32" if what[0] in NARROW else "float64"
    else:
        what = "float32"
    return name, what


def run(ctx):
    with ctx.joint():
        kernels(ctx)
    T = ctx.thorough
    R = 9 if T else 7
    W = (
        [(r, None) for r in range(1, R)]
        + [((a, b), None) for b in range(2, R) for a in range(1, b)]
        + [(a, b) for a in range(1, R) for b in range(1, R)]
    )
    ctx.explore("windows", [W], case_windows)
    ctx.explore("errors", [0], case_errors)


def kernels(ctx):
    T = ctx.thorough
    specs = list(enumerate(PATTERNS))
    cases = []
    for name in STATS:
        for kind, masked in (
            ("int", True), ("float", True), ("int", False), ("float", False),
        ) + ((("double", True), ("double", False)) if T else ()):
            if not T and kind == "float" and name in ("min", "max", "unique"):
                continue
            sp = specs
            if not T:
                sp = [s for s in specs if (s[0] + len(kind)) % 2 == masked
                      or s[0] < 4]
            cases.append((name, kind, masked, sp))
    ctx.explore("patterns", cases, case_patterns, affinity=together)
    cases = [
        (name, masked, "float32" if not masked else "int16", T)
        for name in STATS
        for masked in (True, False)
    ]
    ctx.explore("edges", cases, case_edges, affinity=together)
    ctx.explore(
        "dtypes",
        [
            (name, [d for d in ALL_DTYPES if (d in NARROW) == narrow], T)
            for name in STATS for narrow in (True, False)
        ],
        case_dtypes, affinity=together,
    )
    ctx.explore(
        "wide",
        [
            (name, spec, mk)
            for spec in ((17, 17), (16, 16), (2, 17), (17, 2), (11, None),
                         ((3, 10), None))
            for name in (STATS if T else ("unique", "mean", "max"))
            for mk in (False, True)
            if T or (name == "unique" and not mk) or 2 in spec
        ],
        case_wide, affinity=together,
    )
