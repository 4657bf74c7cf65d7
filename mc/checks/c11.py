"""C11 correlation and convolution follow the discrete definition."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every kernel shape up to 4x4 (5x5 in the thorough tier) with distinct "
    "weights x every edge mode x correlate/convolve x chunk layouts; every "
    "null pattern of one and two cells and every 2x3 null pattern x modes; "
    "every dtype x kernel dtype x mask; unit kernels at every position"
)
BOUNDS = "rasters 2x3..6x7, kernels up to 5x5, chunk layouts of the 4x5 grid"
ASSUMPTIONS = [
    "results are judged where the weighted sum fits the raster's type "
    "(integer rasters keep their type with integer kernels, as the tests pin)",
    "for even kernel sizes the extra row/column is below and to the right "
    "(the ESRI convention the code documents)",
]

MODES = ("constant", "reflect", "nearest", "wrap")


def index(n, before, after, mode):
    """Source index (or -1) of positions -before .. n-1+after."""
    p = np.arange(-before, n + after)
    if mode == "constant":
        return np.where((p < 0) | (p >= n), -1, p)
    if mode == "nearest":
        return np.clip(p, 0, n - 1)
    if mode == "wrap":
        return p % n
    q = p % (2 * n)
    return np.where(q < n, q, 2 * n - 1 - q)


def expected(m, kern, mode, cval):
    nb, ny, nx = m.shape
    kr, kc = kern.shape
    t, l = (kr - 1) // 2, (kc - 1) // 2
    iy = index(ny, t, kr // 2, mode)
    ix = index(nx, l, kc // 2, mode)
    d = m.data.astype(float)
    d = np.where(m.mask, 0.0, d)
    e = d[:, np.maximum(iy, 0)][:, :, np.maximum(ix, 0)]
    out_y, out_x = iy < 0, ix < 0
    e[:, out_y, :] = cval
    e[:, :, out_x] = cval
    r = np.zeros((nb, ny, nx))
    for a in range(kr):
        for b in range(kc):
            r += float(kern[a, b]) * e[:, a:a + ny, b:b + nx]
    return r


def fits(kern, ny, nx):
    # dask refuses overlaps larger than the array
    return all(
        k // 2 + (k % 2 == 0) <= n for k, n in zip(kern.shape, (ny, nx))
    )


def judge(rec, key, m, o, kern, mode, cval, tol, info):
    f = invariants(o)
    if o.data.shape != m.shape:
        rec.bad(key + "|shape", f"{o.data.shape} for {m.shape}", info)
        return
    if not (np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)):
        f.append("grid changed")
    if (m.nv is None) != (o.nv is None):
        f.append(f"null value {o.nv} for {m.nv}")
    if not np.array_equal(o.mask, m.mask):
        f.append("null cells changed")
    else:
        e = expected(m, kern, mode, cval)
        live = ~m.mask
        got = o.data.astype(float)
        diff = live & ~(
            np.abs(got - e) <= tol * (1 + np.maximum(np.abs(e), np.abs(got)))
        )
        if diff.any():
            i = tuple(np.argwhere(diff)[0])
            f.append(
                f"{int(diff.sum())} cells differ, e.g. {i}: {got[i]} "
                f"expected {e[i]}"
            )
    if f:
        rec.bad(key, "; ".join(f)[:900], info)


def weights(kr, kc, dt):
    """Distinct weights, some of them zero or negative."""
    k = (np.arange(kr * kc) * 7 + 3) % (kr * kc + 5)
    k = k.reshape(kr, kc)
    if dt == "bool":
        return k % 3 != 1
    k = k - (0 if np.dtype(dt).kind == "u" else 2)
    if np.dtype(dt).kind == "f":
        return (k / 4).astype(dt)
    return k.astype(dt)


def grid(nb, ny, nx, dt, masked, seed=0):
    a = np.arange(nb * ny * nx).reshape(nb, ny, nx) + seed
    if dt == "bool":
        d = a * a % 3 == 1
    else:
        d = ((a * 37 + a // 5) % 11).astype(dt)
        if np.dtype(dt).kind == "f":
            d = d / np.dtype(dt).type(4)
    k = (a * 7) % 6 == 1
    return M(
        d, k if masked else None, default_null(dt) if masked else None
    )


def call(r, kern, mode, cval, conv):
    from raster_tools import focal

    fn = focal.convolve if conv else focal.correlate
    if mode == "constant":
        return fn(r, kern, mode=mode, cval=cval)
    return fn(r, kern, mode)


def case_kernels(rec, c):
    dt, kdt, masked, kr, T = c
    ny, nx = 5, 6
    m = grid(2, ny, nx, dt, masked)
    chs = chunkings(ny, nx)
    h = kr * 13
    for kc in range(1, 6 if T else 5):
        kern = weights(kr, kc, kdt)
        for mode, cval in (
            ("constant", 0.0), ("constant", 3), ("reflect", 0),
            ("nearest", 0), ("wrap", 0),
        ):
            for conv in (False, True):
                for rep in range(3 if T else 1):
                    h += 1
                    ch = chs[(h * 101 + rep * 7) % len(chs)]
                    kk = kern.tolist() if h % 3 == 0 and kdt != "bool" and (
                        kdt in ("int64", "float64")
                    ) else kern
                    rec.trans()
                    rec.state(c, kc, mode, cval, conv, ch)
                    o = observe(call(build(m, ch), kk, mode, cval, conv))
                    rec.trace()
                    rec.outcome(o.canon())
                    key = (
                        f"kernels|{dt}|{kdt}|{int(masked)}|{kr}x{kc}|{mode}"
                        f"|{'conv' if conv else 'corr'}"
                    )
                    judge(
                        rec, key, m, o, kern[::-1, ::-1] if conv else kern,
                        mode, cval, 1e-6, (c, kc, ch),
                    )
    rec.sample({"dtype": dt, "kernel_dtype": kdt, "masked": masked})


def case_nulls(rec, c):
    dt, ny, nx, part, T = c
    n = ny * nx
    pats = [()] + [(i,) for i in range(n)]
    pats += list(itertools.combinations(range(n), 2))
    if n <= 6:
        pats = [
            tuple(i for i in range(n) if b >> i & 1) for b in range(2 ** n)
        ]
    k = np.zeros((len(pats), n), bool)
    for i, p in enumerate(pats):
        k[i, list(p)] = True
    k = k.reshape(-1, ny, nx)
    d = np.broadcast_to(
        grid(1, ny, nx, dt, False).data, k.shape
    ).copy()
    m = M(d, k, default_null(dt))
    chs = chunkings(ny, nx)
    h = 0
    for kr, kc in ((3, 3), (2, 3), (1, 4), (4, 2), (2, 1)):
        kern = weights(kr, kc, "float64" if dt == "float64" else "int64")
        if not fits(kern, ny, nx):
            continue
        for mode in MODES:
            h += 1
            if h % 4 != part and not T:
                continue
            ch = chs[(h * 5) % len(chs)]
            rec.trans()
            rec.state(c, kr, kc, mode, ch)
            cval = 2.0 if mode == "constant" else 0
            o = observe(call(build(m, ch), kern, mode, cval, h % 2))
            rec.trace()
            rec.outcome(o.canon())
            judge(
                rec, f"nulls|{dt}|{ny}x{nx}|{kr}x{kc}|{mode}", m, o,
                kern[::-1, ::-1] if h % 2 else kern, mode, cval, 1e-6,
                (c, kern, ch),
            )


def case_chunks(rec, c):
    dt, masked, mode, lo, hi = c
    ny, nx = 4, 5
    m = grid(1, ny, nx, dt, masked, 3)
    for ci, ch in enumerate(chunkings(ny, nx)[lo:hi]):
        kern = weights(*((3, 3) if ci % 2 else (2, 5)), "float64")
        rec.trans()
        rec.state(c, ch)
        o = observe(call(build(m, ch), kern, mode, 1.5, False))
        rec.trace()
        rec.outcome(o.canon())
        judge(
            rec, f"chunks|{dt}|{int(masked)}|{mode}", m, o, kern, mode, 1.5,
            1e-6, (c, ch),
        )


def case_dtypes(rec, c):
    dt, T = c
    chs = chunkings(4, 5)
    h = len(dt)
    for masked in (False, True):
        m = grid(2, 4, 5, dt, masked)
        for kdt in ("bool", "int64", "uint8", "float32", "float64"):
            kern = weights(3, 3, kdt)
            if dt in ("uint8", "uint16", "uint32", "uint64", "int8"):
                # sums have to fit
                kern = np.abs(weights(3, 3, kdt))
                if kdt != "bool" and np.dtype(kdt).kind != "f":
                    kern = (kern % 2).astype(kdt)
            if dt == "bool" and kdt == "uint8":
                kern = (kern % 4).astype(kdt)
            for mode in MODES:
                h += 1
                if masked and not T and h % 2:
                    continue
                ch = chs[h * 29 % len(chs)]
                rec.trans()
                rec.state(c, masked, kdt, mode)
                r = build(m, ch)
                o = observe(call(r, kern, mode, 1, h % 3 == 0))
                rec.trace()
                rec.outcome(o.canon())
                kk = kern[::-1, ::-1] if h % 3 == 0 else kern
                key = f"dtypes|{dt}|{kdt}|{int(masked)}|{mode}"
                judge(rec, key, m, o, kk, mode, 1, 1e-6, (c, kdt, ch))
                if kdt == "float64" and o.dtype.kind != "f":
                    rec.bad(key + "|dtype", f"{o.dtype}", c)
                f = compare(observe(r), m.burned())
                if f:
                    rec.bad(key + "|input", "; ".join(f)[:400], c)


def case_unit(rec, c):
    """A single one in the kernel shifts the raster."""
    masked, T = c
    m = grid(1, 5, 6, "float32", masked, 1)
    chs = chunkings(5, 6)
    h = 0
    for kr, kc in ((3, 3), (3, 5), (4, 3), (2, 2)):
        for a in range(kr):
            for b in range(kc):
                kern = np.zeros((kr, kc))
                kern[a, b] = 1
                for mode in MODES:
                    h += 1
                    if not T and h % 3:
                        continue
                    ch = chs[h * 11 % len(chs)]
                    rec.trans()
                    rec.state(c, kr, kc, a, b, mode)
                    o = observe(call(build(m, ch), kern, mode, 7.0, False))
                    rec.trace()
                    rec.outcome(o.canon())
                    judge(
                        rec, f"unit|{int(masked)}|{kr}x{kc}|{mode}", m, o,
                        kern, mode, 7.0, 1e-7, (c, kern, ch),
                    )


def case_errors(rec, c):
    from raster_tools import focal

    r = build(grid(1, 3, 4, "int16", True))
    k = np.ones((3, 3))
    bad = [
        (lambda: focal.correlate(r, np.ones(3)), ValueError),
        (lambda: focal.convolve(r, np.ones((1, 3, 3))), ValueError),
        (lambda: focal.correlate(r, k * np.nan), ValueError),
        (lambda: focal.correlate(r, k, mode="mirror"), ValueError),
        (lambda: focal.convolve(r, k, mode="none"), ValueError),
        (lambda: focal.correlate(np.ones((3, 3)), k), TypeError),
    ]
    for i, (fn, exc) in enumerate(bad):
        rec.trans()
        rec.state(i)
        try:
            fn()
        except exc:
            rec.trace()
            continue
        rec.bad(f"errors|{i}", "bad argument accepted")


def run(ctx):
    T = ctx.thorough
    cases = [
        (dt, kdt, masked, kr, T)
        for dt, kdt in (
            ("int32", "int64"), ("float32", "float64"), ("int16", "float64"),
        ) + ((("float64", "float32"), ("uint8", "bool")) if T else ())
        for masked in (True, False)
        for kr in range(1, 6 if T else 5)
    ]
    ctx.explore("kernels", cases, case_kernels)
    cases = [
        (dt, ny, nx, part, T)
        for dt in ("float64", "int16")
        for ny, nx in ((2, 3), (3, 4))
        for part in range(1 if T else 4)
    ]
    ctx.explore("nulls", cases, case_nulls)
    cases = [
        (dt, masked, mode, lo, lo + 32)
        for dt, masked in (
            ("float64", True), ("int16", False),
        ) + ((("int16", True), ("float64", False)) if T else ())
        for mode in MODES
        for lo in range(0, 128, 32)
    ]
    ctx.explore("chunks", cases, case_chunks)
    ctx.explore("dtypes", [(dt, T) for dt in ALL_DTYPES], case_dtypes)
    ctx.explore("unit", [(False, T), (True, T)], case_unit)
    ctx.explore("errors", [0], case_errors)
