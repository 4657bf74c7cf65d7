"""C15 regions are the connected components of equal values."""

import itertools

import numpy as np

from mc.model import (
    M,
    build,
    chunkings,
    crs_equal,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every grid over {0, values, null} of the listed shapes (small grids are "
    "laid out side by side in one raster, separated by zero cells), both "
    "connectivities, chunk layouts cutting through every component shape"
)
BOUNDS = (
    "all 3x3 grids over {0, 1} and {0, 1, null}-2x3, all 2x3 grids over "
    "{0,1,2}; all chunk layouts of 4x4 grids for a catalogue of shapes"
)


def components(grid, valid, neighbors):
    """Label array by flood fill: 0 for zero / null cells."""
    h, w = grid.shape
    lab = np.zeros((h, w), int)
    n = 0
    steps = [(0, 1), (1, 0), (0, -1), (-1, 0)]
    if neighbors == 8:
        steps += [(1, 1), (1, -1), (-1, 1), (-1, -1)]
    for i in range(h):
        for j in range(w):
            if lab[i, j] or not valid[i, j] or grid[i, j] == 0:
                continue
            n += 1
            stack = [(i, j)]
            lab[i, j] = n
            while stack:
                a, b = stack.pop()
                for di, dj in steps:
                    p, q = a + di, b + dj
                    if (
                        0 <= p < h and 0 <= q < w and not lab[p, q]
                        and valid[p, q] and grid[p, q] == grid[i, j]
                    ):
                        lab[p, q] = n
                        stack.append((p, q))
    return lab, n


def same_partition(got, lab):
    """got labels <-> lab labels bijective, zero <-> zero."""
    fw, bw = {}, {}
    for g, e in zip(got.ravel().tolist(), lab.ravel().tolist()):
        if (g == 0) != (e == 0):
            return f"label {g} where component {e} expected"
        if e and (fw.setdefault(e, g) != g or bw.setdefault(g, e) != e):
            return f"component {e} / label {g} split or merged"
    return None


def tile(syms, gh, gw, dt, lo, hi):
    pats = list(itertools.product(range(len(syms)), repeat=gh * gw))[lo:hi]
    w = int(np.ceil(np.sqrt(len(pats))))
    h = int(np.ceil(len(pats) / w))
    d = np.zeros((h * (gh + 1), w * (gw + 1)), dt)
    k = np.zeros(d.shape, bool)
    for i, p in enumerate(pats):
        r, c = divmod(i, w)
        y, x = r * (gh + 1), c * (gw + 1)
        for j, s in enumerate(p):
            a, b = divmod(j, gw)
            d[y + a, x + b], k[y + a, x + b] = syms[s]
    return d, k


def judge(rec, key, r, m, neighbors, unique, chunks):
    from raster_tools.general import regions

    args = {} if unique is None else {"unique_values": unique}
    o = observe(regions(r, neighbors=neighbors, **args))
    rec.trans()
    rec.trace()
    f = invariants(o)
    if o.data.shape != m.shape:
        rec.bad(key + "|shape", f"shape {o.data.shape}")
        return
    if o.data.dtype.kind not in "iu":
        f.append(f"dtype {o.data.dtype}")
    if not np.array_equal(o.mask, m.mask):
        f.append("null mask of the input is not the mask of the result")
    if o.nv is None and m.nv is not None:
        f.append(f"null value {o.nv!r} for input {m.nv!r}")
    for b in range(m.shape[0]):
        grid = m.data[b]
        if unique is not None:
            grid = np.where(np.isin(grid, unique), grid, 0)
        lab, n = components(grid, ~m.mask[b], neighbors)
        got = np.where(m.mask[b], 0, o.data[b])
        e = same_partition(got, lab)
        if e:
            f.append(f"band {b}: {e}")
        if n and int(got.max()) != n:
            f.append(f"band {b}: labels up to {got.max()}, {n} components")
        rec.outcome(n, b)
    if not (np.array_equal(o.x, m.x) and crs_equal(o.crs, m.crs)):
        f.append("grid or crs changed")
    if f:
        rec.bad(
            key, f"chunks {chunks}: " + "; ".join(f)[:1200],
            m if m.data.size <= 40 else None,
        )


def layout(n, s, first=0):
    out = [first] if first else []
    n -= first
    return tuple(out + [s] * (n // s) + ([n % s] if n % s else []))


def case_tile(rec, c):
    nsym, masked, gh, gw, lo, hi, dt, neighbors, kind = c
    vals = {1: [1], 2: [1, 2]}[nsym]
    syms = [(0, False)] + [(v, False) for v in vals]
    if masked:
        syms.append((1, True))
    d, k = tile(syms, gh, gw, dt, lo, hi)
    m = M(d, k, default_null(dt) if masked else None)
    h, w = d.shape
    chunks = {
        "one": ((h,), (w,)),
        "big": (layout(h, 7), layout(w, 9)),
        "odd": (layout(h, 11, 2), layout(w, 10, 1)),
    }[kind]
    r = build(m, chunks)
    for i in range(hi - lo):
        rec.state(nsym, masked, gh, gw, lo + i, neighbors, kind, dt)
    judge(
        rec, f"tile|{nsym}|{int(masked)}|{gh}x{gw}|{dt}|{neighbors}", r, m,
        neighbors, None, chunks,
    )
    rec.sample({"grid": [gh, gw], "patterns": [lo, hi], "chunks": kind})


SHAPES = {
    "ring": [[1, 1, 1, 1], [1, 0, 0, 1], [1, 0, 0, 1], [1, 1, 1, 1]],
    "U": [[1, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, 1], [1, 1, 1, 1]],
    "n": [[1, 1, 1, 1], [1, 0, 0, 1], [1, 0, 0, 1], [1, 0, 0, 1]],
    "diag": [[1, 0, 0, 1], [0, 1, 1, 0], [0, 1, 0, 1], [1, 0, 0, 1]],
    "checker": [[1, 2, 1, 2], [2, 1, 2, 1], [1, 2, 1, 2], [2, 1, 2, 1]],
    "S": [[1, 1, 1, 1], [0, 0, 0, 1], [1, 1, 1, 1], [1, 0, 0, 0]],
    "two": [[1, 1, 2, 2], [1, 2, 2, 1], [0, 0, 1, 1], [2, 1, 1, 0]],
    "full": [[1, 1, 1, 1]] * 4,
}


def case_chunks(rec, c):
    name, neighbors, masked, ch = c
    g = np.array(SHAPES[name], "int16")
    d = np.stack([g, g[::-1, ::-1] * 3])
    k = np.zeros(d.shape, bool)
    if masked:
        k[0, 1, 2] = k[0, 3, 3] = k[1, 0, 1] = k[1, 2, 2] = True
    m = M(d, k, -1 if masked else None)
    r = build(m, ch)
    rec.state(c)
    judge(rec, f"chunks|{name}|{neighbors}|{int(masked)}", r, m, neighbors,
          None, ch)


def case_unique(rec, c):
    uniq, masked, kind, dt = c
    g = np.array(
        [[1, 1, 2, 3], [0, 2, 2, 3], [3, 3, 1, 1], [3, 2, 2, 1]], dt
    )
    k = np.zeros(g.shape, bool)
    if masked:
        k[0, 1] = k[3, 3] = True
    m = M(g, k, default_null(dt) if masked else None)
    r = build(m, ((2, 2), (3, 1)))
    u = list(uniq)
    if kind == "array":
        u = np.array(u)
    elif kind == "tuple":
        u = tuple(u)
    rec.state(c)
    judge(rec, f"unique|{dt}|{int(masked)}", r, m, 4, u, None)
    if list(u) != list(uniq):
        rec.bad("unique|argument-changed", f"{u} was {uniq}")


def run(ctx):
    T = ctx.thorough
    cases = []

    def blocks(nsym, masked, gh, gw, step, dts, kinds):
        n = (1 + nsym + int(masked)) ** (gh * gw)
        for lo in range(0, n, step):
            for dt in dts:
                for nb in (4, 8):
                    for kind in kinds:
                        cases.append(
                            (nsym, masked, gh, gw, lo, min(n, lo + step), dt,
                             nb, kind)
                        )

    kinds = ("one", "big", "odd") if T else ("odd",)
    blocks(1, False, 3, 3, 128, ["uint8"], kinds)
    blocks(1, True, 2, 3, 243, ["int16"], kinds)
    blocks(2, False, 2, 3, 243, ["float32"], kinds)
    blocks(2, True, 2, 2, 256, ["int32", "uint8"], ("one", "odd"))
    if T:
        blocks(1, True, 3, 3, 1000, ["int16"], ("one", "odd"))
        blocks(2, True, 2, 3, 512, ["uint8"], ("one", "odd"))
        blocks(1, False, 4, 4, 2048, ["uint8"], ("odd",))
    ctx.explore("patterns", cases, case_tile)
    chs = chunkings(4, 4)
    ctx.explore(
        "chunks",
        [
            (n, nb, mk, ch)
            for n in SHAPES
            for nb in (4, 8)
            for mk in (False, True)
            for i, ch in enumerate(chs)
            if T or i % 8 == (nb // 4 + 3 * mk + len(n)) % 8
        ],
        case_chunks,
    )
    us = [u for k in (1, 2, 3) for u in itertools.combinations((1, 2, 3), k)]
    us += [(2, 0), (7,), (3, 1)]
    ctx.explore(
        "unique_values",
        [
            (u, mk, kd, dt)
            for u in us
            for mk in (False, True)
            for kd in ("list", "array", "tuple")
            for dt in ("uint8", "int32", "float64")
            if T or dt == "int32" or kd == "list"
        ],
        case_unique,
    )
