"""C25 cost distance is the true least-cost path."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "grids: every cost grid over {cheap, dear, free, barrier, null} x every "
    "set of sources x connectivity (x elevation pattern x cell shape) against "
    "a Bellman-Ford fixpoint, traceback followed cell by cell; rasters: the "
    "public functions x dtype x null state x chunk layout x form of sources; "
    "wide: grids whose frontier makes the queue grow and shrink; queue: "
    "explicit-state breadth-first search over all operation sequences of the "
    "priority queue"
)
BOUNDS = "grids up to 3x4 (complete), 24x24 (patterns); queue of 6 entries"
ASSUMPTIONS = [
    "ties may be resolved either way: any least-cost path is accepted",
    "a source on a barrier cell that is not masked keeps cost zero",
]
MOVES = [(0, -1), (-1, -1), (-1, 0), (-1, 1), (0, 1), (1, 1), (1, 0), (1, -1)]


def shifted(a, dr, dc, fill):
    """b[r, c] = a[r + dr, c + dc]"""
    out = np.full(a.shape, fill, a.dtype)
    ny, nx = a.shape[-2:]
    r0, r1 = max(0, -dr), min(ny, ny - dr)
    c0, c1 = max(0, -dc), min(nx, nx - dc)
    out[..., r0:r1, c0:c1] = a[..., r0 + dr : r1 + dr, c0 + dc : c1 + dc]
    return out


def step_cost(cost, ok, elev, eok, d, scale):
    """Cost of moving into each cell from its neighbour in direction d."""
    dr, dc = d
    c2 = shifted(cost, dr, dc, np.nan)
    good = ok & shifted(ok, dr, dc, False)
    length = (dr * scale[0]) ** 2 + (dc * scale[1]) ** 2
    if elev is not None:
        e2 = shifted(elev, dr, dc, np.nan)
        good = good & eok & shifted(eok, dr, dc, False)
        with np.errstate(all="ignore"):
            length = length + (elev - e2) ** 2
    with np.errstate(all="ignore"):
        w = np.sqrt(length) * 0.5 * (cost + c2)
    return np.where(good, w, np.inf)


def least(cost, src, elev=None, eok=None, scale=(1.0, 1.0), conn=8):
    """Bellman-Ford over arrays whose last two axes are the grid."""
    cost = cost.astype(float)
    with np.errstate(all="ignore"):
        ok = np.isfinite(cost) & (cost >= 0)
    if elev is not None:
        elev = np.broadcast_to(elev.astype(float), cost.shape)
        eok = np.broadcast_to(eok, cost.shape)
    dist = np.where(src, 0.0, np.inf)
    moves = MOVES if conn == 8 else MOVES[::2]
    w = [step_cost(cost, ok, elev, eok, d, scale) for d in moves]
    while True:
        new = dist
        for d, q in zip(moves, w):
            new = np.minimum(new, shifted(dist, *d, np.inf) + q)
        if np.array_equal(new, dist):
            return dist, w, moves
        dist = new


def verify(rec, key, cost, srcv, src, got, tol, elev, eok, scale, conn,
           detail, masked=None):
    """got: (cost distance with inf where unreached, index into MOVES of the
    neighbour to move to (-1 source, -2 none), allocation)"""
    cd, tr, al = got
    want, w, moves = least(cost, src, elev, eok, scale, conn)
    if masked is not None:
        want = np.where(masked, np.inf, want)
    fin = np.isfinite(want)
    bad = fin != np.isfinite(cd)
    with np.errstate(all="ignore"):
        bad |= fin & ~(np.abs(cd - want) <= tol * (1 + np.abs(want)))
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.bad(
            f"{key}|cost", f"cell {i}: {cd[i]} expected {want[i]}",
            detail(i),
        )
        return
    shown = src & (fin if masked is not None else True)
    bad = (tr == -1) != shown
    bad |= (tr == -2) != ~fin
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.bad(
            f"{key}|traceback", f"cell {i}: {tr[i]} (source {src[i]}, "
            f"reached {fin[i]})", detail(i),
        )
        return
    bad = shown & (al != srcv)
    # move back one step: the cost must fall by exactly the step
    left = fin & ~src
    hops = np.where(src, 0, -1)
    for n, (d, q) in enumerate(zip(moves, w)):
        here = left & (tr == MOVES.index(d))
        back = shifted(cd, *d, np.inf)
        with np.errstate(all="ignore"):
            ok = np.abs(back + q - cd) <= tol * (1 + np.abs(cd))
        ok &= shifted(al, *d, 0) == al
        bad |= here & ~ok
        left = left & ~here
    bad |= left  # no direction at all
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.bad(
            f"{key}|path", f"cell {i}: direction {tr[i]} allocation {al[i]} "
            f"does not follow a least-cost path (cost {cd[i]})", detail(i),
        )
        return
    # following the directions ends at a source
    for _ in range(cost.shape[-1] * cost.shape[-2]):
        new = hops
        for d in moves:
            prev = shifted(hops, *d, -1)
            new = np.where(
                (tr == MOVES.index(d)) & (prev >= 0) & (new < 0),
                prev + 1, new,
            )
        if np.array_equal(new, hops):
            break
        hops = new
    bad = fin & (hops < 0)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        rec.bad(f"{key}|loop", f"cell {i} does not lead to a source",
                detail(i))


# numpy level ---------------------------------------------------------------


def engine():
    """The array level function, when there is one."""
    try:
        from raster_tools.distance.cost_distance import (
            cost_distance_analysis_numpy as f,
        )

        c, t, a = f(np.ones((2, 2)), np.array([[5, -1], [-1, -1]]), -1)
        assert c.shape == t.shape == a.shape == (2, 2)
    except (ImportError, AttributeError, TypeError):
        return None
    return f


SYMS = {
    "a": 1.0, "b": 4.0, "z": 0.0, "x": -1.0, "n": np.nan, "i": np.inf,
    "c": 2.5,
}
SCALES = ((1.0, 1.0), (2.0, 3.0))
FLAT = {
    "none": None,
    "ramp": lambda ny, nx: (
        np.arange(ny * nx).reshape(ny, nx) * 2.0, np.ones((ny, nx), bool)
    ),
    "pit": lambda ny, nx: (
        (np.arange(ny * nx).reshape(ny, nx) * 5 % 7) * 1.5,
        np.ones((ny, nx), bool),
    ),
    "hole": lambda ny, nx: (
        np.where(np.arange(ny * nx).reshape(ny, nx) == ny * nx // 2, -9999.0,
                 np.arange(ny * nx).reshape(ny, nx) % 3 * 1.0),
        np.arange(ny * nx).reshape(ny, nx) != ny * nx // 2,
    ),
}


def grids_of(letters, ny, nx, part, parts):
    n = len(letters) ** (ny * nx)
    vals = np.array([SYMS[q] for q in letters])
    idx = np.arange(n)[part::parts]
    digits = np.empty((len(idx), ny * nx), int)
    for k in range(ny * nx):
        digits[:, k] = idx % len(letters)
        idx = idx // len(letters)
    return vals[digits].reshape(-1, ny, nx)


def case_grids(rec, c):
    letters, ny, nx, srcs, conn, si, el, part, parts = c
    f = engine()
    if f is None:
        rec.skip("no array level function")
        return
    scale = SCALES[si]
    costs = grids_of(letters, ny, nx, part, parts)
    elev = eok = None
    kw = {}
    if FLAT[el] is not None:
        elev, eok = FLAT[el](ny, nx)
        kw = {"elevation": elev, "elevation_null_value": -9999}
    null = -7
    sv = np.full((ny, nx), null)
    for n, k in enumerate(srcs):
        sv.reshape(-1)[k] = 30 - n
    src = sv != null
    outs = [
        f(q, sv, null, scaling=np.array(scale), connectivity=conn, **kw)
        for q in costs
    ]
    cd, tr, al = (np.stack(q) for q in zip(*outs))
    # the array level stores the index of the opposite of the way back
    n = len(costs)
    rec.trans(n)
    rec.trace(n)
    rec.outcome((c[1:], cd.tobytes()))
    for q in costs:
        rec.state(q.tobytes(), srcs, conn, si, el)
    back = np.where(tr >= 0, (tr + 4) % 8, tr)
    verify(
        rec, f"grids|{conn}|{el}|{si}", costs, sv, np.broadcast_to(
            src, cd.shape), (cd, back, al), 1e-9, elev, eok, scale, conn,
        lambda i: (c, costs[i[0]].tolist()),
    )


# raster level --------------------------------------------------------------


def from_rasters(m, outs):
    """(cd, direction, allocation) in the encoding of verify"""
    cd, tr, al = (o.data[0] for o in outs)
    k = outs[0].mask[0]
    cd = np.where(k, np.inf, cd.astype(float))
    t = tr.astype(int)
    # 1..8 clockwise (right, lower right, down, ...): the neighbour to move
    # to; written as the index into MOVES of that neighbour
    order = [(0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0),
             (-1, 1)]
    code = np.full(t.shape, -2)
    for n, d in enumerate(order):
        code[t == n + 1] = MOVES.index(d)
    code[t == 0] = -1
    code[outs[1].mask[0]] = -2
    return cd, code, al.astype(int)


def judge(rec, key, m, srcm, outs, elevm, conn, detail):
    obs = [observe(o) for o in outs]
    scale = (m.y[0] - m.y[1], m.x[1] - m.x[0])
    f = []
    for name, o, dt in zip(
        ("cost", "traceback", "allocation"), obs,
        ("float64", "int8", "int64"),
    ):
        f += [f"{name}: {x}" for x in invariants(o)]
        if o.data.dtype != np.dtype(dt):
            f.append(f"{name}: dtype {o.data.dtype}")
        if o.data.shape != m.shape:
            f.append(f"{name}: shape {o.data.shape}")
        if not (np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)):
            f.append(f"{name}: grid")
        if o.nv is None:
            f.append(f"{name}: no null value")
        elif not np.array_equal(o.mask, obs[0].mask):
            f.append(f"{name}: mask differs from the cost distance's")
    if f:
        rec.bad(f"{key}|form", "; ".join(f)[:1000], detail)
        return
    cost = m.data[0].astype(float)
    masked = m.mask[0] if m.nv is not None else np.zeros(cost.shape, bool)
    cost = np.where(masked, np.nan, cost)
    sv, src = srcm
    elev = eok = None
    if elevm is not None:
        elev = elevm.data[0].astype(float)
        eok = ~elevm.mask[0] if elevm.nv is not None else np.ones(
            elev.shape, bool)
        eok = eok & ~np.isnan(elev)
    got = from_rasters(m, obs)
    tol = 1e-5 if m.dtype in (np.float16, np.float32) else 1e-9
    if elevm is not None and elevm.dtype in (np.float16, np.float32):
        tol = 1e-5
    verify(
        rec, key, cost, sv, src, got, tol, elev, eok, scale, conn,
        lambda i: detail, masked,
    )
    rec.trace()
    rec.outcome(obs[0].canon())


def source_raster(sv, null, dt, lay, burned=True):
    return build(
        M(np.where(sv == null, null, sv)[None].astype(dt),
          (sv == null)[None], null), lay,
    )


def cost_model(dt, state, ny, nx, k=0):
    a = np.arange(ny * nx).reshape(1, ny, nx)
    d = (a * 7 + k) % 5
    if np.dtype(dt) == bool:
        d = d > 1
    d = d.astype(dt)
    mask = (a * 3 + k) % 7 == 2
    if state == "none":
        return M(d)
    nv = {"default": default_null(dt), "zero": np.dtype(dt).type(0),
          "nan": np.nan, "small": 3}[state]
    if state == "small":
        d = np.where((d == 3) & ~mask, np.array(2, dt), d)
    if state == "zero":
        d = np.where((d == 0) & ~mask, np.array(1, dt), d)
    return M(d, mask, nv)


def case_rasters(rec, c):
    from raster_tools import distance

    dt, state, lay, form, sdt, conn, el, res = c
    ny, nx = sum(lay[0]), sum(lay[1])
    m = cost_model(dt, state, ny, nx)
    m.x = 105 + np.arange(nx) * res[0]
    m.y = 995 - np.arange(ny) * res[1]
    r = build(m, lay)
    cells = [(0, 0), (ny - 1, nx - 2), (1, nx - 1)]
    null = -1
    sv = np.full((ny, nx), null)
    for n, q in enumerate(cells):
        sv[q] = n
    elevm = None
    if el is not None:
        edt, es = el
        elevm = cost_model(edt, es, ny, nx, 3)
        elevm.x, elevm.y = m.x, m.y
    em = None if elevm is None else build(elevm, lay[::1])
    if form == "list":
        srcs = cells
        if c[5] == 4:
            srcs = np.array(cells)
    else:
        null = {"default": default_null(sdt), "zero": 0, "max": None}[form]
        if null is None:
            null = int(np.iinfo(sdt).max)
        sv = np.where(sv == -1, 0, sv + 11)
        d = sv.astype(sdt)
        d[sv == 0] = null
        sm = M(d[None], (sv == 0)[None], null, m.x, m.y)
        srcs = build(sm, ((ny,), (nx,)))
    src = np.zeros((ny, nx), bool)
    for q in cells:
        src[q] = True
    detail = c
    rec.state(c)
    rec.trans()
    before = observe(r).canon()
    outs = distance.cost_distance_analysis(r, srcs, em, conn)
    key = f"rasters|{dt}|{state}|{form}|{sdt}|{conn}|{el}"
    judge(rec, key, m, (sv, src), outs, elevm, conn, detail)
    if observe(r).canon() != before:
        rec.bad(f"{key}|mutated", "the costs changed", c)
    if lay == ((2, 2), (3, 2)):
        for fn, o in zip(
            ("cda_cost_distance", "cda_traceback", "cda_allocation"), outs
        ):
            one = getattr(distance, fn)(r, srcs, em, conn)
            if observe(one).canon() != observe(o).canon():
                rec.bad(f"{key}|{fn}", "differs from the full analysis", c)


def wide_model(n, kind):
    a = np.arange(n * n).reshape(n, n)
    cost = {
        "flat": np.ones((n, n)),
        "noise": (a * 7919 % 13 + 1) / 2.0,
        "maze": np.where((a // n % 4 == 1) & (a % n != (a // n // 4 % 2)
                                              * (n - 1)), np.nan, 1.0),
        "cone": np.hypot(*(np.mgrid[:n, :n] - n / 2)) + 0.25,
        "steep": 2.0 ** (a % 11),
    }[kind]
    return cost


def case_wide(rec, c):
    n, kind, srcs, conn, el = c
    from raster_tools import distance

    cost = wide_model(n, kind)
    a = np.arange(n * n).reshape(n, n)
    src = {
        "corner": a == 0, "all": a >= 0, "half": a * 31 % 7 < 3,
        "border": (a < n) | (a % n == n - 1), "every": a % 5 == 2,
        "two": (a == n) | (a == n * n - 3),
    }[srcs]
    m = M(np.where(np.isnan(cost), -5.0, cost)[None],
          np.isnan(cost)[None], -5.0)
    sv = np.where(src, a + 3, -1)
    sm = M(sv[None], (sv == -1)[None], -1)
    elevm = None
    if el:
        elevm = M(((a * 13 % 17) * 1.5)[None])
    outs = distance.cost_distance_analysis(
        build(m, ((n // 2, n - n // 2), (n,))), build(sm),
        None if elevm is None else build(elevm), conn,
    )
    rec.trans()
    rec.state(c)
    judge(rec, f"wide|{kind}|{srcs}|{conn}|{el}", m, (sv, src), outs, elevm,
          conn, c)


def case_reject(rec, c):
    from raster_tools import distance

    r = build(M(np.ones((1, 3, 4))))
    two = build(M(np.ones((2, 3, 4))))
    s = build(M(np.arange(12).reshape(1, 3, 4), np.arange(12).reshape(
        1, 3, 4) > 0, 99))
    fl = build(M(np.zeros((1, 3, 4)), np.ones((1, 3, 4), bool), -1.0))
    plain = build(M(np.zeros((1, 3, 4), "int32")))
    small = build(M(np.zeros((1, 3, 3), "int32"), np.zeros((1, 3, 3)), 1))
    for args, err in (
        ((two, s), ValueError), ((r, fl), TypeError),
        ((r, plain), ValueError), ((r, small), ValueError),
        ((r, s, two), ValueError), ((r, s, None, 6), ValueError),
        ((r, [(0, 0), (0, 0)]), ValueError), ((r, [(3, 0)]), ValueError),
        ((r, [(0, -1)]), ValueError), ((r, [0, 1]), ValueError),
        ((r, [(0, 1, 2)]), ValueError), ((r, s, small), ValueError),
    ):
        rec.trans()
        try:
            distance.cost_distance_analysis(*args)
        except err:
            rec.outcome(err.__name__)
        else:
            rec.bad("reject", f"accepted {args[1:]}", c)
    rec.trace()
    rec.state(c)


# the priority queue --------------------------------------------------------


def queue_api():
    try:
        from raster_tools.distance import _heap as h

        k = h.init_heap_data(1, 3)
        k = h.push(*k, 2.0, 1)[:4]
        k = h.push_if_lower(*k, 1.0, 1)[:4]
        out = h.pop(*k)
        assert len(out) == 6
    except (ImportError, AttributeError, TypeError, AssertionError,
            ValueError):
        return None
    return h


def contents(st):
    """value -> key, read through the cross references."""
    keys, values, xref, heap = st
    start = (1 << int(heap[0]["levels"])) - 1
    return {
        int(v): float(keys[start + int(x)]) for v, x in enumerate(xref)
        if x != -1
    }


def case_queue(rec, c):
    cap, nvals, nkeys, depth, first = c
    h = queue_api()
    if h is None:
        rec.skip("no separate queue")
        return
    keys = [float(k) for k in range(1, nkeys + 1)]
    start = h.init_heap_data(cap, nvals - 1)

    def canon(st):
        return b"".join(q.tobytes() for q in st)

    def copy(st):
        return tuple(q.copy() for q in st)

    ops = [("pop",)] + [
        (op, k, v) for op in ("push", "push_if_lower") for k in keys
        for v in range(nvals)
    ]
    seen = {}
    frontier = []
    st, model = start, {}
    for op in first:
        st = h.push(*copy(st), op[0], op[1])[:4]
        model[op[1]] = op[0]
    seen[canon(st)] = 0
    frontier = [(st, model, first)]
    rec.state(c, canon(st))
    for lvl in range(depth):
        nxt = []
        for st, model, hist in frontier:
            for op in ops:
                if op[0] == "pop" and not model:
                    continue
                rec.trans()
                new = dict(model)
                if op[0] == "pop":
                    *s2, key, val = h.pop(*copy(st))
                    low = min(model.values())
                    if key != low or model.get(int(val)) != key:
                        rec.bad(
                            "queue|pop", f"popped {key}:{val} of {model}",
                            (c, hist, op),
                        )
                        return
                    del new[int(val)]
                else:
                    _, k, v = op
                    s2 = getattr(h, op[0])(*copy(st), k, v)
                    flag, s2 = s2[4], s2[:4]
                    if op[0] == "push" or v not in model or k < model[v]:
                        new[v] = k
                    want = (
                        1 if v not in model else 0
                    ) if op[0] == "push" else int(
                        v not in model or k < model[v]
                    )
                    if flag != want:
                        rec.bad(
                            f"queue|{op[0]}", f"flag {flag} expected {want}",
                            (c, hist, op),
                        )
                        return
                s2 = tuple(s2)
                if contents(s2) != new or int(
                    s2[3][0]["count"]
                ) != len(new):
                    rec.bad(
                        f"queue|{op[0]}|contents",
                        f"{contents(s2)} expected {new}", (c, hist, op),
                    )
                    return
                q = canon(s2)
                if q not in seen:
                    seen[q] = lvl
                    rec.state(c[:3], q)
                    nxt.append((s2, new, (*hist, op)))
        frontier = nxt
    # what is left comes out in order
    for st, model, hist in frontier:
        s, m2 = copy(st), dict(model)
        while m2:
            *s, key, val = h.pop(*s)
            if key != min(m2.values()) or m2.pop(int(val), None) != key:
                rec.bad("queue|drain", f"{key}:{val} of {model}", (c, hist))
                return
    rec.trace(len(seen))
    rec.outcome((c, len(seen)))


def run(ctx):
    T = ctx.thorough
    cases = []

    def add(letters, ny, nx, sources, conns, sis, els, parts=1):
        for srcs, conn, si, el, p in itertools.product(
            sources, conns, sis, els, range(parts)
        ):
            cases.append((letters, ny, nx, srcs, conn, si, el, p, parts))

    every4 = [
        s for n in (1, 2, 3, 4) for s in itertools.combinations(range(4), n)
    ]
    add("abzxni", 2, 2, every4, (8, 4), (0, 1), ("none", "ramp"))
    few6 = [s for n in (1, 2) for s in itertools.combinations(range(6), n)]
    add("abn", 2, 3, few6, (8, 4), (0, 1), ("none", "pit"))
    add("abzn", 2, 3, [(0,), (5, 1)], (8, 4), (0,), ("none", "hole"), 2)
    one9 = [(0,), (4,), (1,), (0, 8), (5, 6), (2, 3, 7)]
    add("an", 3, 3, one9, (8, 4), (0, 1), ("none", "pit", "hole", "ramp"))
    add("an", 3, 4, [(0,), (6,), (3, 8)], (8, 4), (1,), ("none",), 2)
    add("abn", 3, 3, one9[:4] if not T else one9, (8,), (0,), ("none",), 4)
    if T:
        add("abn", 3, 3, one9, (8, 4), (1,), ("none", "pit", "hole"), 8)
        add("abc", 3, 3, one9, (8, 4), (0,), ("none", "ramp"), 8)
        add("abzn", 2, 4, [(0,), (3, 5), (2,)], (8, 4), (0, 1),
            ("none", "hole"), 4)
        add("ab", 3, 4, [(0,), (6,), (3, 8)], (8, 4), (1,),
            ("none", "pit"), 4)
        add("an", 4, 4, [(0,), (5, 15)], (8, 4), (0,), ("none",), 16)
    ctx.explore("grids", cases, case_grids)

    lays = chunkings(4, 5)
    cases = []
    n = 0
    for dt in ALL_DTYPES:
        states = ["none", "default", "zero"]
        if dt.startswith("f"):
            states.append("nan")
        elif dt != "bool":
            states.append("small")
        for state in states:
            for form, sdt in [("list", None)] + [
                (f, s) for f in ("default", "zero", "max")
                for s in ("int64", "uint8", "int16", "uint64", "uint32")
                if not (f == "zero" and s == "int64")
            ]:
                n += 1
                if not T and n % 3:
                    continue
                lay = lays[(n * 29) % len(lays)] if n % 4 else (
                    (2, 2), (3, 2))
                el = [None, ("float32", "nan"), ("int16", "default"), None,
                      ("uint8", "default"), ("float64", "none"),
                      ("float16", "default"), ("uint64", "small"),
                      ("int64", "zero")][n % 9]
                cases.append((
                    dt, state, lay, form, sdt, (8, 4)[n // 2 % 2], el,
                    ((10.0, 10.0), (2.0, 7.0))[n // 3 % 2],
                ))
    for lay in lays[:: 1 if T else 4]:
        n += 1
        cases.append(("float32", "default", lay, "list", None,
                      (8, 4)[n % 2], None, (2.0, 7.0)))
    # what compiles the same core runs on the same worker
    ctx.explore(
        "rasters", cases, case_rasters,
        affinity=lambda c: (
            c[0] if c[1] == "none" else "float64",
            c[6] and (c[6][0] if c[6][1] == "none" else "float64"),
            len(c[4] or "") % 2 if c[1] != "none" else 0,
        ),
    )
    ctx.explore(
        "wide",
        [
            (n, kind, srcs, conn, el)
            for n in ((14, 24) if T else (24,))
            for kind in ("flat", "noise", "maze", "cone", "steep")
            for srcs in ("corner", "all", "half", "border", "every", "two")
            for conn in (8, 4) for el in (False, True)
        ],
        case_wide,
    )
    cases = []
    for cap, nv, nk, depth in (
        ((1, 4, 2, 6), (2, 6, 1, 6), (2, 5, 2, 5), (1, 3, 3, 6))
        + (((1, 5, 2, 7), (2, 6, 2, 6)) if T else ())
    ):
        for k in range(1, nk + 1):
            cases.append((cap, nv, nk, depth, ((float(k), 0),)))
        cases.append((cap, nv, nk, depth, ()))
        # well filled: the way down and back up again
        cases.append((
            cap, nv, nk, depth - 1,
            tuple((float(i % nk + 1), i) for i in range(nv)),
        ))
    ctx.explore("queue", cases, case_queue)
    ctx.explore("reject", [0], case_reject)
