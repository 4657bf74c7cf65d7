"""C02 raster state machine: every history of state-changing operations."""

import numpy as np

from mc.model import (
    M,
    build,
    compare,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "breadth-first search: every operation from every distinct reached state "
    "up to the depth bound, states identified by all observable fields"
)
BOUNDS = (
    "2 bands x 2 x 3 cells, 10 initial rasters, 35 operations; histories of "
    "length 2 from every initial raster and length 3 from the masked uint8 "
    "one (quick), 3 and 4 (thorough); frontiers deduplicated by state"
)


class Skip(Exception):
    """The documentation does not determine the result here."""


# -- reference semantics ----------------------------------------------------

INT_TYPES = [
    np.uint8, np.int8, np.uint16, np.int16, np.uint32, np.int32, np.uint64,
    np.int64,
]


def min_dtype(v):
    """Smallest dtype that holds the number exactly."""
    if isinstance(v, (bool, np.bool_)):
        return np.dtype(bool)
    if isinstance(v, (int, np.integer)):
        for t in INT_TYPES:
            i = np.iinfo(t)
            if v < 0 and i.min == 0:
                continue
            if i.min <= v <= i.max:
                return np.dtype(t)
        raise Skip
    v = float(v)
    if np.isnan(v) or np.isinf(v):
        return np.dtype("float16")
    d = np.min_scalar_type(v)
    for t in (np.float16, np.float32, np.float64):
        if np.dtype(t).itemsize >= d.itemsize and float(t(v)) == v:
            return np.dtype(t)
    return np.dtype("float64")


def fits(nv, dt, src):
    """The null value can be cast to dt without loss."""
    dt = np.dtype(dt)
    if np.isnan(nv):
        return False  # casts never keep a NaN null value
    if dt.kind == "f" and not np.can_cast(src, dt):
        v = float(nv)
        small = np.min_scalar_type(int(v) if v.is_integer() else v)
        if not np.can_cast(small, dt) and float(dt.type(v)) == v:
            if nv != default_null(dt):
                raise Skip  # representable, but not a type-safe cast
    elif dt.kind == "f" and float(dt.type(nv)) == float(nv):
        return True
    if dt.kind == "b":
        return nv in (0, 1)
    v = nv
    if not isinstance(v, (bool, np.bool_)) and float(v).is_integer():
        v = int(v)
    if dt.kind in "iu":
        return not isinstance(v, float) and (
            np.iinfo(dt).min <= v <= np.iinfo(dt).max
        )
    if isinstance(v, float):
        return np.can_cast(np.min_scalar_type(v), dt)
    return np.can_cast(min_dtype(v), dt) or (
        isinstance(nv, (float, np.floating))
        and np.can_cast(np.asarray(nv).dtype, dt)
    )


def cast(data, mask, dt):
    """numpy cast, defined for the valid cells only."""
    dt = np.dtype(dt)
    v = data[~mask]
    if data.dtype.kind == "f" and dt.kind in "iu":
        i = np.iinfo(dt)
        ok = np.isfinite(v) & (v > float(i.min) - 1) & (v < float(i.max))
        if not ok.all():
            raise Skip
    out = np.where(mask, np.zeros((), data.dtype), data)
    with np.errstate(all="ignore"):
        return out.astype(dt)


def m_astype(m, dt, nnv=None):
    dt = np.dtype(dt)
    if dt == m.dtype and (nnv is None or nv_equal(m.nv, nnv)):
        return m.copy()
    if m.nv is None:
        if nnv is not None:
            raise Skip
        return m.copy(data=cast(m.data, m.mask, dt))
    if nnv is not None:
        if not fits(nnv, dt, min_dtype(nnv)):
            return ValueError
        nv = nnv
    else:
        nv = m.nv if fits(m.nv, dt, m.dtype) else default_null(dt)
    return m.copy(data=cast(m.data, m.mask, dt), nv=nv).burned()


NAN_FLOAT = {1: "float16", 2: "float32", 4: "float64", 8: "float64"}


def m_set_null_value(m, v):
    if v is None:
        b = m.burned()
        return b.copy(mask=np.zeros(m.shape, bool), nv=None)
    dt = m.dtype
    if np.isnan(v):
        if dt.kind in "iu":
            dt = np.dtype(NAN_FLOAT[dt.itemsize])
        elif dt.kind == "b":
            dt = np.dtype("float16")
    elif isinstance(v, int) and dt.kind == "f":
        dt = np.promote_types(min_dtype(float(v)), dt)
    elif isinstance(v, int) and dt.kind in "iu":
        i = np.iinfo(dt)
        if not i.min <= v <= i.max:
            dt = np.promote_types(min_dtype(v), dt)
    else:
        dt = np.promote_types(min_dtype(v), dt)
    with np.errstate(all="ignore"):
        data = m.data.astype(dt)
    hit = np.isnan(data) if np.isnan(v) else data == np.array(v).astype(dt)
    return m.copy(data=data, mask=m.mask | hit, nv=v).burned()


def m_set_null(m, extra):
    nv = m.nv if m.nv is not None else default_null(m.dtype)
    return m.copy(
        mask=m.mask | np.broadcast_to(extra, m.shape), nv=nv
    ).burned()


def m_where(m, cond, cmask, cmasked, other):
    """other: model raster or None."""
    if other is None:
        nv = m.nv if m.nv is not None else default_null(m.dtype)
        od, om = np.full(m.shape, nv).astype(m.dtype), np.ones(m.shape, bool)
        masked = True
    else:
        dt = np.promote_types(m.dtype, other.dtype)
        masked = m.nv is not None or other.nv is not None or cmasked
        nv = default_null(dt) if masked else None
        od, om = other.data, other.mask
    sel = np.broadcast_to(cond, m.shape)
    cm = np.broadcast_to(cmask, m.shape)
    dt = np.promote_types(m.dtype, od.dtype)
    data = np.where(sel, m.data.astype(dt), od.astype(dt))
    mask = np.where(sel, m.mask, om) | cm
    if not masked:
        return m.copy(data=data, mask=np.zeros(m.shape, bool), nv=None)
    # a valid value equal to the chosen null value: indistinguishable
    v = data[~mask]
    if np.isnan(nv):
        if v.dtype.kind == "f" and np.isnan(v).any():
            raise Skip
    elif (v == np.array(nv).astype(dt)).any():
        raise Skip
    return m.copy(data=data, mask=mask, nv=nv).burned()


def m_round(m, d):
    if m.dtype.kind == "b" or (m.dtype.kind in "iu" and d):
        raise Skip
    return m.copy(data=np.round(m.data, d)).burned()


def m_bands(m, bands):
    if any(b < 1 or b > m.shape[0] for b in bands):
        return IndexError
    i = [b - 1 for b in bands]
    return m.copy(data=m.data[i], mask=m.mask[i])


def m_null_mask(m):
    return m.copy(
        data=m.mask.copy(), mask=np.zeros(m.shape, bool), nv=None
    )


def m_rebuild(m):
    """A raster built from the DataArray: null cells are recognised again."""
    if m.nv is None:
        if m.dtype.kind == "f":
            raise Skip  # a lazy float array may hold NaN: null value implied
        return m.copy()
    v = m.data[~m.mask]
    if np.isnan(m.nv):
        raise Skip
    if (v == np.array(m.nv).astype(m.dtype)).any():
        raise Skip
    return m.copy()


def m_neg(m):
    raise Skip


# -- operations -------------------------------------------------------------

COND = np.array([[[1, 0, 1], [0, 1, 1]]])
MASK1 = np.array([[[True, False, False], [False, False, True]]])
MASK2 = np.array(
    [[[0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, 0]]], dtype="uint8"
)


def nband(m_or_r):
    return m_or_r.shape[0]


def _cond(dtype, masked, n):
    c = np.concatenate([np.roll(COND, i, -1) for i in range(n)])
    if not masked:
        return M(c.astype(dtype), crs=None)
    k = np.array([[[0, 0, 1], [1, 0, 0]]], bool)
    k = np.concatenate([np.roll(k, i, -1) for i in range(n)])
    return M(c.astype(dtype), k, default_null(dtype), crs=None)


def _other(n):
    d = np.arange(6 * n).reshape(n, 2, 3).astype("int16") + 20
    k = np.zeros(d.shape, bool)
    k[:, 0, 1] = k[0, 1, 0] = True
    return M(d, k, 21, crs=None)


_CACHE = {}


def cached(key, m, chunks=None):
    if key not in _CACHE:
        _CACHE[key] = build(m, chunks)
    return _CACHE[key]


def _mask2(n):
    return MASK2 if n == 2 else MASK2[:1]


def R_where(r, other, masked, dtype):
    n = nband(r)
    c = cached(("cond", dtype, masked, n), _cond(dtype, masked, n))
    return r.where(c, other)


def M_where(m, other, masked, dtype):
    c = _cond(dtype, masked, nband(m))
    return m_where(m, c.data.astype(bool), c.mask, masked, other)


def _ops():
    import raster_tools as rts

    ops = {}
    for dt in ("uint8", "int16", "int64", "float16", "float32", "float64",
               "bool"):
        ops[f"astype({dt})"] = (
            lambda r, dt=dt: r.astype(dt, warn_about_null_change=False),
            lambda m, dt=dt: m_astype(m, dt),
        )
    for dt, nv in (("int16", -7), ("uint8", -1), ("float32", 1.5)):
        ops[f"astype({dt},nv={nv})"] = (
            lambda r, dt=dt, nv=nv: r.astype(dt, new_null_value=nv),
            lambda m, dt=dt, nv=nv: m_astype(m, dt, nv),
        )
    for v in (None, 0, -1, 2, 255, 1.5, float("nan"), 70000, False):
        ops[f"set_null_value({v})"] = (
            lambda r, v=v: r.set_null_value(v),
            lambda m, v=v: m_set_null_value(m, v),
        )
    ops["replace_null(3)"] = (
        lambda r: r.replace_null(3), lambda m: m_set_null_value(m, 3)
    )
    ops["set_null(bool1)"] = (
        lambda r: r.set_null(cached("m1", M(MASK1))),
        lambda m: m_set_null(m, MASK1),
    )

    def masked_mask(n):
        # null cells of the mask raster do not mark anything
        a = _mask2(n)
        k = np.zeros(a.shape, bool)
        k[..., 0, 1] = True
        return M(a, k, 255)

    ops["set_null(u8 masked)"] = (
        lambda r: r.set_null(
            cached(
                ("m2", nband(r)), masked_mask(nband(r)), ((1, 1), (2, 1))
            )
        ),
        lambda m: m_set_null(
            m,
            masked_mask(nband(m)).data.astype(bool)
            & ~masked_mask(nband(m)).mask,
        ),
    )
    ops["burn_mask"] = (lambda r: r.burn_mask(), lambda m: m.burned().copy())
    ops["to_null_mask"] = (lambda r: r.to_null_mask(), m_null_mask)
    ops["where(None)"] = (
        lambda r: R_where(r, None, False, "bool"),
        lambda m: M_where(m, None, False, "bool"),
    )
    ops["where(raster)"] = (
        lambda r: R_where(
            r, cached(("o", nband(r)), _other(nband(r))), True, "int8"
        ),
        lambda m: M_where(m, _other(nband(m)), True, "int8"),
    )
    for b in ((1,), (2, 1), (1, 1, 2)):
        ops[f"get_bands{b}"] = (
            lambda r, b=b: r.get_bands(list(b)),
            lambda m, b=b: m_bands(m, b),
        )
    ops["set_crs(4326)"] = (
        lambda r: r.set_crs(4326), lambda m: m.copy(crs="EPSG:4326")
    )
    ops["chunk(1,1,2)"] = (
        lambda r: r.chunk((1, 1, 2)), lambda m: m.copy()
    )
    ops["load"] = (lambda r: r.load(), lambda m: m.copy())
    ops["copy"] = (lambda r: r.copy(), lambda m: m.copy())
    ops["round"] = (lambda r: r.round(0), lambda m: m_round(m, 0))
    ops["Raster(ds)"] = (
        lambda r: rts.Raster(r.to_dataset()), lambda m: m.copy()
    )
    ops["Raster(xdata)"] = (lambda r: rts.Raster(r.xdata), m_rebuild)
    return ops


OPS = None


def initial():
    base = np.array([[[0, 1, 2], [3, 100, 2]], [[2, 0, 7], [1, 5, 3]]])
    k = np.array([[[0, 0, 1], [0, 0, 0]], [[0, 1, 0], [0, 0, 1]]], bool)
    z = np.zeros(k.shape, bool)
    return [
        M(base.astype("int16") * 3 - 4),
        M(base.astype("uint8"), k, 255),
        M(base.astype("float32") / 4 - 1, k, float("nan")),
        M(base % 2 == 0, k, True),
        M(base.astype("float64") / 2, k, -1, crs=None),
        M(base.astype("int64") - 3),
        M(base.astype("uint64"), k, default_null("uint64")),
        M(base.astype("float32") + 0.5),
        M(base.astype("int8"), z, -128),
        M(base % 2 == 0, k, False),
    ]


def apply_model(ops, m, path):
    for name in path:
        m = ops[name][1](m)
    return m


def case_state(rec, case):
    """Every operation from the state reached by one history."""
    init, path = case
    ops = _ops()
    m0 = initial()[init]
    m = apply_model(ops, m0, path)
    ch = [((2,), (3,)), ((1, 1), (2, 1)), ((1, 1), (1, 1, 1))][init % 3]
    r = build(m0, ch)
    for name in path:
        r = ops[name][0](r)
    before = observe(r)
    f = invariants(before) + compare(before, m)
    if f:
        rec.bad(
            f"state|{path[-1] if path else init}",
            f"after {path}: {'; '.join(f)[:1200]}", (before, m),
        )
        return
    rec.state(m.canon())
    for name, (real, model) in ops.items():
        try:
            want = model(m)
        except Skip:
            rec.skip("result not determined by the documentation")
            continue
        rec.trans()
        try:
            got, err = real(r), None
            if want is not ValueError and want is not IndexError:
                o = observe(got)
        except Exception as e:
            got, err = None, e
        if isinstance(want, type):
            if not isinstance(err, want):
                rec.bad(
                    f"op|{name}|no-{want.__name__}",
                    f"history {path}: {name} should raise {want.__name__}, "
                    f"got {err!r}",
                    m,
                )
            continue
        if err is not None:
            rec.bad(
                f"op|{name}|{m.dtype}|{type(err).__name__}",
                f"history {path}: {name} raised {err!r}", m,
            )
            continue
        f = invariants(o) + compare(o, want)
        rec.trace()
        rec.outcome(o.canon())
        if f:
            rec.bad(
                f"op|{name}|{m.dtype}|{f[0].split(' ')[0]}",
                f"init {init} history {path} then {name}: "
                f"{'; '.join(f)[:1200]}",
                (o, want),
            )
    after = observe(r)
    if after.canon() != before.canon() or after.chunks != before.chunks:
        rec.bad("mutated", f"operations changed the raster: {path}",
                (before, after))
    if m.nv is not None:
        from raster_tools.raster import get_raster

        g = get_raster(r, null_to_nan=True)
        d = g.data.compute()
        rec.trans()
        if not (
            d.dtype.kind == "f"
            and np.isnan(d[:][m.mask]).all()
            and np.array_equal(
                d[~m.mask], m.data[~m.mask].astype(d.dtype), equal_nan=True
            )
        ):
            rec.bad("null_to_nan", f"null_to_nan wrong after {path}", (d, m))
    rec.sample({"initial": init, "history": list(path)})


def run(ctx):
    ops = _ops()
    # the last level starts from one initial raster only
    depth = 3 if ctx.thorough else 2
    inits = initial()
    seen = set()
    frontier = [(i, ()) for i in range(len(inits))]
    levels = [frontier]
    for d in range(1, depth + 1):
        nxt = []
        for i, path in frontier:
            if d == depth and i != 1:
                continue
            m = apply_model(ops, inits[i], path)
            for name, (_, model) in ops.items():
                try:
                    w = model(m)
                except Skip:
                    continue
                if isinstance(w, type):
                    continue
                key = w.canon()
                if key in seen:
                    continue
                seen.add(key)
                nxt.append((i, path + (name,)))
        levels.append(nxt)
        frontier = nxt
    for d, lv in enumerate(levels):
        ctx.explore(f"depth{d + 1}", lv, case_state)
    ctx.notes["frontier_sizes"] = [len(x) for x in levels]
