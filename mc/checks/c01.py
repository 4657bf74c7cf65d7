"""C01 arithmetic, comparison, logical and ufunc algebra over null cells."""

import itertools
import operator

import dask.array as da
import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    compare,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "every (operator, dtype pair, masked/unmasked pair); each execution holds "
    "the full cross product of value alphabet x null flag of both operands"
)

BINARY = [
    np.add, np.subtract, np.multiply, np.true_divide, np.floor_divide,
    np.power, np.mod, np.fmod, np.equal, np.not_equal, np.less,
    np.less_equal, np.greater, np.greater_equal, np.logical_and,
    np.logical_or, np.logical_xor, np.bitwise_and, np.bitwise_or,
    np.bitwise_xor, np.left_shift, np.right_shift, np.maximum, np.minimum,
    np.fmax, np.fmin, np.arctan2, np.hypot, np.logaddexp, np.copysign,
    np.nextafter, np.heaviside, np.gcd, np.lcm, np.float_power, np.ldexp,
    np.divmod, np.logaddexp2,
]
UNARY = [
    np.negative, np.positive, np.absolute, np.invert, np.logical_not,
    np.sqrt, np.square, np.exp, np.exp2, np.expm1, np.log, np.log2, np.log10,
    np.log1p, np.sin, np.cos, np.tan, np.arcsin, np.arccos, np.arctan,
    np.sinh, np.cosh, np.tanh, np.arcsinh, np.arccosh, np.arctanh, np.degrees,
    np.radians, np.floor, np.ceil, np.trunc, np.rint, np.sign, np.signbit,
    np.isnan, np.isinf, np.isfinite, np.reciprocal, np.cbrt, np.fabs,
    np.spacing, np.modf, np.frexp, np.conjugate, np.deg2rad, np.rad2deg,
]
OPERATORS = {
    "+": operator.add, "-": operator.sub, "*": operator.mul,
    "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
    "**": operator.pow, "==": operator.eq, "!=": operator.ne,
    "<": operator.lt, "<=": operator.le, ">": operator.gt,
    ">=": operator.ge, "&": operator.and_, "|": operator.or_,
    "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift,
    "divmod": divmod,
}
INPLACE = {
    "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul,
    "/=": operator.itruediv, "//=": operator.ifloordiv, "%=": operator.imod,
    "**=": operator.ipow, "&=": operator.iand, "|=": operator.ior,
    "^=": operator.ixor,
}
INPLACE_UF = {
    "+=": np.add, "-=": np.subtract, "*=": np.multiply,
    "/=": np.true_divide, "//=": np.floor_divide, "%=": np.mod,
    "**=": np.power, "&=": np.bitwise_and, "|=": np.bitwise_or,
    "^=": np.bitwise_xor,
}


def alphabet(dt):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return np.array([False, True])
    if dt.kind == "u":
        i = np.iinfo(dt)
        return np.array([0, 1, 3, i.max - 1], dt)
    if dt.kind == "i":
        i = np.iinfo(dt)
        return np.array([0, 1, -2, 3, i.max], dt)
    return np.array([0.0, 1.5, -2.0, np.nan, np.inf], dt)


def cross(dt1, m1, dt2, m2):
    """Two aligned model rasters holding every (a, null?, b, null?) cell."""
    A = [(v, False) for v in alphabet(dt1)]
    B = [(v, False) for v in alphabet(dt2)]
    if m1:
        A += [(A[0][0], True), (A[1][0], True)]
    if m2:
        B += [(B[0][0], True), (B[1][0], True)]
    na, nb = len(A), len(B)
    a = np.empty((1, na, nb), dt1)
    b = np.empty((1, na, nb), dt2)
    ma = np.zeros((1, na, nb), bool)
    mb = np.zeros((1, na, nb), bool)
    for i, (v, f) in enumerate(A):
        a[0, i, :], ma[0, i, :] = v, f
    for j, (v, f) in enumerate(B):
        b[0, :, j], mb[0, :, j] = v, f
    # two bands: the second one transposes the roles by reversing both axes
    a = np.concatenate([a, a[:, ::-1, ::-1]])
    b = np.concatenate([b, b[:, ::-1, ::-1]])
    ma = np.concatenate([ma, ma[:, ::-1, ::-1]])
    mb = np.concatenate([mb, mb[:, ::-1, ::-1]])
    return (
        M(a, ma, default_null(dt1) if m1 else None),
        M(b, mb, default_null(dt2) if m2 else None),
    )


def expect(uf, args, masks, masked, like):
    with np.errstate(all="ignore"):
        out = uf(*args)
    multi = isinstance(out, tuple)
    outs = out if multi else (out,)
    mask = np.zeros(like.shape, bool)
    for m in masks:
        mask = mask | m
    res = []
    for o in outs:
        nv = default_null(o.dtype) if masked else None
        res.append(like.copy(data=np.array(o), mask=mask.copy(), nv=nv))
    return res


def judge(rec, key, got, want, rtol=0.0):
    gots = got if isinstance(got, tuple) else (got,)
    if len(gots) != len(want):
        rec.bad(key + "|nout", f"{len(gots)} outputs, expected {len(want)}")
        return
    for g, w in zip(gots, want):
        o = observe(g)
        f = invariants(o)
        f += compare(o, w, rtol=rtol)
        rec.outcome(o.canon())
        if f:
            rec.bad(key, "; ".join(f)[:1500], (o, w))


def attempt(fn):
    try:
        with np.errstate(all="ignore"):
            return fn(), None
    except Exception as e:
        return None, e


# Transcendental functions may be evaluated on differently laid out blocks
# (SIMD remainder loops); allow a few ulp for them.
def tol(uf, dts):
    dt = np.result_type(*dts, np.float16)
    if uf in EXACT:
        return 0.0
    return {2: 4e-3, 4: 1e-6}.get(dt.itemsize, 1e-12)


EXACT = {
    np.add, np.subtract, np.multiply, np.equal, np.not_equal, np.less,
    np.less_equal, np.greater, np.greater_equal, np.logical_and,
    np.logical_or, np.logical_xor, np.bitwise_and, np.bitwise_or,
    np.bitwise_xor, np.left_shift, np.right_shift, np.maximum, np.minimum,
    np.negative, np.positive, np.absolute, np.invert, np.logical_not,
    np.square, np.floor, np.ceil, np.trunc, np.rint, np.sign, np.signbit,
    np.isnan, np.isinf, np.isfinite,
}


def case_binary(rec, case):
    ufname, dt1, dt2, m1, m2 = case
    uf = getattr(np, ufname)
    a, b = cross(dt1, m1, dt2, m2)
    want, err = attempt(
        lambda: expect(uf, (a.data, b.data), (a.mask, b.mask), m1 or m2, a)
    )
    key = f"{ufname}|{dt1}|{dt2}|{int(m1)}{int(m2)}"
    ra, rb = build(a), build(b)
    got, gerr = attempt(lambda: uf(ra, rb))
    rec.trans()
    rec.trace()
    rec.state(case)
    if isinstance(err, ValueError):
        # value dependent error (negative integer power): raised lazily
        rec.skip("numpy value error")
        return
    if err is not None:
        if gerr is None:
            rec.bad(key + "|noraise", f"numpy raises {err!r}, raster does not")
        return
    if gerr is not None:
        rec.bad(key + "|raise", f"raised {gerr!r}")
        return
    judge(rec, key, got, want, tol(uf, (dt1, dt2)))
    for r, m, n in ((ra, a, "left"), (rb, b, "right")):
        f = compare(observe(r), m)
        if f:
            rec.bad(key + f"|{n}-operand-changed", "; ".join(f))
    rec.sample({"op": ufname, "dtypes": [dt1, dt2], "masked": [m1, m2]})


def case_unary(rec, case):
    ufname, dt, m1 = case
    uf = getattr(np, ufname)
    a, _ = cross(dt, m1, "bool", False)
    want, err = attempt(lambda: expect(uf, (a.data,), (a.mask,), m1, a))
    key = f"{ufname}|{dt}|{int(m1)}"
    ra = build(a)
    got, gerr = attempt(lambda: uf(ra))
    rec.trans()
    rec.trace()
    rec.state(case)
    if isinstance(err, ValueError):
        # value dependent error (negative integer power): raised lazily
        rec.skip("numpy value error")
        return
    if err is not None:
        if gerr is None:
            rec.bad(key + "|noraise", f"numpy raises {err!r}, raster does not")
        return
    if gerr is not None:
        rec.bad(key + "|raise", f"raised {gerr!r}")
        return
    judge(rec, key, got, want, tol(uf, (dt,)))
    f = compare(observe(ra), a)
    if f:
        rec.bad(key + "|operand-changed", "; ".join(f))


SCALARS = [
    2, -1, 0, 1.5, True, float("nan"),
    np.int8(3), np.uint8(3), np.float32(2.5), np.int16(-2), np.uint32(7),
]


def case_scalar(rec, case):
    op, dt, m1, si, side = case
    fn = OPERATORS[op]
    s = SCALARS[si]
    a, _ = cross(dt, m1, "bool", False)
    ra = build(a)
    # Python ints / floats act as 64-bit numbers.
    ns = s
    if type(s) is int:
        ns = np.int64(s)
    elif type(s) is float:
        ns = np.float64(s)
    elif type(s) is bool:
        ns = np.bool_(s)
    ns_arr = np.full(a.shape, ns)

    def model(x, y):
        def uf(z):
            return fn(x if x is not None else z, y if y is not None else z)

        return expect(uf, (a.data,), (a.mask,), m1, a)

    want, err = attempt(
        lambda: model(None, ns_arr) if side == "R" else model(ns_arr, None)
    )
    got, gerr = attempt(lambda: fn(ra, s) if side == "R" else fn(s, ra))
    key = f"scalar|{op}|{dt}|{int(m1)}|{type(s).__name__}:{s}|{side}"
    rec.trans()
    rec.trace()
    rec.state(case)
    isf = a.dtype.kind == "f" or ns_arr.dtype.kind == "f"
    if op in "& | ^ << >>".split() and isf:
        if not isinstance(gerr, TypeError):
            rec.bad(key + "|noraise", f"bitwise on float gave {gerr!r}")
        return
    if isinstance(err, ValueError):
        # value dependent error (negative integer power): raised lazily
        rec.skip("numpy value error")
        return
    if err is not None:
        if gerr is None:
            rec.bad(key + "|noraise", f"numpy raises {err!r}, raster does not")
        return
    if gerr is not None:
        rec.bad(key + "|raise", f"raised {gerr!r}")
        return
    judge(rec, key, got, want, 0 if op in "+-*" else tol(None, (dt,)))
    f = compare(observe(ra), a)
    if f:
        rec.bad(key + "|operand-changed", "; ".join(f))


def case_inplace(rec, case):
    op, dt1, m1, other = case
    uf = INPLACE_UF[op]
    a, b = cross(dt1, m1, "int16", other == "masked")
    ra = build(a)
    alias = ra.copy()
    other_r = build(b) if other != "scalar" else 3
    od = b.data if other != "scalar" else np.full(a.shape, np.int64(3))
    om = b.mask if other != "scalar" else np.zeros(a.shape, bool)
    want, err = attempt(
        lambda: expect(
            uf, (a.data, od), (a.mask, om), m1 or other == "masked", a
        )
    )
    key = f"inplace|{op}|{dt1}|{int(m1)}|{other}"
    got, gerr = attempt(lambda: INPLACE[op](ra, other_r))
    rec.trans()
    rec.trace()
    rec.state(case)
    if isinstance(err, ValueError):
        # value dependent error (negative integer power): raised lazily
        rec.skip("numpy value error")
        return
    if err is not None:
        if gerr is None:
            rec.bad(key + "|noraise", f"numpy raises {err!r}, raster does not")
        return
    if gerr is not None:
        rec.bad(key + "|raise", f"raised {gerr!r}")
        return
    if got is not ra:
        rec.bad(key + "|identity", "in-place operator returned a new object")
    judge(rec, key, ra, want, tol(uf, (dt1, "float32")))
    f = compare(observe(alias), a)
    if f:
        rec.bad(key + "|copy-changed", "; ".join(f))


def case_array(rec, case):
    """Raster with broadcastable arrays, bandwise operands, other inputs."""
    kind, op, dt, m1, side = case
    fn = OPERATORS[op]
    a, _ = cross(dt, m1, "uint8", False)
    nb, ny, nx = a.shape
    ra = build(a)
    full = np.arange(nb * ny * nx).reshape(a.shape).astype("int32") % 5 - 1
    if kind == "full":
        s = full
    elif kind == "row":
        s = full[0, :1]
    elif kind == "col":
        s = full[:1, :, :1]
    elif kind == "2d":
        s = full[1]
    elif kind == "list1":
        s = [3]
    elif kind == "dask":
        s = da.from_array(full, chunks=(1, 2, 1))
    elif kind == "bandarr":
        s = np.array([2, -3], "int32").reshape(2, 1, 1)
    elif kind == "bandwise":
        s = np.array([2, -3], "int32")
    elif kind == "bandwise-list":
        s = [2, -3]
    elif kind == "bandwise-scalar":
        s = 4
    elif kind == "xr":
        s = build(M(full)).xdata
    ns = np.asarray(s)
    if ns.ndim == 1 and kind.startswith("bandwise"):
        ns = ns.reshape(-1, 1, 1)
    if kind == "bandwise-scalar":
        ns = np.full((1, 1, 1), 4)
    lhs = ra.bandwise if kind.startswith("bandwise") else ra

    def model(z):
        return fn(z, ns) if side == "R" else fn(ns, z)

    want, err = attempt(lambda: expect(model, (a.data,), (a.mask,), m1, a))
    got, gerr = attempt(lambda: fn(lhs, s) if side == "R" else fn(s, lhs))
    key = f"array|{kind}|{op}|{dt}|{int(m1)}|{side}"
    rec.trans()
    rec.trace()
    rec.state(case)
    if isinstance(err, ValueError):
        # value dependent error (negative integer power): raised lazily
        rec.skip("numpy value error")
        return
    if err is not None:
        if gerr is None:
            rec.bad(key + "|noraise", f"numpy raises {err!r}, raster does not")
        return
    if gerr is not None:
        rec.bad(key + "|raise", f"raised {gerr!r}")
        return
    judge(rec, key, got, want, tol(None, (dt,)))


def case_expr(rec, case):
    """Every expression of depth 3 over two rasters and a constant."""
    ops, leaves, masks = case
    dt = ["int16", "uint8"]
    a, b = cross(dt[0], masks[0], dt[1], masks[1])
    ra, rb = build(a, ((1,) * a.shape[1], (a.shape[2],))), build(b)
    pool_m = {"a": a, "b": b, "2": None}
    pool_r = {"a": ra, "b": rb, "2": 2}

    def mdl(op, x, y):
        fx = x.data if isinstance(x, M) else np.int64(2)
        fy = y.data if isinstance(y, M) else np.int64(2)
        ms = [z.mask for z in (x, y) if isinstance(z, M)]
        masked = any(z.nv is not None for z in (x, y) if isinstance(z, M))
        return expect(OPERATORS[op], (fx, fy), ms, masked, a)[0].burned()

    m, r = pool_m[leaves[0]], pool_r[leaves[0]]
    for op, leaf in zip(ops, leaves[1:]):
        m = mdl(op, m, pool_m[leaf])
        r = OPERATORS[op](r, pool_r[leaf])
        rec.trans()
        rec.state(ops, leaves, masks, op)
    rec.trace()
    judge(rec, f"expr|{'|'.join(ops)}|{leaves}|{masks}", r, [m])


def case_meta(rec, case):
    """Null-value choice, crs and chunking of the operands do not matter."""
    op, dt1, nv1, dt2, nv2, crs1, crs2, ch1, ch2 = case
    a, b = cross(dt1, nv1 is not None, dt2, nv2 is not None)
    nvs = []
    for m, nv in ((a, nv1), (b, nv2)):
        if nv == "nan":
            nv = float("nan")
        m.nv = nv
        nvs.append(nv)
    a.crs, b.crs = crs1, crs2
    _, ny, nx = a.shape
    chs = {
        "one": ((ny,), (nx,)),
        "cells": ((1,) * ny, (1,) * nx),
        "odd": ((2, ny - 2), (1, nx - 1)),
        "rag": ((1, 1, ny - 2), (nx - 2, 2)),
    }
    ra, rb = build(a, chs[ch1]), build(b, chs[ch2])
    masked = nv1 is not None or nv2 is not None
    a2 = a.copy(crs=crs1 if crs1 is not None else crs2)
    want = expect(
        OPERATORS[op], (a.data, b.data), (a.mask, b.mask), masked, a2
    )
    got = OPERATORS[op](ra, rb)
    rec.trans()
    rec.trace()
    rec.state(case)
    key = f"{op}|{dt1}:{nv1}|{dt2}:{nv2}|{crs1},{crs2}|{ch1},{ch2}"
    judge(rec, key, got, want, tol(None, (dt1, dt2)))
    for r, m, n in ((ra, a, "left"), (rb, b, "right")):
        f = compare(observe(r), m)
        if f:
            rec.bad(key + f"|{n}-operand-changed", "; ".join(f))


def run(ctx):
    big = ctx.thorough
    dts = ALL_DTYPES
    pairs = list(itertools.product(dts, dts))
    main = {
        "add", "subtract", "multiply", "divide", "less", "equal", "maximum",
        "logical_and", "bitwise_or", "power", "floor_divide", "remainder",
    }
    few = ["bool", "uint8", "int16", "int64", "float32", "float64"]
    fewp = set(itertools.product(few, few))
    diag = {(d, d) for d in dts} | {("int16", "uint8"), ("float32", "int64")}
    cases = []
    for uf in BINARY:
        n = uf.__name__
        for p in pairs:
            if not big:
                if n in ("add", "less", "divide"):
                    ok = True
                elif n in main:
                    ok = p in fewp or p in diag
                else:
                    ok = p in diag
                if not ok:
                    continue
            for m1, m2 in itertools.product((False, True), repeat=2):
                if not big and p not in diag and m1 == m2:
                    if n not in ("add", "less"):
                        continue
                cases.append((n, p[0], p[1], m1, m2))
    ctx.explore("binary", cases, case_binary)
    ctx.explore(
        "unary",
        [
            (u.__name__, d, m)
            for u in UNARY
            for d in dts
            for m in (False, True)
        ],
        case_unary,
    )
    sd = dts if big else ["bool", "uint8", "int16", "int64", "float32"]
    ctx.explore(
        "scalar",
        [
            (op, d, m, si, side)
            for op in OPERATORS
            for d in sd
            for m in ((False, True) if big else (True,))
            for si in range(len(SCALARS))
            for side in "RL"
            if big or si in (0, 3, 6) or d == "int16"
        ],
        case_scalar,
    )
    ctx.explore(
        "inplace",
        [
            (op, d, m, o)
            for op in INPLACE
            for d in (dts if big else ["uint8", "int32", "float64", "bool"])
            for m in (False, True)
            for o in ("scalar", "masked", "unmasked")
        ],
        case_inplace,
    )
    metas = []
    chs = ("one", "cells", "odd", "rag")
    crss = (None, "EPSG:5070")
    for op in ("+", "/", ">="):
        for nv1 in (None, 7, -5):
            for nv2 in (None, 7.0, "nan", -5.0):
                for c1, c2 in itertools.product(chs, chs):
                    if not big and op != "+" and c1 == c2:
                        continue
                    metas.append(
                        (op, "int32", nv1, "float32", nv2, crss[1], crss[1],
                         c1, c2)
                    )
                for k1, k2 in itertools.product(crss, crss):
                    metas.append(
                        (op, "float64", nv2, "int8", nv1, k1, k2, "odd",
                         "odd")
                    )
    ctx.explore("metadata", metas, case_meta)
    kinds = [
        "full", "row", "col", "2d", "list1", "dask", "bandarr", "bandwise",
        "bandwise-list", "bandwise-scalar", "xr",
    ]
    ctx.explore(
        "array",
        [
            (k, op, d, m, s)
            for k in kinds
            for op in ("-", "*", "<", "//", "**")
            for d in (dts if big else ["uint8", "int16", "float32"])
            for m in (False, True)
            for s in ("RL" if k not in ("xr",) else "R")
        ],
        case_array,
    )
    ops = ["+", "-", "*", "<", "|"] if big else ["-", "*", "<"]
    ctx.explore(
        "expression",
        [
            (o, lv, mk)
            for o in itertools.product(ops, repeat=3 if big else 2)
            for lv in itertools.product(
                ("a", "b"), *(["ab2"] * (3 if big else 2))
            )
            for mk in itertools.product((False, True), repeat=2)
        ],
        case_expr,
    )
