"""C17 dilate and erode take the max/min over the footprint."""

import itertools

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    observe,
    windows_raster,
)

LEVEL = "model_checking"
RULE = (
    "every 3x3 neighbourhood over {null, low, high} (one raster holding all "
    "of them) x every size up to 4x4 x dtype; every 2x3 grid over the "
    "alphabet x size; every chunk layout of a 4x5 grid x size"
)
BOUNDS = "footprints up to 4x4 (5x5 thorough); 12 dtypes; two bands"


def extremes(dt):
    dt = np.dtype(dt)
    if dt.kind == "b":
        return [False, True]
    if dt.kind == "f":
        return [-3.5, 2.25]
    if dt.kind == "u":
        return [3, 7]
    return [-5, 4]


def oracle(m, size, op):
    """max/min over valid cells under the window; outside counts as null."""
    sy, sx = size
    if op == "dilate":
        oy = range(-((sy - 1) // 2), sy // 2 + 1)
        ox = range(-((sx - 1) // 2), sx // 2 + 1)
    else:
        oy = range(-(sy // 2), (sy - 1) // 2 + 1)
        ox = range(-(sx // 2), (sx - 1) // 2 + 1)
    nb, ny, nx = m.shape
    out = np.zeros(m.shape, m.dtype)
    have = np.zeros(m.shape, bool)
    full = np.ones(m.shape, bool)
    p = 6
    D = np.pad(m.data, ((0, 0), (p, p), (p, p)))
    V = np.pad(~m.mask, ((0, 0), (p, p), (p, p)))
    pick = np.maximum if op == "dilate" else np.minimum
    for dy, dx in itertools.product(oy, ox):
        d = D[:, p + dy : p + dy + ny, p + dx : p + dx + nx]
        v = V[:, p + dy : p + dy + ny, p + dx : p + dx + nx]
        out = np.where(v, np.where(have, pick(out, d), d), out)
        have |= v
        full &= v
    if m.nv is None:
        mask = np.zeros(m.shape, bool)
    else:
        mask = ~have if op == "dilate" else ~full
    return m.copy(data=out.astype(m.dtype), mask=mask)


def check(rec, m, size, op, ch, key, arg=None):
    from raster_tools import general

    r = build(m, ch)
    rec.trans()
    arg = size if arg is None else arg
    g = getattr(general, op)(r, arg)
    o = observe(g)
    rec.trace()
    f = invariants(o)
    f += compare(o, oracle(m, size, op))
    rec.outcome(op, o.canon())
    if f:
        rec.bad(key, "; ".join(f)[:1200], (m if m.data.size < 99 else "", ch))
    return r


def case_all(rec, c):
    dt, masked, op, size = c
    a = extremes(dt)
    codes = windows_raster((0, 1, 2) if masked else (1, 2), 3, np.uint8)
    data = np.array([a[0], a[0], a[1]], dt)[codes]
    data = np.stack([data, data[::-1, ::-1]])
    k = np.stack([codes == 0, codes[::-1, ::-1] == 0])
    m = M(data, k if masked else None, default_null(dt) if masked else None)
    n = codes.shape[0] // 2, codes.shape[1] // 3
    ch = (
        (n[0], codes.shape[0] - n[0]),
        (n[1], 1, codes.shape[1] - n[1] - 1),
    )
    rec.state(c)
    check(rec, m, size, op, ch, f"{op}|{dt}|{int(masked)}|{size}")
    rec.sample({"op": op, "dtype": dt, "size": size, "cells": data.size})


def case_small(rec, c):
    dt, op, size, lead = c
    a = extremes(dt)
    for rest in itertools.product((0, 1, 2), repeat=4):
        codes = np.array(lead + rest).reshape(2, 3)
        m = M(
            np.array([a[0], a[0], a[1]], dt)[codes], codes == 0,
            default_null(dt),
        )
        rec.state(dt, op, size, codes.tolist())
        check(
            rec, m, size, op, ((2,), (3,)), f"small|{op}|{dt}|{size}",
        )


def case_chunks(rec, c):
    dt, masked, op, size, chs = c
    rng = np.arange(2 * 4 * 5).reshape(2, 4, 5)
    data = ((rng * 7) % 11).astype(dt)
    data[1, 2, 3] = np.array(default_null(dt))
    k = (rng * 5) % 7 == 0 if masked else np.zeros(rng.shape, bool)
    m = M(data, k, default_null(dt) if masked else None)
    for ch in chs:
        rec.state(c, ch)
        check(rec, m, size, op, ch, f"chunks|{op}|{dt}|{size}")


def case_args(rec, c):
    """Nulls, infinities, argument forms and purity."""
    dt, op, kind = c
    if kind == "inf":
        a = np.array(
            [[-np.inf, -np.inf, 1], [np.inf, np.inf, np.inf], [2, 3, -np.inf]]
        ).astype(dt)
        k = np.zeros((3, 3), bool)
        k[0, 0] = k[1, 2] = True
        m = M(a, k, default_null(dt))
        for size in [(2, 2), (1, 2), (3, 1), (3, 3)]:
            check(rec, m, size, op, ((1, 2), (3,)), f"inf|{op}|{dt}|{size}")
            rec.state(c, size)
        return
    m = M(
        np.arange(9).reshape(3, 3).astype(dt),
        np.eye(3, dtype=bool),
        default_null(dt),
    )
    for size, arg in [((3, 3), 3), ((2, 2), 2), ((3, 1), [3, 1]),
                      ((1, 2), np.array([1, 2]))]:
        rec.state(c, size)
        r = check(
            rec, m, size, op, ((2, 1), (1, 2)), f"arg|{op}|{dt}|{size}",
            arg=arg,
        )
        f = compare(observe(r), m)
        if f:
            rec.bad(f"input|{op}|{dt}", "; ".join(f))


def run(ctx):
    T = ctx.thorough
    mx = 5 if T else 4
    sizes = [
        s for s in itertools.product(range(1, mx + 1), repeat=2) if s != (1, 1)
    ]
    ops = ("dilate", "erode")
    cases = [
        (dt, mk, op, s)
        for dt in ALL_DTYPES
        for mk in (False, True)
        for op in ops
        for s in sizes
        if T or dt in ("int16", "float32", "int64") or s in [(3, 3), (2, 3), (4, 2)]
    ]
    ctx.explore("neighbourhoods", cases, case_all)
    cases = [
        (dt, op, s, lead)
        for dt in (("int16", "float64", "uint8") if T else ("int16",))
        for op in ops
        for s in sizes
        if max(s) <= 3 or T
        if T or s in [(2, 2), (3, 3), (2, 3), (3, 2), (1, 2), (2, 1)]
        for lead in itertools.product((0, 1, 2), repeat=2)
        if T or (lead[0] != 1 and (sum(lead) // 2 + sum(s)) % 2)
    ]
    ctx.explore("small grids", cases, case_small)
    chs = chunkings(4, 5)
    cases = [
        (dt, mk, op, s, chs[i::4])
        for dt in (("int32", "float32") if T else ("int32",))
        for mk in (False, True)
        for op in ops
        for s in sizes
        for i in range(4)
        if T or s in [(2, 2), (3, 3), (4, 3), (1, 4), (4, 1)]
    ]
    ctx.explore("chunk layouts", cases, case_chunks)
    cases = [(dt, op, "args") for dt in ALL_DTYPES if dt != "bool"
             for op in ops]
    cases += [(dt, op, "inf") for dt in ("float16", "float32", "float64")
              for op in ops]
    ctx.explore("arguments", cases, case_args)
