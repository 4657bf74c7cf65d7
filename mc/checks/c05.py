"""C05 reductions over a raster use exactly the valid cells."""

import itertools

import dask
import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    observe,
)
from mc.stats import agree, small_values, stat

LEVEL = "model_checking"
RULE = "every null mask x content x dtype x reduction x chunk layout"
BOUNDS = (
    "grids 1x1x3, 1x2x2, 2x1x2 with all 2^n null masks, all chunk layouts, "
    "all 12 dtypes (content: cyclic shifts of a 3 value alphabet)"
)
REDS = ("all", "any", "max", "mean", "min", "prod", "std", "sum", "var")
FUNCS = {n: getattr(np, n) for n in REDS}


def case(rec, c):
    shape, dt, shift, bits, via, nanvalid = c
    n = int(np.prod(shape))
    vals = np.resize(np.roll(small_values(dt), shift), n).reshape(shape)
    if nanvalid:
        vals = vals.copy()
        vals.ravel()[0] = np.nan
    masked = bits is not None
    k = np.zeros(shape, bool)
    if masked:
        k = np.array([bool(bits >> i & 1) for i in range(n)]).reshape(shape)
    m = M(vals, k, default_null(dt) if masked else None)
    good = m.data[~m.mask]
    nums = good[~np.isnan(good)] if good.dtype.kind == "f" else good
    for ch in chunkings(shape[1], shape[2]):
        r = build(m, ch)
        lazies, names = [], []
        for name in REDS:
            if len(good) == 0 and name in ("max", "min", "mean", "std",
                                           "var"):
                continue
            if len(nums) == 0 and name not in ("all", "any"):
                continue
            rec.trans()
            lz = getattr(r, name)() if via == "method" else FUNCS[name](r)
            lazies.append(lz)
            names.append(name)
        outs = dask.compute(*lazies)
        for name, got in zip(names, outs):
            rec.trace()
            if name == "all":
                want = bool(good.all())
            elif name == "any":
                want = bool(good.any())
            elif len(nums) == 0:
                want = 0.0 if name == "sum" else 1.0
            else:
                want = stat(name, nums)
                if np.dtype(dt).kind in "iu" and name == "prod":
                    if abs(want) >= 2**63:
                        continue
            rec.outcome(name, got)
            got = np.asarray(got)
            if got.size != 1:
                rec.bad(f"{name}|shape", f"{name} gave {got!r}", m)
                continue
            tol = {2: 2e-2}.get(np.dtype(dt).itemsize, 1e-5)
            tol = tol if np.dtype(dt).kind == "f" else 1e-9
            if got.dtype == np.float16 and abs(want) > 60000:
                continue
            if not agree(got.item(), want, tol):
                rec.bad(
                    f"{name}|{dt}|{'masked' if masked else 'unmasked'}",
                    f"{name} = {got!r}, expected {want!r} chunks {ch}", m,
                )
        rec.state(c, ch)
    f = compare(observe(r), m)
    if f:
        rec.bad("mutated", f"reduction changed the raster: {f}", m)
    rec.sample({"shape": shape, "dtype": dt, "null_bits": bits})


def run(ctx):
    shapes = [(1, 1, 3), (1, 2, 2), (2, 1, 2)]
    if ctx.thorough:
        shapes += [(1, 2, 3), (2, 2, 2), (1, 1, 5), (3, 1, 2)]
    cases = []
    for shape in shapes:
        n = int(np.prod(shape))
        for dt in ALL_DTYPES:
            for shift in range(3):
                if not ctx.thorough and shift and dt not in (
                    "uint8", "int16", "float32", "bool",
                ):
                    continue
                cases.append((shape, dt, shift, None, "method", False))
                for bits in range(2**n):
                    via = "numpy" if bits % 3 == 0 else "method"
                    cases.append((shape, dt, shift, bits, via, False))
                if np.dtype(dt).kind == "f":
                    cases.append((shape, dt, shift, 0, "method", True))
    ctx.explore("reduce", cases, case)
