"""Plain definitions of the statistics, on a list of valid values."""

import collections
import math

import numpy as np


def stat(name, vals):
    """Statistic of a non-empty sequence of valid values (Python floats).

    Integers are kept as Python ints so that sums and products are exact.
    """
    vals = [v.item() if hasattr(v, "item") else v for v in vals]
    vals = [int(v) if isinstance(v, bool) else v for v in vals]
    n = len(vals)
    if name in ("asm", "entropy", "unique", "mode"):
        c = collections.Counter(vals)
        if name == "unique":
            return len(c)
        if name == "mode":
            top = max(c.values())
            return min(v for v, k in c.items() if k == top)
        p = [k / n for k in c.values()]
        if name == "asm":
            return sum(q * q for q in p)
        return -sum(q * math.log(q) for q in p)
    if name == "max":
        return max(vals)
    if name == "min":
        return min(vals)
    if name == "sum":
        return math.fsum(vals)
    if name == "prod":
        return math.prod(vals)
    if name == "mean":
        return math.fsum(vals) / n
    if name == "median":
        s = sorted(vals)
        return (s[(n - 1) // 2] + s[n // 2]) / 2
    if name in ("var", "std"):
        m = math.fsum(vals) / n
        v = math.fsum((x - m) ** 2 for x in vals) / n
        return v if name == "var" else math.sqrt(v)
    if name == "range":
        return max(vals) - min(vals)
    raise KeyError(name)


def argext(name, vals, valid):
    """First index of the max/min among the valid entries."""
    best = None
    for i, (v, ok) in enumerate(zip(vals, valid)):
        if not ok:
            continue
        if (
            best is None
            or (name == "max" and v > vals[best])
            or (name == "min" and v < vals[best])
        ):
            best = i
    return best


def agree(a, b, rtol=1e-5, atol=1e-6):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def small_values(dt, wide=True):
    """Three distinct values per dtype, exact in float32."""
    dt = np.dtype(dt)
    if dt.kind == "b":
        return np.array([False, True, True])
    if dt.kind == "u":
        top = {1: 250, 2: 60000, 4: 1 << 20, 8: 1 << 20}[dt.itemsize]
        return np.array([0, 3, top], dt)
    if dt.kind == "i":
        top = {1: 120, 2: 30000, 4: 1 << 20, 8: 1 << 20}[dt.itemsize]
        return np.array([-5, 0, top], dt)
    return np.array([-1.5, 0.25, 100.0], dt)
