"""C22 zonal statistics use exactly the cells of each zone."""

import itertools
import math
import warnings

import numpy as np

from mc.checks.c21 import cells, expect, table
from mc.model import M, build, chunkings, default_null

LEVEL = "model_checking"
RULE = (
    "every content of a zone of up to four cells over an alphabet (all zones "
    "of one size side by side in one raster) x dtype x null state x block "
    "size x every statistic; every list of up to two statistics; chunk layout "
    "pairs of zones and data; vector zones: ordered feature pairs x field x "
    "format x overlap handling x partitioning"
)
BOUNDS = "rasters up to 4 x 256 cells, up to 256 zones, 3 bands"
ASSUMPTIONS = [
    "zones without valid cells: only count, size and nunique are judged, and "
    "that the other statistics are no made-up value (sum may be 0, prod 1)",
    "std and var are the sample statistics (n - 1), NaN for a single cell",
    "values above 2^53 are not judged: everything is computed in float64",
    "the order of the rows of the result is not judged",
]
STATS = (
    "asm", "count", "entropy", "max", "mean", "median", "min", "mode",
    "nunique", "prod", "size", "std", "sum", "var",
)


def want_stat(s, v, n):
    """The statistic of valid values v in a zone of n cells."""
    v = [float(x) for x in v]
    if s == "size":
        return n
    if s == "count":
        return len(v)
    if s == "nunique":
        return len(set(v))
    if not v:
        return {"sum": "0", "prod": "1"}.get(s, math.nan)
    m = math.fsum(v) / len(v)
    if s == "sum":
        return math.fsum(v)
    if s == "prod":
        return math.prod(v)
    if s == "mean":
        return m
    if s in ("std", "var"):
        if len(v) < 2:
            return math.nan
        q = math.fsum((x - m) ** 2 for x in v) / (len(v) - 1)
        return q if s == "var" else math.sqrt(q)
    if s == "min":
        return min(v)
    if s == "max":
        return max(v)
    if s == "median":
        w = sorted(v)
        k = len(w) // 2
        return w[k] if len(w) % 2 else (w[k - 1] + w[k]) / 2
    if s == "mode":
        return min(set(v), key=lambda x: (-v.count(x), x))
    p = [v.count(x) / len(v) for x in set(v)]
    if s == "asm":
        return math.fsum(x * x for x in p)
    return -math.fsum(x * math.log(x) for x in p)


def ok(got, want):
    if want in ("0", "1"):
        return got != got or got == float(want)
    if want != want:
        return got != got
    return got == got and math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-9)


def zonal(feat, r, stats, size=None, **kw):
    import dask
    from raster_tools.zonal import zonal_stats

    # the operation picks its own blocks: a small target gives many
    with warnings.catch_warnings(), dask.config.set(
        {"array.chunk-size": size or "128MiB"}
    ):
        warnings.simplefilter("ignore")
        return zonal_stats(feat, r, stats, **kw).compute(
            scheduler="synchronous"
        )


def judge(rec, key, df, m, zones, stats, wide=True):
    """zones: {id: list of (row, column)}."""
    rec.trace()
    nb = m.shape[0]
    rows = {}
    if wide:
        cols = [(f"band_{b + 1}", s) for b in range(nb) for s in stats]
        if [tuple(c) for c in df.columns] != cols:
            rec.bad(key + "|columns", f"{list(df.columns)} wanted {cols}")
            return
        for z, vals in zip(df.index.tolist(), df.to_numpy().tolist()):
            for b in range(nb):
                part = vals[b * len(stats) : (b + 1) * len(stats)]
                rows.setdefault((z, b + 1), []).append(part)
    else:
        if list(df.columns) != ["zone", "band", *stats]:
            rec.bad(key + "|columns", f"{list(df.columns)}")
            return
        for z, b, *vals in df.to_numpy().tolist():
            rows.setdefault((z, b), []).append(vals)
    expected = {(z, b + 1) for z, c in zones.items() if c for b in range(nb)}
    if set(rows) != expected or any(len(v) > 1 for v in rows.values()):
        rec.bad(
            key + "|rows",
            f"zones {sorted(rows)[:40]} wanted {sorted(expected)[:40]}"
            f" repeated {[k for k, v in rows.items() if len(v) > 1][:9]}",
        )
        return
    for z, cs in zones.items():
        for b in range(nb if cs else 0):
            v = [m.data[b, i, j] for i, j in cs if not m.mask[b, i, j]]
            rec.state(z, b, len(v), tuple(float(x) for x in v))
            for s, g in zip(stats, rows[z, b + 1][0]):
                w = want_stat(s, v, len(cs))
                if not ok(float(g), w):
                    rec.bad(
                        f"{key}|{s}", f"zone {z} band {b + 1} {s}: {g}, "
                        f"wanted {w}", f"valid values {v} of {len(cs)} cells",
                    )
                rec.outcome(s, str(g))


def zone_cells(z, null):
    out = {}
    for i, j in itertools.product(*map(range, z.shape)):
        if null is None or z[i, j] != null:
            out.setdefault(z[i, j].item(), []).append((i, j))
    return out


ALPHA = {
    "bool": (None, False, True),
    "u": (None, 0, 3, 200),
    "i": (None, -5, 0, 3),
    "f": (None, -2.5, 0.0, 3.25),
}


def content(dt, n):
    a = ALPHA["bool"] if dt == "bool" else ALPHA[np.dtype(dt).kind]
    if dt == "int8":
        a = (None, -5, 0, 100)
    combos = list(itertools.product(a, repeat=n))
    d = np.zeros((1, n, len(combos)), dt)
    k = np.zeros(d.shape, bool)
    for j, c in enumerate(combos):
        for i, v in enumerate(c):
            if v is None:
                k[0, i, j] = True
            else:
                d[0, i, j] = v
    return d, k


def case_contents(rec, c):
    dt, n, nv, size, zdt, stats = c
    d, k = content(dt, n)
    if nv == "default":
        m = M(d, k, default_null(dt))
    elif nv == "unmasked":
        m = M(d, None, None)
    else:
        m = M(d, k, nv)
    cols = d.shape[2]
    # zone ids 1.., with 0 as the null zone where the id type runs out
    z = np.broadcast_to(
        (np.arange(cols) * 37 % cols + 1) % (min(np.iinfo(zdt).max, 10**6) + 1), (n, cols)
    ).astype(zdt)
    zm = M(z[None], z[None] == 0, 0)
    rec.trans()
    df = zonal(build(zm), build(m), list(stats), size)
    judge(rec, f"content|{dt}|{nv}", df, m, zone_cells(z, 0), stats)


def small(nb, dt="float32"):
    a = np.arange(nb * 16).reshape(nb, 4, 4)
    d = (a * 7 % 11).astype(dt)
    return M(d, a * 5 % 9 == 1, default_null(dt))


ZONES = np.array(
    [[1, 1, 2, 0], [3, 1, 2, 2], [3, 3, 0, 2], [7, 3, 1, 1]], "int32"
)


def case_lists(rec, c):
    for stats in c:
        m = small(2)
        z = M(ZONES[None], ZONES[None] == 0, 0)
        for wide in (True, False):
            rec.trans()
            df = zonal(build(z), build(m), list(stats), "32B",
                       wide_format=wide)
            judge(rec, f"list|{stats}|{wide}", df, m, zone_cells(ZONES, 0),
                  stats, wide)
        if len(stats) == 1:
            df = zonal(build(z), build(m), stats[0])
            judge(rec, f"single|{stats}", df, m, zone_cells(ZONES, 0), stats)


def case_layouts(rec, c):
    nb, zch, dch, size, null = c
    m = small(nb)
    z = M(ZONES[None], None, None)
    if null is not None:
        z = M(ZONES[None], ZONES[None] == null, null)
    stats = ("median", "count", "mode", "sum", "nunique", "std", "asm")
    rec.trans()
    df = zonal(build(z, zch), build(m, dch), list(stats), size)
    judge(rec, f"layout|{nb}|{null}", df, m, zone_cells(ZONES, null), stats)


def case_vector(rec, c):
    feats, vals, kind, field, wide, overlap, size = c
    m = small(2)
    stats = ("count", "sum", "median", "mode", "size")
    d = table(feats, vals, "int32", kind)
    kw = {"wide_format": wide}
    if field:
        kw["features_field"] = "v"
    if overlap:
        kw["handle_overlap"] = True
    ids = vals if field else range(1, len(feats) + 1)
    zones = {}
    if overlap:
        for f, z in zip(feats, ids):
            if f is not None:
                zones[z] = [tuple(p) for p in np.argwhere(cells(f, True) == 1)]
    else:
        w, _ = expect(feats, ids, "last", 0, True)
        zones = zone_cells(w.astype("int64"), 0)
    rec.trans()
    df = zonal(d, build(m), list(stats), size, **kw)
    judge(rec, f"vector|{kind}|{field}|{wide}|{overlap}", df, m, zones, stats,
          wide)


def case_unburned(rec, c):
    which, dt = c
    from raster_tools.raster import data_to_raster

    m = small(1, dt)
    z = M(ZONES[None], ZONES[None] == 0, 0)
    zr, dr = build(z), build(m)
    stats = ("count", "sum", "min")
    if which == "data":
        dr = data_to_raster(m.data, mask=m.mask, x=m.x, y=m.y, crs=m.crs,
                            nv=m.nv)
    else:
        hide = np.arange(16).reshape(1, 4, 4) % 3 == 1
        zr = data_to_raster(z.data, mask=hide, x=m.x, y=m.y, crs=m.crs, nv=99)
        z = z.copy(data=np.where(hide, 99, z.data))
    rec.trans()
    df = zonal(zr, dr, list(stats))
    null = 0 if which == "data" else 99
    judge(rec, f"unburned|{which}", df, m, zone_cells(z.data[0], null), stats)


def case_refuse(rec, c):
    import dask.dataframe as dd
    from raster_tools.zonal import zonal_stats

    m, z = small(1), M(ZONES[None], ZONES[None] == 0, 0)
    args = [build(z), build(m), ["sum"]]
    kw = {}
    if c == "float zones":
        args[0] = build(small(1))
    elif c == "two band zones":
        args[0] = build(small(2, "int32"))
    elif c == "crs":
        args[0] = build(z.copy(crs="EPSG:32612"))
    elif c == "shape":
        args[0] = build(M(ZONES[None, :3], None, None, x=m.x, y=m.y[:3]))
    elif c == "unknown":
        args[2] = ["sum", "summ"]
    elif c == "empty":
        args[2] = []
    elif c == "type":
        args[2] = 3
    elif c == "overlap":
        kw["handle_overlap"] = True
    elif c == "field":
        args[0] = table((0, 1), (1, 2), "int32", "gdf")
        kw["features_field"] = "nope"
    rec.trans()
    rec.trace()
    try:
        df = zonal_stats(*args, **kw)
    except (TypeError, ValueError, KeyError):
        rec.state(c)
        return
    rec.bad(f"accepted|{c}", f"no error, {isinstance(df, dd.DataFrame)}")


def run(ctx):
    th = ctx.thorough
    dts = ["bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16",
           "int32", "int64", "float16", "float32", "float64"]
    sizes = (None, "64B", "512B")
    cases = []
    rot = itertools.count(ctx.seed % 5)
    zdts = ("int32", "uint16", "int64", "uint8", "int16", "uint64", "int8",
            "uint32")
    some = tuple(s for s in STATS if s != "median")
    for dt in dts:
        nvs = ["default", "unmasked"]
        if dt.startswith("f"):
            nvs += [np.nan, 0.5]
        elif dt != "bool":
            nvs += [77]
        else:
            nvs += [False]
        for nv in nvs:
            for n in (2, 3, 4) if th else (2, 3):
                if nv == "unmasked" and n != 2:
                    continue
                for size in sizes[: 3 if n < 4 else 1]:
                    i = next(rot)
                    if not th and n == 3 and i % 2:
                        continue
                    zdt = zdts[i % 8]
                    if n > 2 and zdt in ("int8", "uint8"):
                        zdt = "int32"
                    cases.append((dt, n, nv, size, zdt,
                                  some if i % 3 == 2 else STATS))
    cases.append(("float32", 4, "default", None, "int32", STATS))
    ctx.explore("zone contents", cases, case_contents)
    lists = [(s,) for s in STATS] + list(itertools.permutations(STATS, 2))
    if not th:
        lists = lists[:14] + [p for i, p in enumerate(lists[14:])
                              if "median" in p and i % 2 or i % 9 == 0]
    lists.append(STATS)
    lists.append(tuple(reversed(STATS)))
    ctx.explore("statistic lists",
                [tuple(lists[i : i + 4]) for i in range(0, len(lists), 4)],
                case_lists)
    chs = chunkings(4, 4)
    cases = []
    for i, (zch, dch) in enumerate(itertools.product(chs, chs)):
        if i % (23 if th else 131):
            continue
        cases.append((i % 3 + 1, zch, dch, (None, "8B", "32B", "64B")[i % 4],
                      (0, None, 2)[i // 7 % 3]))
    ctx.explore("chunk layouts", cases, case_layouts)
    cases = []
    kinds = ("gdf", "vector", (1, 1), (2,))
    opts = list(itertools.product((False, True), repeat=3))
    for feats in itertools.permutations(range(8), 2):
        i = next(rot)
        for o in range(8) if th else (i % 8, (i * 3 + 4) % 8):
            field, wide, over = opts[o]
            cases.append((feats, (5, 3), kinds[(i + o) % 4], field, wide, over,
                          (None, "32B")[i % 2]))
    for feats in ((0, None, 1), (None, 4), (3, 7, 1, 0)):
        for o in opts:
            cases.append((feats, (9, 2, 5, 4)[: len(feats)], "gdf", *o, None))
    ctx.explore("vector zones", cases, case_vector)
    ctx.explore("unburned cells", [
        (w, dt) for w in ("data", "zones") for dt in ("int16", "float32")
    ], case_unburned)
    ctx.explore("refusals", [
        "float zones", "two band zones", "crs", "shape", "unknown", "empty",
        "type", "overlap", "field",
    ], case_refuse)
