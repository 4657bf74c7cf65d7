"""C06 saving and reopening a raster preserves it."""

import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    crs_equal,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "states: dtype x null state (none, default, custom, nan, all null, no "
    "null cell) x driver/extension x bands x chunk layouts; options: full "
    "product of tiling, block size, compression, level, predictor, bigtiff, "
    "overviews x driver x dtype; replace: dtype x null value x replacement; "
    "grids: crs x resolution x size; unburned: mask patterns not written in "
    "the data; chunks: every chunk layout x bands x per_band x extension. "
    "Every file is reopened with Raster and read independently with rasterio"
)
BOUNDS = "rasters up to 2x5x6 (and 40x35 for tiles and overviews)"
ASSUMPTIONS = [
    "a valid cell whose value equals the null value in the file cannot be "
    "told from a null cell and is not judged",
    "an unmasked float file may be given a null value when opened, as no "
    "cell is masked by it",
    "GDAL, rasterio and rioxarray store what they are given",
]

warnings.simplefilter("ignore")

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH[0]) or (
        SCRATCH[1] != os.getpid()
    ):
        SCRATCH = (tempfile.mkdtemp(prefix="c06_", dir=ROOT), os.getpid())
    return SCRATCH[0]


ROOT = None


def root():
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="vc06_")
    return ROOT


def fresh():
    d = scratch()
    for n in os.listdir(d):
        p = os.path.join(d, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return d


def values(dt, shape):
    n = int(np.prod(shape))
    a = np.arange(n).reshape(shape)
    dt = np.dtype(dt)
    if dt == bool:
        return a % 3 == 0
    if dt.kind == "f":
        return (a * 0.75 - 2).astype(dt)
    d = (a % 100).astype(dt)
    info = np.iinfo(dt)
    # extremes of the dtype, well away from the default null values
    flat = d.reshape(-1)
    if dt.itemsize < 8:
        flat[-1] = info.max - 1
        if info.min < 0:
            flat[-2] = info.min + 1
    else:
        flat[-1] = 2**53 - 1
        if info.min < 0:
            flat[-2] = -(2**53) + 1
    return d


def make(dt, state, nb, ny, nx, **kw):
    d = values(dt, (nb, ny, nx))
    a = np.arange(d.size).reshape(d.shape)
    mask = a % 4 == 1
    if state == "none":
        return M(d, **kw)
    nv = {
        "default": default_null(dt), "custom": CUSTOM.get(np.dtype(dt).kind),
        "nan": np.nan, "allnull": default_null(dt),
        "nonull": default_null(dt), "fraction": 0.1,
    }[state]
    if state == "allnull":
        mask = np.ones(d.shape, bool)
    elif state == "nonull":
        mask = np.zeros(d.shape, bool)
    if np.dtype(dt) != bool:
        # no valid cell equals the null value
        d = np.where((d == nv) & ~mask, np.array(7).astype(d.dtype), d)
    return M(d, mask, nv, **kw)


CUSTOM = {"u": 101, "i": -101, "f": -9.5, "b": None}
STATES = ("none", "default", "custom", "nonull", "allnull", "nan", "fraction")


def valid_state(dt, s):
    k = np.dtype(dt).kind
    if s in ("nan", "fraction"):
        return k == "f"
    if s == "custom":
        return k != "b"
    return True


def file_model(m, new=None):
    """What the file must hold: dtype, null value, data (burned), mask."""
    dt = m.dtype
    nv = m.nv
    mask = m.mask.copy() if nv is not None else np.zeros(m.shape, bool)
    data = m.burned().data
    if dt == bool and nv is not None:
        d = m.data.astype("uint8")
        d[mask] = 255
        return np.dtype("uint8"), 255, d, mask
    if dt == bool:
        return np.dtype("uint8"), None, data.astype("uint8"), mask
    if dt in (np.int64, np.uint64) and nv is not None and abs(int(nv)) > 2**53:
        return np.dtype("float64"), float(nv), data.astype(float), mask
    return dt, nv, data, mask


def judge(rec, key, m, path, back, info, want=None, lossless=True):
    import rasterio as rio
    import raster_tools as rts

    dt, nv, data, mask = want or file_model(m)
    f = []
    with rio.open(path) as src:
        if src.count != m.shape[0] or src.shape != m.shape[1:]:
            f.append(f"file shape {(src.count, *src.shape)}")
        if np.dtype(src.dtypes[0]) != dt:
            f.append(f"file dtype {src.dtypes[0]} expected {dt}")
        if not (
            nv_equal(src.nodata, nv)
            or (nv is not None and src.nodata is not None
                and dt.kind == "f" and src.nodata == dt.type(nv))
        ):
            f.append(f"file nodata {src.nodata} expected {nv}")
        if not crs_equal(src.crs, m.crs):
            f.append(f"file crs {src.crs} expected {m.crs}")
        raw = src.read()
        res = (m.x[1] - m.x[0], m.y[0] - m.y[1])
        t = (
            res[0], 0, m.x[0] - res[0] / 2, 0, -res[1], m.y[0] + res[1] / 2
        )
        if not np.allclose(tuple(src.transform)[:6], t, rtol=1e-9,
                           atol=1e-6 * min(res)):
            f.append(f"file transform {tuple(src.transform)[:6]} expected {t}")
        if raw.shape == data.shape:
            bad = ~((raw == data) | ((raw != raw) & (data != data)))
            if not lossless:
                bad &= False
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                f.append(f"file cell {i}: {raw[i]} expected {data[i]}")
    rec.trans()
    for name, r in (("saved", back), ("opened", rts.Raster(path))):
        o = observe(r)
        f += [f"{name}: {x}" for x in invariants(o)]
        if o.data.shape != data.shape:
            f.append(f"{name}: shape {o.data.shape}")
            continue
        if o.data.dtype != dt:
            f.append(f"{name}: dtype {o.data.dtype} expected {dt}")
        if nv is None and dt.kind == "f":
            pass
        elif not nv_equal(o.nv, nv) and not (
            nv is not None and o.nv is not None and dt.kind == "f"
            and dt.type(o.nv) == dt.type(nv)
        ):
            f.append(f"{name}: null value {o.nv} expected {nv}")
        if not np.array_equal(o.mask, mask):
            f.append(
                f"{name}: mask {o.mask.astype(int).tolist()} expected "
                f"{mask.astype(int).tolist()}"
            )
        bad = ~mask & ~((o.data == data) | ((o.data != o.data) & (data != data)))
        if bad.any() and lossless:
            i = tuple(np.argwhere(bad)[0])
            f.append(f"{name}: cell {i}: {o.data[i]} expected {data[i]}")
        if not (
            np.allclose(o.x, m.x, rtol=0, atol=1e-6 * res[0])
            and np.allclose(o.y, m.y, rtol=0, atol=1e-6 * res[1])
        ):
            f.append(f"{name}: grid {o.x.tolist()} {o.y.tolist()}")
        if not crs_equal(o.crs, m.crs):
            f.append(f"{name}: crs {o.crs}")
        rec.trace()
        rec.outcome(o.canon())
    if f:
        rec.bad(key, "; ".join(f)[:1500], info)


def leftovers(rec, key, d, names, info):
    got = sorted(
        n for n in os.listdir(d) if not n.endswith(".aux.xml")
    )
    if got != sorted(names):
        rec.bad(f"{key}|files", f"{got} expected {sorted(names)}", info)


DRIVERS = [
    ("a.tif", None), ("b.tiff", None), ("c.tif", "GTiff"), ("d.tif", "COG"),
    ("e.dat", "GTiff"), ("f.img", "HFA"),
]


def case_states(rec, c):
    dt, state, nb = c
    lays = [((3,), (4,)), ((2, 1), (1, 3)), ((1, 1, 1), (2, 2))]
    m = make(dt, state, nb, 3, 4)
    for (name, drv), lay in itertools.product(DRIVERS, lays):
        if drv == "HFA" and dt not in ("uint8", "int16", "float32", "float64"):
            continue
        if nb == 2 and lay == lays[0] and drv not in (None, "COG"):
            continue
        d = fresh()
        r = build(m, lay)
        before = observe(r).canon()
        info = (c, name, drv, lay)
        path = os.path.join(d, name)
        kw = {} if drv is None else {"driver": drv}
        if dt == "float16":
            try:
                back = r.save(path, **kw)
            except Exception:  # noqa: BLE001
                rec.skip("float16 is not supported by this GDAL")
                continue
        else:
            back = r.save(path, **kw)
        judge(rec, f"states|{dt}|{state}", m, path, back, info)
        if observe(r).canon() != before:
            rec.bad("states|mutated", "the saved raster changed", info)
        leftovers(rec, "states", d, [name], info)
        rec.state(info)


def option_space(drv, thorough):
    tiled = (True, False) if drv == "GTiff" else (True,)
    blocks = (None, 16, (32, 16)) if drv == "GTiff" else (None, 128)
    if not thorough and drv == "GTiff":
        blocks = (None, (32, 16))
    comps = (None, "lzw", "deflate", "zstd", "packbits")
    if drv == "COG":
        comps = (None, "lzw", "deflate", "zstd")
    big = ("if_safer", True, False, "yes") if thorough else ("if_safer", True)
    overs = (None, True, [2], [2, 4]) if drv == "GTiff" else (None, True)
    for t, b, c, g, o in itertools.product(tiled, blocks, comps, big, overs):
        if not t and b == 16 and not thorough:
            continue
        for lvl in (None, 6) if c in ("deflate", "zstd") else (None,):
            for pred in ("dtype", None) if c in (
                "lzw", "deflate", "zstd"
            ) else (None,):
                yield {
                    "tiled": t, "blocksize": b, "compress": c,
                    "compress_level": lvl, "predictor": pred, "bigtiff": g,
                    "overviews": o,
                }


def case_options(rec, c):
    import rasterio as rio

    drv, dt, state, part, parts, thorough = c
    m = make(dt, state, 2, 40, 35)
    r = build(m, ((25, 15), (10, 25)))
    for i, opts in enumerate(option_space(drv, thorough)):
        if i % parts != part:
            continue
        kw = dict(opts)
        if kw["predictor"] == "dtype":
            if dt == "bool":
                continue
            kw["predictor"] = "float" if np.dtype(dt).kind == "f" else (
                "horizontal"
            )
        d = fresh()
        path = os.path.join(d, "o.tif")
        for res in ("average", "nearest") if (
            kw["overviews"] and i % 3 == 0
        ) else ("average",):
            back = r.save(path, driver=drv, overview_resampling=res, **kw)
            info = (c, kw, res)
            judge(rec, f"options|{drv}|{dt}", m, path, back, info)
            with rio.open(path) as src:
                p = src.profile
                comp = (kw["compress"] or "none").lower()
                got = p.get("compress", "none").lower()
                if comp != got:
                    rec.bad("options|compress", f"{got} expected {comp}", info)
                bs = kw["blocksize"]
                if drv == "GTiff":
                    if kw["tiled"] and bs:
                        h, w = (bs, bs) if isinstance(bs, int) else bs
                        if src.block_shapes[0] != (h, w):
                            rec.bad(
                                "options|blocks",
                                f"{src.block_shapes[0]} expected {(h, w)}",
                                info,
                            )
                    o = kw["overviews"]
                    want = o if isinstance(o, list) else []
                    if src.overviews(1) != want:
                        rec.bad(
                            "options|overviews",
                            f"{src.overviews(1)} expected {want}", info,
                        )
            leftovers(rec, "options", d, ["o.tif"], info)
            rec.state(info)


def case_replace(rec, c):
    dt, state, drv = c
    m = make(dt, state, 1, 3, 4)
    r = build(m, ((2, 1), (2, 2)))
    k = np.dtype(dt).kind
    news = {
        "u": (101, 0, 200), "i": (-101, 0, 100), "b": (), "f": (-5.5, 0, np.nan)
    }[k]
    for new, how in itertools.product(news, ("null_value", "no_data_value")):
        d = fresh()
        path = os.path.join(d, "r.tif")
        back = r.save(path, driver=drv, **{how: new})
        # cells already equal to the replacement become null as well
        with np.errstate(all="ignore"):
            eq = np.isnan(m.data) if new != new else m.data == new
        mask = (m.mask if m.nv is not None else np.zeros(m.shape, bool)) | eq
        data = m.data.copy()
        data[mask] = new
        info = (c, new, how)
        judge(
            rec, f"replace|{dt}", m, path, back, info,
            want=(m.dtype, new, data, mask),
        )
        rec.state(info)


def case_grids(rec, c):
    crs, g, (ny, nx), drv = c
    rx, ry, x0, y0 = g
    m = make(
        "int32", "custom", 1, ny, nx, x=x0 + np.arange(nx) * rx,
        y=y0 - np.arange(ny) * ry, crs=crs,
    )
    d = fresh()
    path = os.path.join(d, "g.tif")
    r = build(m, ((1, ny - 1), (nx,)))
    judge(rec, f"grids|{drv}", m, path, r.save(path, driver=drv), c)
    rec.state(c)
    # saving what was read gives the same again
    import raster_tools as rts

    again = os.path.join(d, "h.tif")
    judge(
        rec, f"again|{drv}", m, again,
        rts.Raster(path).save(again, driver=drv), c,
    )


def case_unburned(rec, c):
    import dask.array as da
    import raster_tools as rts

    dt, nv, drv = c
    for bits in range(16):
        mask = np.array([bool(bits >> i & 1) for i in range(4)])
        mask = mask.reshape(1, 2, 2)
        d = np.array([[[3, 5], [7, 9]]]).astype(dt)
        m = M(d, mask, nv)
        r = rts.data_to_raster(
            da.from_array(d, chunks=(1, 1, 2)),
            mask=da.from_array(mask, chunks=(1, 1, 2)), x=m.x, y=m.y,
            crs=m.crs, nv=nv,
        )
        dr = fresh()
        path = os.path.join(dr, "u.tif")
        judge(
            rec, f"unburned|{dt}", m, path, r.save(path, driver=drv),
            (c, bits),
        )
        rec.state(c, bits)


def case_chunks(rec, c):
    import raster_tools as rts

    nb, lay, dt, state, opts = c
    ny, nx = sum(lay[0]), sum(lay[1])
    m = make(dt, state, nb, ny, nx)
    r = build(m, lay)
    ys = np.cumsum((0, *lay[0]))
    xs = np.cumsum((0, *lay[1]))
    for per_band, (ext, suffix) in itertools.product(
        (False, True),
        ((None, ".tif"), ("tiff", ".tiff"), (".tif", ".tif")),
    ):
        d = fresh()
        sub = "t/u/p" if per_band else "p"
        kw = dict(opts)
        out = r.save_chunks(
            os.path.join(d, sub), per_band=per_band, ext=ext, **kw
        )
        info = (c, per_band, ext)
        bands = range(nb) if per_band else [None]
        shape = ((nb,) if per_band else ()) + (len(lay[0]), len(lay[1]))
        if out.shape != shape:
            rec.bad("chunks|shape", f"{out.shape} expected {shape}", info)
            continue
        names = []
        wb, wr, wc = (
            len(str(max(0, n - 1))) for n in (nb, len(lay[0]), len(lay[1]))
        )
        for b, i, j in itertools.product(
            bands, range(len(lay[0])), range(len(lay[1]))
        ):
            sl = (
                slice(None) if b is None else slice(b, b + 1),
                slice(ys[i], ys[i + 1]), slice(xs[j], xs[j + 1]),
            )
            name = "p" + ("" if b is None else f"_b{b:0{wb}d}")
            name += f"_{i:0{wr}d}_{j:0{wc}d}{suffix}"
            names.append(name)
            path = os.path.join(d, os.path.dirname(sub), name)
            if not os.path.exists(path):
                rec.bad("chunks|names", f"{name} missing", info)
                continue
            part = M(
                m.data[sl], m.mask[sl], m.nv, m.x[sl[2]], m.y[sl[1]], m.crs
            )
            back = out[(i, j) if b is None else (b, i, j)]
            if part.shape[1] > 1 and part.shape[2] > 1:
                judge(rec, "chunks|content", part, path, back, info)
            else:
                small(rec, part, path, back, info)
        leftovers(
            rec, "chunks", os.path.join(d, os.path.dirname(sub)), names, info
        )
        rec.state(info)


def small(rec, m, path, back, info):
    """Chunks of one row or column: 10x10 cells of the parent grid."""
    import rasterio as rio

    dt, nv, data, mask = file_model(m)
    f = []
    with rio.open(path) as src:
        raw = src.read()
        t = (10, 0, m.x[0] - 5, 0, -10, m.y[0] + 5)
        if not np.allclose(tuple(src.transform)[:6], t, rtol=0, atol=1e-6):
            f.append(f"transform {tuple(src.transform)[:6]} expected {t}")
        if not nv_equal(src.nodata, nv):
            f.append(f"nodata {src.nodata} expected {nv}")
        if not crs_equal(src.crs, m.crs):
            f.append(f"crs {src.crs}")
    if raw.shape != data.shape or not np.array_equal(raw, data):
        f.append(f"{raw.tolist()} expected {data.tolist()}")
    o = observe(back)
    if not np.array_equal(o.mask, mask) or not np.array_equal(
        o.data[~mask], data[~mask]
    ):
        f.append(f"reopened {o}")
    if not (np.allclose(o.x, m.x) and np.allclose(o.y, m.y)):
        f.append(f"grid {o.x} {o.y}")
    rec.trans()
    rec.trace()
    if f:
        rec.bad("chunks|thin", "; ".join(f)[:1200], info)


def run(ctx):
    base = root()
    try:
        explore(ctx)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def explore(ctx):
    ctx.explore(
        "states",
        [
            (dt, s, nb) for dt in ALL_DTYPES for s in STATES
            for nb in (1, 2) if valid_state(dt, s)
        ],
        case_states,
    )
    combos = [("int16", "custom"), ("float32", "nan"), ("bool", "default")]
    if ctx.thorough:
        combos += [
            ("uint8", "default"), ("float64", "default"), ("bool", "none"),
            ("int32", "none"), ("uint16", "custom"), ("int64", "custom"),
            ("int64", "default"),
        ]
    ctx.explore(
        "options",
        [
            (drv, dt, s, p, 8, ctx.thorough) for drv in ("GTiff", "COG")
            for dt, s in combos for p in range(8)
        ],
        case_options,
    )
    ctx.explore(
        "replace",
        [
            (dt, s, drv) for dt in ALL_DTYPES for s in ("none", "custom", "nan")
            for drv in ("GTiff", "COG")
            if valid_state(dt, s) and dt not in ("bool", "float16")
        ],
        case_replace,
    )
    ctx.explore(
        "grids",
        [
            (crs, g, s, drv)
            for crs in ("EPSG:5070", "EPSG:4326", "EPSG:3857", None)
            for g in (
                (10.0, 10.0, 105.0, 995.0), (30.0, 20.0, 1000015., 2000015.),
                (0.1, 0.25, -110.05, 45.5), (1 / 3, 1 / 7, 5.5, 7.25),
                (0.0002777, 0.0003, -110.3, 40.1),
            )
            for s in ((2, 2), (3, 5), (5, 4)) for drv in ("GTiff", "COG")
        ],
        case_grids,
    )
    ctx.explore(
        "unburned",
        [
            (dt, nv, drv) for dt, nv in (
                ("int16", -1), ("uint8", 200), ("float32", -9.0),
                ("float64", np.nan), ("int64", -5), ("uint32", 100),
            ) for drv in ("GTiff", "COG")
        ],
        case_unburned,
    )
    cases = [
        (nb, lay, dt, s, opts)
        for lay in chunkings(3, 4 if ctx.thorough else 3)
        for nb, dt, s, opts in (
            (1, "int16", "custom", ()), (2, "float32", "default", ()),
        )
    ] + [
        (nb, lay, dt, s, opts)
        for lay in (((2, 2), (3, 2)), ((1,) * 11, (2, 2)), ((2,), (1,) * 11))
        for nb, dt, s, opts in (
            (1, "bool", "default", ()), (3, "uint8", "none", ()),
            (2, "int16", "custom", (("driver", "COG"),)),
            (1, "int16", "custom", (("compress", "lzw"), ("tiled", False))),
        )
    ]
    if ctx.thorough:
        cases += [
            (2, lay, dt, s, (("driver", drv),))
            for lay in chunkings(3, 3) for dt, s in (
                ("uint8", "default"), ("int32", "none"), ("bool", "default"),
            ) for drv in ("COG", "GTiff")
        ]
    ctx.explore("chunks", cases, case_chunks)
