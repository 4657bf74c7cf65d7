"""C29 rasters built from any source are normalised faithfully."""

import itertools
import os
import tempfile
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    close,
    compare,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "xarray: dimension order x dimension names x coordinate directions x "
    "dtype x null value encoding x eager/chunked, through Raster and "
    "dataarray_to_raster; datasets: raster/mask pairs in every orientation, "
    "order and chunking; arrays: NumPy and dask arrays of 2 and 3 dimensions "
    "x dtype x NaNs; builders: data_to_raster and data_to_raster_like x "
    "coordinates or affine matrix x mask x null value x burn; files: GeoTIFFs "
    "of every orientation x dtype x null value, by every kind of path. Each "
    "result must hold the cells of the source at their coordinates"
)
BOUNDS = "2x3x4 rasters"
ASSUMPTIONS = [
    "a floating point source without a null value may be given one, with "
    "its NaNs as null cells",
    "a NaN null value may be replaced by the default one of the dtype",
]
X = 105.0 + 10 * np.arange(4)
Y = 995.0 - 10 * np.arange(3)


def cells(dt, nb=2, ny=3, nx=4, nan=False):
    a = np.arange(nb * ny * nx).reshape(nb, ny, nx)
    if np.dtype(dt) == bool:
        a = a % 3 == 0
    a = a.astype(dt)
    if nan:
        a[..., 1, 2] = np.nan
        a[0, 2, 0] = np.nan
    return a


def expected(a, nv, ny=None):
    """(mask, null value or () for free)"""
    if nv is None:
        return np.zeros(a.shape, bool)
    with np.errstate(all="ignore"):
        return np.isnan(a) if nv != nv else a == nv


def judge(rec, key, r, m, detail, free=False, burned=True, chunk1=True):
    """m.nv None with free: a float raster may have been given a null value
    that turns its NaNs into null cells"""
    o = observe(r)
    rec.trans()
    rec.trace()
    rec.outcome(o.canon())
    f = invariants(o, burned=burned, chunk1=chunk1)
    if o.data.shape == m.shape:
        if free and o.nv is not None:
            m = m.copy(mask=np.isnan(m.data), nv=o.nv)
        elif m.nv is not None and m.nv != m.nv and not nv_equal(m.nv, o.nv):
            m = m.copy(nv=default_null(m.dtype))
    f += compare(o, m)
    if f:
        rec.bad(key, "; ".join(f)[:1200], detail)


NAMES = {
    "plain": ("band", "y", "x"),
    "geo": ("time", "lat", "lon"),
    "long": ("band", "latitude", "longitude"),
    "waves": ("wavelength", "y", "x"),
    "other": ("band", "northing", "easting"),
    "rows": ("bands", "row", "col"),
}


def case_xarray(rec, c):
    import xarray as xr
    import rioxarray  # noqa: F401
    from raster_tools import Raster, dataarray_to_raster

    names, order, flipx, flipy, dt, null, lazy, via, ctype = c
    rec.state(c)
    two = len(order) == 2
    k = np.dtype(dt).kind
    a = cells(
        dt, 1 if two else 2, nan=null in ("nan", "nancells", "encoded")
    )
    how, nv = null, None
    if null.startswith("value"):  # the value itself marks the null cells
        nv = True if k == "b" else 5
    elif null in ("nan", "encoded"):  # encoded: a value once it is stored
        nv = np.nan
    x, y = X.astype(ctype), Y.astype(ctype)
    m = M(a, expected(a, nv), nv, X, Y)
    src = a
    if flipx:
        src, x = src[..., ::-1], x[::-1]
    if flipy:
        src, y = src[:, ::-1], y[::-1]
    dims = NAMES[names]
    coords = {dims[1]: y, dims[2]: x}
    if two:
        d = xr.DataArray(src[0].copy(), dims=dims[1:], coords=coords)
    else:
        coords[dims[0]] = [7, 3]
        d = xr.DataArray(src.copy(), dims=dims, coords=coords)
    d = d.transpose(*[dims[i] for i in order])
    d = d.rio.write_crs(m.crs)
    if null == "value":
        d = d.rio.write_nodata(nv if k != "b" else np.bool_(nv))
    elif null == "encoded":
        d = d.rio.write_nodata(5, encoded=True)
    elif null == "valueattr":
        d.attrs["_FillValue"] = np.array(nv, dt)[()]
    elif null == "nan":
        d = d.rio.write_nodata(np.nan)
    if lazy:
        d = d.chunk({q: 2 for q in d.dims})
    before = d.copy(deep=True)
    f = Raster if via == "Raster" else dataarray_to_raster
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = f(d)
    # the plain conversion keeps the null value as it is
    free = k == "f" and nv is None and via == "Raster"
    judge(rec, f"{via}|{names}|{order}|{null}|{k}", r, m, c, free=free)
    if not (before.identical(d) and before.dims == d.dims):
        rec.bad(f"{via}|source", "the source object was changed", c)


def case_datasets(rec, c):
    import xarray as xr
    import rioxarray  # noqa: F401
    from raster_tools import Raster

    dt, order, flipx, flipy, lazy, null, band = c
    rec.state(c)
    k = np.dtype(dt).kind
    a = cells(dt)
    mask = (np.arange(a.size).reshape(a.shape) % 5) == 1
    nv = None if null == "none" else (1 if k != "b" else True)
    m = M(a, mask, nv if nv is not None else default_null(dt), X, Y)
    if null == "burned":
        a = m.burned().data
    x, y = X, Y
    sd, sm = a, mask
    if flipx:
        sd, sm, x = sd[..., ::-1], sm[..., ::-1], x[::-1]
    if flipy:
        sd, sm, y = sd[:, ::-1], sm[:, ::-1], y[::-1]
    dims = ("band", "y", "x")
    coords = {"band": list(band), "y": y, "x": x}
    d = xr.DataArray(sd.copy(), dims=dims, coords=coords)
    k = xr.DataArray(sm.copy(), dims=dims, coords=coords)
    if nv is not None:
        d = d.rio.write_nodata(nv)
    d = d.transpose(*[dims[i] for i in order[0]])
    k = k.transpose(*[dims[i] for i in order[1]])
    d, k = d.rio.write_crs(m.crs), k.rio.write_crs(m.crs)
    if lazy == "whole":
        d, k = d.chunk(), k.chunk()
    elif lazy == "split":
        n = {"band": 1, "y": 2, "x": 3}
        d, k = d.chunk(n), k.chunk(n)
    elif lazy == "mixed":
        d, k = d.chunk({"band": 1, "y": 2, "x": 3}), k.chunk()
    ds = xr.Dataset({"raster": d, "mask": k})
    r = Raster(ds)
    judge(
        rec, f"{'lazy' if lazy else 'eager'}|{null}", r, m, c,
        burned=null == "burned" or lazy in ("", "mixed") or order[0] != (
            0, 1, 2) or order[1] != (0, 1, 2),
    )


def case_masked(rec, c):
    """dataarray_to_raster with a mask of its own"""
    import xarray as xr
    import rioxarray  # noqa: F401
    from raster_tools import dataarray_to_raster

    dt, dchunk, mchunk, flipy, order, crs = c
    rec.state(c)
    a = cells(dt)
    mask = (np.arange(a.size).reshape(a.shape) % 5) == 1
    m = M(a, mask, 3, X, Y)
    y, sm, sd = Y, mask, m.burned().data
    if flipy:
        y, sm, sd = y[::-1], sm[:, ::-1], sd[:, ::-1]
    dims = ("band", "y", "x")
    d = xr.DataArray(sd.copy(), dims=dims,
                     coords={"band": [1, 2], "y": y, "x": X})
    k = xr.DataArray(sm.copy(), dims=dims,
                     coords={"band": [1, 2], "y": y, "x": X})
    d = d.rio.write_nodata(3)
    if crs == "own":
        d = d.rio.write_crs(m.crs)
    d = d.transpose(*[dims[i] for i in order])
    if dchunk:
        d = d.chunk({"band": 1, "y": dchunk, "x": dchunk})
    if mchunk:
        k = k.chunk({"band": 1, "y": mchunk, "x": mchunk})
    r = dataarray_to_raster(d, k, **({} if crs == "own" else {"crs": m.crs}))
    judge(rec, "masked", r, m, c)


def case_arrays(rec, c):
    import dask.array as da
    from raster_tools import Raster

    dt, nd, kind, nan, corder = c
    rec.state(c)
    a = cells(dt, 1 if nd == 2 else 2, nan=nan)
    ny, nx = a.shape[1:]
    nv = np.nan if nan else None
    m = M(a, expected(a, nv), nv, np.arange(nx) + 0.5,
          np.arange(ny)[::-1] + 0.5, None)
    src = a[0] if nd == 2 else a
    src = np.array(src, order="C" if corder == "V" else corder)
    if corder == "V":
        big = np.zeros(tuple(2 * q for q in src.shape), dt)
        v = big[tuple(slice(None, None, 2) for _ in src.shape)]
        v[...] = src
        src = v
    keep = src.copy()
    if kind == "dask":
        src = da.from_array(src, chunks=2)
    r = Raster(src)
    free = np.dtype(dt).kind == "f" and nv is None
    judge(rec, f"{kind}|{nd}", r, m, c, free=free)
    if kind == "numpy":
        src[...] = 0
        if not np.array_equal(
            np.asarray(r.data.compute()).reshape(keep.shape)[~np.isnan(
                keep.astype(float))],
            keep[~np.isnan(keep.astype(float))],
        ):
            rec.bad("numpy|owned", "the raster changed with the source", c)


def case_builders(rec, c):
    import affine
    import dask.array as da
    from raster_tools import data_to_raster, data_to_raster_like

    dt, place, nv, masked, burn, kind, nd = c
    rec.state(c)
    nb = 1 if nd == 2 else 2
    a = cells(dt, nb)
    mask = (np.arange(a.size).reshape(a.shape) % 4) == 1
    kw = {"nv": nv, "burn": burn}
    x, y = X, Y
    src, sm = a, mask
    if place == "default":
        x, y = np.arange(4) + 0.5, np.arange(3)[::-1] + 0.5
    elif place == "affine":
        kw["affine"] = affine.Affine(10, 0, 100, 0, -10, 1000)
    elif place == "affup":
        kw["affine"] = affine.Affine(10, 0, 100, 0, 10, 970)
        src, sm = a[:, ::-1], mask[:, ::-1]
    elif place in ("xy", "xy2"):
        kw["x"], kw["y"] = X.copy(), Y.copy()
        if place == "xy2":
            kw["x"], kw["y"] = kw["x"][None], kw["y"][:, None]
    elif place == "flip":
        kw["x"], kw["y"] = X[::-1].copy(), Y[::-1].copy()
        src, sm = a[:, ::-1, ::-1], mask[:, ::-1, ::-1]
    if masked:
        m = M(a, mask, default_null(dt) if nv is None else nv, x, y)
    else:
        m = M(a, expected(a, nv), nv, x, y)
    f = data_to_raster
    if place == "like":
        like = data_to_raster(
            da.from_array(np.zeros((1, 3, 4)), chunks=(1, (2, 1), (3, 1))),
            x=X, y=Y, crs=m.crs,
        )
        f = data_to_raster_like
        kw["like"] = like
    else:
        kw["crs"] = m.crs
    if nd == 2:
        src, sm = src[0], sm[0]
    src, sm = src.copy(), sm.copy()
    n = (1, 2, 3)[-nd:]
    if kind == "mixed":
        src = da.from_array(src, chunks=n)
    if kind == "dask":
        src, sm = da.from_array(src, chunks=n), da.from_array(sm, chunks=n)
    r = f(src, **({"mask": sm} if masked else {}), **kw)
    judge(rec, f"{place}|{kind}|{masked}|{burn}", r, m, c,
          burned=burn and masked or not masked)
    if masked and burn and not close(
        observe(r).data, m.burned().data
    ).all():
        rec.bad(f"{place}|burn", "the null value was not burned in", c)
    if place == "like" and r.data.chunks[1:] != ((2, 1), (3, 1)):
        rec.bad("like|chunks", f"chunks {r.data.chunks}", c)


def case_files(rec, c):
    import pathlib

    import affine
    import rasterio as rio
    from raster_tools import Raster

    dt, flipx, flipy, null, kind = c
    rec.state(c)
    k = np.dtype(dt).kind
    a = cells(dt, nan=null == "nan")
    nv = {"none": None, "five": 5, "nan": np.nan,
          "default": default_null(dt)}[null]
    if null == "default":
        a[0, 1, 1] = nv
    m = M(a, expected(a, nv), nv, X, Y)
    t = affine.Affine(
        -10 if flipx else 10, 0, 140 if flipx else 100, 0,
        10 if flipy else -10, 970 if flipy else 1000,
    )
    src = a
    if flipx:
        src = src[..., ::-1]
    if flipy:
        src = src[:, ::-1]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a b.tif" if kind == "space" else "a.tif")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with rio.open(
                p, "w", driver="GTiff", height=3, width=4, count=2, dtype=dt,
                crs=m.crs, transform=t, nodata=nv,
            ) as f:
                f.write(src)
        q = pathlib.Path(p) if kind == "path" else p
        r = Raster(q)
        free = k == "f" and nv is None
        judge(rec, f"{null}|{kind}|{k}", r, m, c, free=free)


def run(ctx):
    t = ctx.thorough
    cases = []
    flips = list(itertools.product((False, True), repeat=2))
    perms = list(itertools.permutations(range(3)))
    few = ("uint8", "int32", "float32", "bool")
    n = 0
    for names in NAMES:
        for order in perms + [(1, 2), (2, 1)]:
            if names in ("other", "rows") and order not in (
                (0, 1, 2), (1, 2)
            ):
                continue  # unknown names: the order is taken as it is
            for fx, fy in flips:
                for dt in ALL_DTYPES if t else few:
                    k = np.dtype(dt).kind
                    for null in ("none", "value", "valueattr") + (
                        ("nan", "nancells", "encoded") if k == "f" else ()
                    ):
                        for lazy in (False, True):
                            for via in ("Raster", "dataarray_to_raster"):
                                ctype = "float64"
                                if k == "i" and names != "other":
                                    ctype = "int64"
                                if via != "Raster" and null != "value":
                                    continue
                                n += 1
                                if not t and n % 3:
                                    continue
                                cases.append(
                                    (names, order, fx, fy, dt, null, lazy,
                                     via, ctype)
                                )
    ctx.explore("xarray", cases, case_xarray)

    cases = []
    n = 0
    for dt in few:
        for order in itertools.product(
            ((0, 1, 2), (1, 2, 0), (2, 1, 0)), repeat=2
        ):
            for fx, fy in flips:
                for lazy in ("", "whole", "split", "mixed"):
                    for null in ("none", "kept", "burned"):
                        for band in ((1, 2), (4, 9)):
                            n += 1
                            if not t and n % 4:
                                continue
                            cases.append((dt, order, fx, fy, lazy, null,
                                          band))
    ctx.explore("datasets", cases, case_datasets)

    cases = [
        (dt, dc, mc, fy, order, crs)
        for dt in few[:3]
        for dc in (0, 2, 3)
        for mc in (0, 2, 3)
        for fy in (False, True)
        for order in ((0, 1, 2), (1, 2, 0))
        for crs in ("own", "given")
    ]
    ctx.explore("masked", cases, case_masked)

    cases = [
        (dt, nd, kind, nan, corder)
        for dt in ALL_DTYPES
        for nd in (2, 3)
        for kind in ("numpy", "dask")
        for nan in ((False, True) if np.dtype(dt).kind == "f" else (False,))
        for corder in ("C", "F", "V")
        if not (corder == "V" and kind == "dask")
    ]
    ctx.explore("arrays", cases, case_arrays)

    cases = [
        (dt, place, nv, masked, burn, kind, nd)
        for dt in ("uint8", "int16", "float32", "float64")
        for place in ("default", "affine", "affup", "xy", "xy2", "flip",
                      "like")
        for nv in (None, 5, np.nan)
        if not (nv is not None and nv != nv and np.dtype(dt).kind != "f")
        for masked in (False, True)
        for burn in (False, True)
        for kind in ("numpy", "dask", "mixed")
        if masked or kind != "mixed"
        for nd in (2, 3)
    ]
    ctx.explore("builders", cases, case_builders)

    cases = [
        (dt, fx, fy, null, kind)
        for dt in ("uint8", "int16", "uint16", "int32", "uint32", "float32",
                   "float64")
        for fx, fy in flips
        for null in ("none", "five", "default", "nan")
        if not (null == "nan" and np.dtype(dt).kind != "f")
        for kind in ("str", "path", "space")
        if t or kind != "space" or dt == "uint8"
    ]
    ctx.explore("files", cases, case_files)
