"""Boring reference model: a raster is (data, mask, null value, grid, crs).

Nothing here imports code from raster_tools except the public constructor used
by ``build`` and the public properties read by ``observe``.
"""

import itertools

import dask
import numpy as np

dask.config.set(scheduler="synchronous")

# Default null values, as documented for the package (value written in null
# cells of results whose null value is chosen by the library).
DEFAULT_NULL = {
    "bool": True,
    "uint8": 255,
    "uint16": 65535,
    "uint32": 2**32 - 1,
    "uint64": 2**64 - 2048,
    "int8": -128,
    "int16": -(2**15),
    "int32": -(2**31),
    "int64": -(2**63),
    "float16": -65504.0,
    "float32": -999999.0,
    "float64": -999999.0,
}
ALL_DTYPES = list(DEFAULT_NULL)
CRS = "EPSG:5070"


def default_null(dtype):
    return DEFAULT_NULL[np.dtype(dtype).name]


class M:
    """Model raster."""

    __slots__ = ("data", "mask", "nv", "x", "y", "crs")

    def __init__(self, data, mask=None, nv=None, x=None, y=None, crs=CRS):
        data = np.asarray(data)
        if data.ndim == 2:
            data = data[None]
        self.data = data
        if mask is None:
            mask = np.zeros(data.shape, bool)
        mask = np.asarray(mask, bool)
        if mask.ndim == 2:
            mask = mask[None]
        self.mask = np.array(np.broadcast_to(mask, data.shape))
        self.nv = nv
        ny, nx = data.shape[1:]
        self.x = np.arange(nx, dtype=float) * 10 + 105 if x is None else x
        self.y = -np.arange(ny, dtype=float) * 10 + 995 if y is None else y
        self.crs = crs

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def shape(self):
        return self.data.shape

    def copy(self, **kw):
        m = M(
            self.data.copy(), self.mask.copy(), self.nv, self.x, self.y,
            self.crs,
        )
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def burned(self):
        if self.nv is None:
            return self
        d = self.data.copy()
        d[self.mask] = np.array(self.nv).astype(d.dtype)
        return self.copy(data=d)

    def canon(self):
        d = self.burned()
        return (
            d.data.dtype.str, d.data.shape, d.data.tobytes(),
            d.mask.tobytes(), repr(d.nv), d.x.tobytes(), d.y.tobytes(),
            str(d.crs),
        )

    def __repr__(self):
        return (
            f"M(dtype={self.dtype}, nv={self.nv!r}, data={self.data.tolist()},"
            f" mask={self.mask.astype(int).tolist()})"
        )


def build(m, chunks=None):
    """Real Raster for a model raster (through the public constructor)."""
    import dask.array as da
    from raster_tools import data_to_raster

    if chunks is None:
        chunks = ((1,) * m.shape[0], (m.shape[1],), (m.shape[2],))
    else:
        yc, xc = chunks[-2:]
        chunks = ((1,) * m.shape[0], tuple(yc), tuple(xc))
    data = da.from_array(m.burned().data.copy(), chunks=chunks)
    mask = None
    if m.nv is not None:
        mask = da.from_array(m.mask.copy(), chunks=chunks)
    return data_to_raster(
        data, mask=mask, x=m.x, y=m.y, crs=m.crs, nv=m.nv
    )


class Obs:
    """Everything observable about a real raster, computed."""

    __slots__ = (
        "data", "mask", "nv", "x", "y", "band", "crs", "dtype", "shape",
        "chunks", "mchunks",
    )

    def canon(self):
        d = self.data.copy()
        return (
            d.dtype.str, d.shape, d.tobytes(), self.mask.tobytes(),
            repr(self.nv), self.x.tobytes(), self.y.tobytes(), str(self.crs),
        )

    def __repr__(self):
        return (
            f"Obs(dtype={self.data.dtype}, nv={self.nv!r}, "
            f"data={self.data.tolist()}, "
            f"mask={self.mask.astype(int).tolist()})"
        )


def observe(r):
    o = Obs()
    data, mask = dask.compute(r.data, r.mask)
    o.data, o.mask = np.asarray(data), np.asarray(mask)
    o.nv = r.null_value
    o.x, o.y, o.band = np.asarray(r.x), np.asarray(r.y), np.asarray(r.band)
    o.crs = r.crs
    o.dtype = np.dtype(r.dtype)
    o.shape = tuple(r.shape)
    o.chunks = r.data.chunks
    o.mchunks = r.mask.chunks
    return o


def nv_equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    try:
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
    except TypeError:
        pass
    return bool(a == b)


def invariants(o, burned=True, chunk1=True):
    """Well-formedness every Raster must satisfy; returns a list of faults."""
    f = []
    if o.data.ndim != 3 or o.mask.shape != o.data.shape:
        f.append(f"shape data={o.data.shape} mask={o.mask.shape}")
        return f
    if tuple(o.shape) != o.data.shape:
        f.append(f"declared shape {o.shape} != computed {o.data.shape}")
    if o.dtype != o.data.dtype:
        f.append(f"declared dtype {o.dtype} != computed {o.data.dtype}")
    if o.mask.dtype != bool:
        f.append(f"mask dtype {o.mask.dtype}")
    if o.chunks != o.mchunks:
        f.append(f"data chunks {o.chunks} != mask chunks {o.mchunks}")
    if chunk1 and any(c != 1 for c in o.chunks[0]):
        f.append(f"band chunks {o.chunks[0]}")
    nb, ny, nx = o.data.shape
    if o.band.tolist() != list(range(1, nb + 1)):
        f.append(f"band coord {o.band.tolist()}")
    if len(o.x) != nx or len(o.y) != ny:
        f.append("coordinate length mismatch")
    if nx > 1 and not (np.diff(o.x) > 0).all():
        f.append("x not increasing")
    if ny > 1 and not (np.diff(o.y) < 0).all():
        f.append("y not decreasing")
    if o.nv is None:
        if o.mask.any():
            f.append("no null value but masked cells")
    else:
        nv = o.nv
        try:
            c = np.array(nv).astype(o.data.dtype)
            if not nv_equal(c.item(), np.array(nv).item()) and not (
                o.data.dtype.kind == "f"
                and np.isfinite(float(nv))
                and np.isclose(float(c), float(nv), rtol=1e-3)
            ):
                f.append(f"null {nv!r} not representable in {o.data.dtype}")
            elif burned and o.mask.any():
                d = o.data[o.mask]
                same = (d == c) | ((d != d) & bool(c != c))
                if not same.all():
                    f.append(
                        f"masked cells hold {d[~same][:3].tolist()} "
                        f"not null value {nv!r}"
                    )
        except (OverflowError, ValueError) as e:
            f.append(f"null {nv!r} unusable for {o.data.dtype}: {e}")
    return f


def compare(o, m, rtol=0.0, atol=0.0, dtype=True, nv=True, grid=True):
    """Faults of an observation against the model raster."""
    f = []
    if o.data.shape != m.data.shape:
        return [f"shape {o.data.shape} expected {m.data.shape}"]
    if dtype and o.data.dtype != m.data.dtype:
        f.append(f"dtype {o.data.dtype} expected {m.data.dtype}")
    if nv and not nv_equal(o.nv, m.nv):
        f.append(f"null value {o.nv!r} expected {m.nv!r}")
    if not np.array_equal(o.mask, m.mask):
        f.append(
            f"mask {o.mask.astype(int).tolist()} expected "
            f"{m.mask.astype(int).tolist()}"
        )
    v = ~(o.mask | m.mask)
    e = close(o.data[v], m.data[v], rtol, atol)
    if not e.all():
        bad = np.argwhere(v)[~e][:3].tolist()
        f.append(
            f"values at {bad}: {o.data[v][~e][:3].tolist()} expected "
            f"{m.data[v][~e][:3].tolist()}"
        )
    if grid:
        if not (
            np.allclose(o.x, m.x, rtol=0, atol=1e-6)
            and np.allclose(o.y, m.y, rtol=0, atol=1e-6)
        ):
            f.append(f"grid x={o.x} y={o.y} expected x={m.x} y={m.y}")
        if not crs_equal(o.crs, m.crs):
            f.append(f"crs {o.crs} expected {m.crs}")
    return f


def crs_equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    import rasterio as rio

    return rio.crs.CRS.from_user_input(a) == rio.crs.CRS.from_user_input(b)


def close(a, b, rtol=0.0, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    with np.errstate(all="ignore"):
        if rtol == 0 and atol == 0:
            e = a == b
        else:
            af = a.astype(float)
            bf = b.astype(float)
            e = np.isclose(af, bf, rtol=rtol, atol=atol, equal_nan=True)
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            e = e | (np.isnan(a) & np.isnan(b))
    return np.atleast_1d(e)


def compositions(n, max_parts=None):
    """All ways to cut n cells into consecutive chunks."""
    out = []
    for cuts in itertools.product((0, 1), repeat=n - 1):
        parts = []
        size = 1
        for c in cuts:
            if c:
                parts.append(size)
                size = 1
            else:
                size += 1
        parts.append(size)
        if max_parts is None or len(parts) <= max_parts:
            out.append(tuple(parts))
    out.sort(key=lambda p: (len(p), p))
    return out


def chunkings(ny, nx, max_y=None, max_x=None):
    return [
        (y, x)
        for y in compositions(ny, max_y)
        for x in compositions(nx, max_x)
    ]


def windows_raster(alphabet, k, dtype, pad=0):
    """Array that contains every k x k pattern over `alphabet` (tiled)."""
    pats = list(itertools.product(alphabet, repeat=k * k))
    n = len(pats)
    w = int(np.ceil(np.sqrt(n)))
    h = int(np.ceil(n / w))
    out = np.zeros((h * k, w * k), dtype)
    for i, p in enumerate(pats):
        r, c = divmod(i, w)
        out[r * k : r * k + k, c * k : c * k + k] = np.array(
            p, dtype
        ).reshape(k, k)
    return out


def snapshot(*rasters):
    return [observe(r).canon() for r in rasters]
