"""C28 rasters created like a template match it."""

import itertools
import warnings

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "template dtype x null state x template bands x requested dtype x bands x "
    "value x copy_mask, and every template form and chunk layout"
)
BOUNDS = "2x3 templates, 1..2 bands, 0..3 requested bands, all dtypes"
VALUES = (0, 1, 2.5, 300, 7, -3, True, np.nan, np.inf, np.uint8(9),
          np.float32(0.5))


def template(dt, nb, masked, nv=None):
    a = np.arange(nb * 6).reshape(nb, 2, 3)
    d = (a % 2 == 0) if dt == "bool" else (a + 1).astype(dt)
    k = (a * 5) % 7 == 2
    k[0, 0, 1] = True
    if nb > 1:
        k[1, 1, 1] = True
    if masked and nv is None:
        nv = default_null(dt)
    return M(d, k if masked else None, nv if masked else None)


def expected_dtype(value, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    return np.full((), value).dtype


def judge(rec, key, g, m, shape_bands, copy, dt_out, want_value, case_dt,
          chunks=None):
    """Checks everything but the values of a created raster."""
    o = observe(g)
    rec.trans()
    rec.trace()
    f = invariants(o)
    shape = (shape_bands,) + m.shape[1:]
    if o.data.shape != shape:
        rec.bad(key + "|shape", f"{o.data.shape} expected {shape}")
        return None
    if m.nv is not None and copy:
        k = m.mask if m.shape[0] == shape_bands else np.stack(
            [m.mask[0]] * shape_bands
        )
        if o.nv is None:
            f.append("no null value with copied mask")
        elif o.data.dtype == m.dtype and case_dt in (None, m.dtype):
            if not nv_equal(o.nv, m.nv):
                f.append(f"null value {o.nv!r} is not the template's {m.nv!r}")
        elif case_dt is not None and not nv_equal(
            o.nv, default_null(o.data.dtype)
        ):
            f.append(f"null value {o.nv!r} is not the default")
    else:
        k = np.zeros(shape, bool)
        if o.nv is not None:
            f.append(f"null value {o.nv!r} without copied mask")
    if dt_out is not None and o.data.dtype != dt_out:
        f.append(f"dtype {o.data.dtype} expected {dt_out}")
    if not np.array_equal(o.mask, k):
        f.append(f"mask {o.mask.astype(int).tolist()} expected "
                 f"{k.astype(int).tolist()}")
    if want_value is not None:
        with np.errstate(all="ignore"):
            w = np.array(want_value).astype(o.data.dtype)
            if dt_out is None and float(w) != float(want_value) and (
                want_value == want_value
            ):
                f.append(f"{o.data.dtype} does not hold {want_value!r}")
        v = o.data[~o.mask]
        if not np.all((v == w) | ((v != v) & bool(w != w))):
            f.append(f"values {np.unique(v)[:4]} expected {w!r}")
    e = M(np.zeros(shape), k, o.nv, m.x, m.y, m.crs)
    e.data = o.data
    f += compare(o, e, nv=False)
    if chunks is not None and o.chunks[1:] != chunks:
        f.append(f"chunks {o.chunks} of template {chunks}")
    if f:
        rec.bad(key, "; ".join(f)[:1500])
    rec.outcome(key, str(o.data.dtype), o.nv is None)
    return o


def case_full(rec, c):
    import raster_tools as rts

    dt, nb, masked, nv, rdt, quick = c
    m = template(dt, nb, masked, nv)
    r = build(m, ((1, 1), (2, 1)))
    for value, bands, copy in itertools.product(
        VALUES, (1, 2, 3), (False, True)
    ):
        if bands == 3 and value != 1:
            continue
        if c[-1] and bands != nb and value not in (0, 1):
            continue
        if quick and rdt is not None and not any(
            value is v for v in (0, 1, 2.5, 300)
        ):
            continue
        if value is True and rdt is None:
            continue
        if rdt is not None and np.dtype(rdt).kind != "f" and not (
            np.isfinite(float(value))
        ):
            continue
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out_dt = expected_dtype(value, rdt)
            try:
                # what numpy refuses is not judged
                want = np.full((), value, rdt)[()]
            except (OverflowError, ValueError):
                continue
            if out_dt.kind in "iu" and float(value) != float(want):
                continue
            fns = [("full_like", lambda: rts.full_like(
                r, value, bands=bands, dtype=rdt, copy_mask=copy))]
            if value == 0 and type(value) is int:
                fns.append(("zeros_like", lambda: rts.zeros_like(
                    r, bands=bands, dtype=rdt, copy_mask=copy)))
            if value == 1 and type(value) is int:
                fns += [
                    ("ones_like", lambda: rts.ones_like(
                        r, bands=bands, dtype=rdt, copy_mask=copy)),
                    ("constant_raster", lambda: rts.constant_raster(
                        r, bands=bands, dtype=rdt, copy_mask=copy)),
                ]
            for name, fn in fns:
                key = (
                    f"{name}|{dt}|{nb}|{'-' if not masked else nv}|{rdt}|"
                    f"{bands}|{int(copy)}"
                )
                # without a dtype, the result may be promoted so that it can
                # hold the template's null value
                judge(
                    rec, key, fn(), m, bands, copy,
                    None if rdt is None and copy and masked else out_dt,
                    want, rdt,
                    ((1, 1), (2, 1)),
                )
        rec.state(c, repr(value), bands, copy)
    for bands, copy in itertools.product((1, 2, 3), (False, True)):
        key = f"empty_like|{dt}|{nb}|{masked}|{rdt}|{bands}|{int(copy)}"
        judge(
            rec, key, rts.empty_like(r, bands=bands, dtype=rdt,
                                     copy_mask=copy),
            m, bands, copy, np.dtype(rdt or float), None, rdt,
            ((1, 1), (2, 1)),
        )
    f = compare(observe(r), m.burned())
    if f:
        rec.bad(f"template|{dt}|{nb}|mutated", "; ".join(f)[:600])
    rec.sample({"template": repr(m), "dtype": rdt})


DISTS = [
    ("normal", (3.0, 0.0), 3.0, "f"), ("n", (2, 0), 2, "f"),
    ("binomial", (5, 1.0), 5, "i"), ("b", (4, 0.0), 0, "i"),
    ("poisson", (0,), 0, "i"), ("p", (0.0,), 0, "i"),
    ("uniform", (), None, "f"), ("U", (), None, "f"),
    ("Weibull", (2.0,), None, "f"), ("w", (1,), None, "f"),
    ("normal", (1, 0.5), None, "f"), ("binomial", (3, 0.5), None, "i"),
    ("poisson", (2,), None, "i"),
]


def case_random(rec, c):
    import raster_tools as rts

    dt, nb, masked, di = c
    dist, params, want, kind = DISTS[di]
    m = template(dt, nb, masked)
    r = build(m, ((2,), (1, 2)))
    for bands, copy in itertools.product((1, 2, 3), (False, True)):
        key = f"random|{dist}|{dt}|{nb}|{masked}|{bands}|{int(copy)}"
        g = rts.random_raster(
            r, dist, bands=bands, params=params, copy_mask=copy
        )
        o = judge(rec, key, g, m, bands, copy,
                  np.dtype("f8" if kind == "f" else "i8"), want, "other",
                  ((2,), (1, 2)))
        if o is None:
            continue
        v = o.data[~o.mask]
        d = dist.lower()[0]
        ok = np.isfinite(v).all()
        if d == "u":
            ok &= ((v >= 0) & (v < 1)).all()
        if d in "wbp":
            ok &= (v >= 0).all()
        if d == "b":
            ok &= (v <= params[0]).all()
        # the same raster computed twice is the same raster
        if not np.array_equal(o.data, observe(g).data):
            rec.bad(key + "|unstable", "computing twice gave other values")
        if not ok:
            rec.bad(key + "|range", f"values {v[:5]}")
        rec.state(c, bands, copy)


FORMS = ("raster", "path", "geobox", "dataarray", "keyword")


def case_form(rec, c):
    import os
    import tempfile

    import raster_tools as rts

    form, ny, nx, ch, copy, nocrs = c
    rng = np.arange(ny * nx).reshape(1, ny, nx)
    m = M(rng.astype("int16"), rng % 3 == 1, -5)
    if nocrs:
        m.crs = None
    r = build(m, ch)
    key = f"form|{form}|{ny}x{nx}|{int(copy)}|{int(nocrs)}"
    with tempfile.TemporaryDirectory() as tmp:
        t = r
        chunks = r.data.chunks[1:]
        if form == "path":
            t = os.path.join(tmp, "t.tif")
            r.save(t)
            chunks = None
        elif form == "geobox":
            t = r.geobox
            chunks = None
        elif form == "dataarray":
            t = r.xdata
        fns = {
            "full_like": lambda **k: rts.full_like(value=4, bands=2,
                                                   dtype="int16", **k),
            "zeros_like": lambda **k: rts.zeros_like(bands=2, dtype="int16",
                                                     **k),
            "ones_like": lambda **k: rts.ones_like(bands=2, dtype="int16",
                                                   **k),
            "constant_raster": lambda **k: rts.constant_raster(
                value=6, bands=2, dtype="int16", **k),
            "empty_like": lambda **k: rts.empty_like(bands=2, dtype="int16",
                                                     **k),
            "random_raster": lambda **k: rts.random_raster(
                distribution="binomial", params=(3, 1.0), bands=2, **k),
        }
        vals = {"full_like": 4, "zeros_like": 0, "ones_like": 1,
                "constant_raster": 6, "empty_like": None, "random_raster": 3}
        for name, fn in fns.items():
            kw = {"template": t}
            if form == "keyword":
                kw = {"raster_template": t}
            if copy:
                kw["copy_mask"] = True
            if form == "geobox" and copy:
                try:
                    fn(**kw)
                except ValueError:
                    pass
                else:
                    rec.bad(key + f"|{name}|accepted",
                            "copy_mask with a GeoBox did not raise")
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g = fn(**kw)
            judge(
                rec, f"{key}|{name}", g, m, 2, copy,
                np.dtype("i8" if name == "random_raster" else "i2"),
                vals[name], "int64" if name == "random_raster" else
                np.dtype("int16"), chunks,
            )
        rec.state(c)


def run(ctx):
    cases = []
    for dt in ALL_DTYPES:
        for nb in (1, 2):
            nvs = [(False, None), (True, None)]
            if dt not in ("bool",):
                nvs.append((True, 77))
            if dt.startswith("float"):
                nvs += [(True, np.nan), (True, 1.5), (True, np.inf)]
            for masked, nv in nvs:
                rdts = [None] + (
                    ALL_DTYPES if ctx.thorough or (nb == 2 and nv is None and masked)
                    else [dt, "float32" if nb == 1 else "uint8"]
                )
                for rdt in rdts:
                    cases.append((dt, nb, masked, nv, rdt, not ctx.thorough))
    ctx.explore("full_like family", cases, case_full)
    dts = ALL_DTYPES if ctx.thorough else ("bool", "uint8", "int32",
                                           "float32")
    ctx.explore(
        "random",
        [
            (dt, nb, mk, di)
            for dt in dts for nb in (1, 2) for mk in (False, True)
            for di in range(len(DISTS))
        ],
        case_random,
    )
    cases = [
        (form, ny, nx, ch, copy, nocrs)
        for form in FORMS
        for ny, nx in (((2, 3), (3, 2), (4, 4)) if ctx.thorough
                       else ((2, 3), (3, 3)))
        for ch in chunkings(ny, nx)
        for copy in (False, True)
        for nocrs in (False, True)
        if not (form in ("path", "geobox") and len(ch[0]) + len(ch[1]) > 2)
    ]
    ctx.explore("template forms", cases, case_form)
