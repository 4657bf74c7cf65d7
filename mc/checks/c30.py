"""C30 model prediction is row-wise and null-preserving."""

import numpy as np

from mc.model import (
    ALL_DTYPES,
    M,
    build,
    chunkings,
    compare,
    default_null,
    invariants,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "nulls: every null pattern of a small multi-band raster x model; types: "
    "dtype x null state x number of bands x model; layouts: every chunk "
    "layout x model; vector: every pattern of missing values of a small "
    "table x partitioning x fields x model. The models weigh every band "
    "differently, have one or several outputs and, like those of "
    "scikit-learn, refuse NaNs and empty samples"
)
BOUNDS = "2x2x2 rasters (complete null patterns), 3x4 layouts, tables of 4 rows"
ASSUMPTIONS = [
    "what the model is asked for null cells of a raster is not judged, only "
    "that it does not show and holds no NaN",
    "infinite values and NaNs that are not null are not in the inputs",
]
WEIGHTS = np.array([1.0, 10.0, 100.0, 1000.0])


class Model:
    """(n_outputs, shape of the result, dtype of the result)"""

    def __init__(self, kind):
        self.kind = kind
        self.outputs = {"three": 3, "two": 2, "float2": 2}.get(kind, 1)

    def predict(self, x):
        x = np.asarray(x)
        if x.ndim != 2 or len(x) == 0:
            raise ValueError(f"bad sample {x.shape}")
        x = x.astype(float)
        if not np.isfinite(x).all():
            raise ValueError("sample contains NaN")
        return self.of(x)

    def of(self, x):
        s = x @ WEIGHTS[: x.shape[1]]
        k = self.kind
        if k == "flat":
            return s
        if k == "column":
            return s[:, None]
        if k == "int":
            return s.astype("int32")
        if k == "square":
            return (x[:, 0] + 1) * (x[:, -1] + 2) + 0.5
        if k == "two":
            return np.stack([s, -x[:, 0] - 0.25], axis=1)
        if k == "float2":
            return np.stack([s, x[:, -1]], axis=1).astype("float32")
        return np.stack([s, x[:, -1] * 3 + 1, x[:, 0] * 0 + 7], axis=1)

    transform = predict
    __call__ = predict


KINDS = ("flat", "column", "int", "square", "two", "float2", "three")


def wrap(model, how):
    from raster_tools.general import ModelPredictAdaptor

    if how == "call":
        return ModelPredictAdaptor(lambda q: model.predict(q))
    if how == "method":
        return ModelPredictAdaptor(model, "transform")
    return model


def expect(m, model):
    nb, ny, nx = m.shape
    x = np.where(m.mask, 0, m.data.astype(float)).reshape(nb, -1).T
    p = model.of(x)
    p = p.reshape(ny, nx, -1).astype(float)
    null = np.zeros((ny, nx), bool)
    if m.nv is not None:
        null = m.mask.any(0)
    n = p.shape[-1]
    return M(
        np.moveaxis(p, -1, 0), np.broadcast_to(null, (n, ny, nx)),
        default_null("float64") if m.nv is not None else None, m.x, m.y,
        m.crs,
    )


def judge(rec, key, m, lay, model, how, fn, detail):
    from raster_tools import general

    r = build(m, lay)
    q = wrap(model, how)
    out = (
        r.model_predict(q, model.outputs) if fn == "method"
        else general.model_predict_raster(r, q, model.outputs)
    )
    o = observe(out)
    rec.trans()
    rec.trace()
    rec.outcome(o.canon())
    f = invariants(o) + compare(o, expect(m, model), rtol=1e-12)
    if f:
        rec.bad(key, "; ".join(f)[:1000], detail)


def case_nulls(rec, c):
    bits, kind, dt, shape = c
    nb, ny, nx = shape
    n = nb * ny * nx
    mask = ((bits >> np.arange(n)) & 1).astype(bool).reshape(shape)
    a = (np.arange(n) * 7 % 5 + 1).reshape(shape).astype(dt)
    nv = -1 if dt != "uint8" else 0
    rec.state(c)
    m = M(a, mask, nv)
    judge(rec, f"nulls|{kind}", m, ((1,) * ny, (nx,)), Model(kind), "", "f",
          c)


def case_types(rec, c):
    dt, state, nb, kind, how, fn = c
    rec.state(c)
    a = (np.arange(nb * 12) * 5 % 11).reshape(nb, 3, 4)
    a = (a > 5) if dt == "bool" else a.astype(dt)
    mask = np.arange(nb * 12).reshape(a.shape) * 3 % 7 == 2
    nv = {"none": None, "default": default_null(dt), "zero": 0,
          "nan": np.nan}[state]
    if state == "zero" and dt != "bool":
        a[(a == 0) & ~mask] = 1
    if dt == "bool" and nv is not None:
        nv = bool(nv)
    m = M(a, mask if nv is not None else None, nv)
    judge(rec, f"types|{dt}|{state}|{kind}", m, ((2, 1), (3, 1)),
          Model(kind), how, fn, c)


def case_layouts(rec, c):
    lay, kind, masked = c
    rec.state(c)
    a = (np.arange(36) * 5 % 17).reshape(3, 3, 4).astype("int32")
    mask = a == 4
    m = M(a, mask, 4) if masked else M(a)
    judge(rec, f"layouts|{kind}", m, lay, Model(kind), "", "f", c)


def case_vector(rec, c):
    import dask_geopandas as dgpd
    import geopandas as gpd
    import shapely

    from raster_tools import Vector, general

    rows, bits, fields, parts, kind, prefix, fn = c
    rec.state(c)
    n = rows
    cols = {
        "a": np.arange(n) * 3.0 + 1,
        "b": np.arange(n)[::-1] * 2.0 - 1,
        "i": np.arange(n) * 5 % 7,
        "f": (np.arange(n) * 0.5).astype("float32"),
    }
    for j, name in enumerate(("a", "b")):
        k = ((bits >> np.arange(n * j, n * j + n)) & 1).astype(bool)
        cols[name] = np.where(k, np.nan, cols[name])
    g = gpd.GeoDataFrame(
        cols, geometry=[shapely.Point(q, -q) for q in range(n)],
        crs="EPSG:5070",
    )
    model = Model(kind)
    v = Vector(dgpd.from_geopandas(g, npartitions=parts))
    if fn == "method":
        out = v.model_predict(model, list(fields), model.outputs, prefix)
    else:
        out = general.model_predict_vector(
            v, model, fields, model.outputs, prefix
        )
    decl = list(out.data.columns)
    got = out.data.compute()
    rec.trans()
    rec.trace()
    x = g[list(fields)].to_numpy().astype(float)
    ok = ~np.isnan(x).any(1)
    want = np.full((n, model.outputs), np.nan)
    if ok.any():
        want[ok] = model.of(x[ok]).reshape(ok.sum(), -1)
    names = [f"{prefix}{q + 1}" for q in range(model.outputs)]
    f = []
    if list(got.columns) != list(g.columns) + names:
        f.append(f"columns {list(got.columns)}")
    elif decl != list(got.columns):
        f.append(f"declared columns {decl}")
    else:
        if not np.array_equal(got[names].to_numpy(), want, equal_nan=True):
            f.append(f"{got[names].to_numpy().tolist()} expected "
                     f"{want.tolist()}")
        if not all(got[q].dtype == np.float64 for q in names):
            f.append(f"dtypes {got[names].dtypes.tolist()}")
        if got.index.tolist() != g.index.tolist():
            f.append("index")
        if not isinstance(got, gpd.GeoDataFrame) or got.crs != g.crs:
            f.append("no longer georeferenced")
        elif not (
            got.geometry.geom_equals(g.geometry).all()
            and got[list(g.columns)].drop(columns="geometry").equals(
                g.drop(columns="geometry"))
        ):
            f.append("the features changed")
    if len(v.data.columns) != 5:
        f.append("the source changed")
    rec.outcome(got.to_json())
    if f:
        rec.bad(f"vector|{kind}|{parts}", "; ".join(f)[:1000], c)


def case_refused(rec, c):
    from raster_tools import general

    rec.state(c)
    rec.trans()
    m = M(np.ones((2, 3, 4)))
    try:
        if c == "outputs":
            general.model_predict_raster(
                build(m, ((3,), (4,))), Model("flat"), 0)
        elif c == "method":
            general.ModelPredictAdaptor(Model("flat"), "nope")
        elif c == "wrap":
            general.ModelPredictAdaptor(Model("flat"), 3)
        else:
            import geopandas as gpd
            import shapely

            g = gpd.GeoDataFrame(
                {"a": [1.0], "pred_1": [2.0]}, geometry=[shapely.Point(0, 0)]
            )
            from raster_tools import Vector

            v = Vector(g)
            if c == "field":
                v.model_predict(Model("flat"), ["z"])
            elif c == "taken":
                v.model_predict(Model("flat"), ["a"])
            elif c == "voutputs":
                v.model_predict(Model("flat"), ["a"], 0, "q")
            else:
                v.model_predict(Model("flat"), ["a"], 1, 4)
    except (KeyError, ValueError, TypeError, AttributeError):
        rec.trace()
        return
    rec.bad(f"refused|{c}", "accepted", c)


def run(ctx):
    t = ctx.thorough
    cases = [
        (bits, kind, "int32", (2, 2, 2))
        for bits in range(256)
        for kind in (KINDS if t else ("flat", "three"))
    ]
    cases += [
        (bits, "two", dt, (3, 2, 2))
        for dt in ("uint8", "float32")
        for bits in range(0, 4096, 1 if t else 17)
    ]
    ctx.explore("nulls", cases, case_nulls)

    n = 0
    cases = []
    for dt in ALL_DTYPES:
        k = np.dtype(dt).kind
        for state in ("none", "default", "zero") + (
            ("nan",) if k == "f" else ()
        ):
            for nb in (1, 2, 4):
                for kind in KINDS:
                    for how, fn in (("", "f"), ("call", "method"),
                                    ("method", "f")):
                        n += 1
                        if not t and n % 4:
                            continue
                        cases.append((dt, state, nb, kind, how, fn))
    ctx.explore("types", cases, case_types)

    cases = [
        (lay, kind, masked)
        for lay in chunkings(3, 4)
        for kind in KINDS
        for masked in (False, True)
    ]
    ctx.explore("layouts", cases, case_layouts)

    cases = []
    n = 0
    for rows in (1, 2, 4):
        for bits in range(4**rows):
            for fields in (("a",), ("b", "a"), ("i", "f", "a"), ("i", "f")):
                if fields == ("i", "f") and bits:
                    continue
                for parts in (1, 2, 4):
                    if parts > rows:
                        continue
                    for kind in ("flat", "column", "three", "int"):
                        n += 1
                        if not t and n % (5 if rows == 4 else 2):
                            continue
                        cases.append(
                            (rows, bits, fields, parts, kind,
                             ("pred_", "p")[n % 2], ("f", "method")[n // 2 % 2])
                        )
    ctx.explore("vector", cases, case_vector)
    ctx.explore(
        "refused", ["outputs", "method", "wrap", "field", "taken",
                    "voutputs", "prefix"], case_refused,
    )

