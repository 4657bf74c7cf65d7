"""C08 block mapping hands each function exactly its blocks."""

import itertools
import warnings

import dask
import numpy as np

from mc.checks.c09 import faults as info_faults
from mc.checks.c09 import spans
from mc.model import (
    M,
    build,
    chunkings,
    compositions,
    crs_equal,
    default_null,
    invariants,
    nv_equal,
    observe,
)

LEVEL = "model_checking"
RULE = (
    "blocks: every chunk layout of the first raster x layouts of the others x "
    "number of inputs x masked/unmasked; optin: every subset of the opt-in "
    "arguments x function/method form; overlap: every chunk layout x depth "
    "(symmetric, per axis, per side, larger than a chunk) x boundary mode x "
    "inputs; bands: bands in x bands out x layouts x tile budget; nulls: "
    "dtype in x dtype out x hint x null value x returned mask; reject: "
    "arguments that must be refused. The function given to the code records "
    "every block it is handed, and each record is compared with the window "
    "of the whole (padded) array"
)
BOUNDS = "rasters up to 2x4x4 (3 bands for out_bands), up to 3 inputs"
ASSUMPTIONS = [
    "when a chunk is smaller than the depth, the merged layout is the one "
    "dask's own ensure_minimum_chunksize gives",
    "values outside the raster are not judged with boundary None",
    "null values given are of the kind of the output dtype",
]

warnings.simplefilter("ignore")

OPT = ("input_masks", "input_null_values", "block_info", "block_id",
       "out_null_value")
GEO = OPT + ("geo_block_info",)


BUILT = {}
USED = []


def inputs(nb, ny, nx, kinds):
    """Model rasters with distinct values and different masks."""
    out = []
    n = nb * ny * nx
    a = np.arange(n).reshape(nb, ny, nx)
    for k in kinds:
        if k == "a":
            m = M((a + 1).astype("int32"), a % 3 == 1, -7)
        elif k == "b":
            m = M((a + 100.5).astype("float32"), a % 4 == 2, -9999.0)
        elif k == "c":
            m = M((a + 60).astype("uint8"))
        elif k == "d":
            m = M((a + 200.25), a % 5 == 0, np.nan)
        else:
            m = M((a + 1).astype("int32"))
        out.append(m)
    return out


def make_func(names, log, body):
    sig = "".join(f", {n}='?'" for n in names)
    src = (
        f"def f(*blocks, scale='?', __{sig}):\n"
        f"    return __call(blocks, scale, dict("
        + ", ".join(f"{n}={n}" for n in names) + "))\n"
    ).replace("scale='?', __", "scale='?'")
    env = {}

    def call(blocks, scale, opts):
        vals = [np.asarray(b) for b in blocks]
        if log.get("on"):
            log["calls"].append((blocks, scale, opts))
        return body(vals, opts)

    exec(src, {"__call": call}, env)  # noqa: S102
    return env["f"]


def pad_for(arr, depth, boundary, fill):
    """Whole array padded as the boundary asks; NaN/None = not available."""
    w = ((0, 0), depth[0], depth[1])
    if boundary in ("reflect", "periodic", "nearest"):
        mode = {
            "reflect": "symmetric", "periodic": "wrap", "nearest": "edge"
        }[boundary]
        return np.pad(arr, w, mode=mode)
    return np.pad(arr, w, mode="constant", constant_values=fill)


def layout(lay, depth):
    from dask.array.overlap import ensure_minimum_chunksize

    return tuple(
        tuple(int(v) for v in ensure_minimum_chunksize(max(d), c))
        if max(d) else tuple(c)
        for d, c in zip(depth, lay)
    )


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    return bool(
        ((a == b) | ((a != a) & (b != b))).all()
    )


class Case:
    """One call of one of the four functions, and everything it must do."""

    def __init__(self, rec, key, ms, lays, geo, names, depth=None,
                 boundary=None, retmask=False, method=False, dtype="float64",
                 meta=None, null="?", out_bands=None, raw_depth=None,
                 body=None, detail=None, tiles=None):
        self.__dict__.update(locals())

    def bad(self, what, msg):
        self.rec.bad(f"{self.key}|{what}", msg, self.detail)

    # the function itself, on whole arrays or blocks
    def apply(self, first, last, dep):
        (t, b), (l, r) = dep
        f = np.roll(first, (t, l), (1, 2)).astype(float) * 1000
        return f + np.roll(last, (-b, -r), (1, 2))

    def run(self):
        import raster_tools as rts

        rec, ms = self.rec, self.ms
        overlap = self.depth is not None
        dep = self.depth if overlap else ((0, 0), (0, 0))
        log = {"on": False, "calls": []}
        ob = self.out_bands

        def body(vals, opts):
            first, last = vals[0], vals[-1]
            with np.errstate(all="ignore"):
                out = self.apply(first, last, dep)
                k = np.roll(
                    np.nan_to_num(first.astype(float)) % 2 == 0,
                    (dep[0][0], dep[1][0]), (1, 2),
                )
            if ob is not None:
                s = out.sum(0)
                ks = k.any(0) if len(k) else np.zeros(s.shape, bool)
                out = np.stack([s + i for i in range(ob)])
                k = np.stack([ks ^ bool(i % 2) for i in range(ob)])
            out = out.astype(self.dtype)
            return (out, k) if self.retmask else out

        f = make_func(self.names, log, body)
        rs, before = [], []
        for m, lay in zip(ms, self.lays):
            q = (m.canon(), repr(lay))
            if q not in BUILT:
                r = build(m, lay)
                BUILT[q] = (r, observe(r).canon())
            rs.append(BUILT[q][0])
            before.append(BUILT[q][1])
        name = ("geo_" if self.geo else "") + (
            "map_overlap" if overlap else "map_blocks"
        )
        kw = {"scale": 3}
        if self.meta == "meta":
            kw["meta"] = np.empty((0, 0, 0), self.dtype)
        elif self.meta != "infer":
            kw["dtype"] = self.dtype
        if not isinstance(self.null, str):
            kw["null_value"] = self.null
        if self.retmask:
            kw["return_mask"] = True
        if overlap:
            kw["depth"] = self.raw_depth
            if self.boundary != "default":
                kw["boundary"] = self.boundary
        if ob is not None:
            kw["out_bands"] = ob
        if self.method:
            res = getattr(rs[0], name)(f, *rs[1:], **kw)
        else:
            res = getattr(rts, name)(f, *rs, **kw)
        log["on"] = True
        o = observe(res)
        log["on"] = False
        rec.trans(len(log["calls"]))
        rec.trace()
        self.result(o, dep)
        self.records(log["calls"], o, dep)
        if len(USED) > 40 or self.key.startswith("optin"):
            USED.clear()
            if [observe(r).canon() for r in rs] != before:
                self.bad("mutated", "an input raster changed")
        USED.append(1)

    def out_null(self):
        if self.retmask and self.raw_out_null() is None:
            # a returned mask needs a null value; the default one is used
            return default_null(self.dtype)
        return self.raw_out_null()

    def raw_out_null(self):
        m = self.ms[0]
        if not isinstance(self.null, str) and self.null is not None:
            return self.null
        if len(self.ms) == 1 and m.dtype == np.dtype(self.dtype):
            return m.nv
        return default_null(self.dtype)

    def pads(self, dep):
        """Padded data and mask of every input."""
        out = []
        b = self.boundary
        for m in self.ms:
            d = m.burned().data
            if b in (None, "default", "none", "None"):
                data = np.pad(
                    d.astype(float), ((0, 0), *dep), constant_values=np.nan
                )
                mask = np.pad(m.mask, ((0, 0), *dep))
            elif isinstance(b, str) and b.lower() in (
                "null", "nodata", "null_value"
            ):
                nv = default_null(m.dtype) if m.nv is None else m.nv
                data = pad_for(d, dep, None, nv)
                mask = pad_for(m.mask, dep, None, True)
            elif isinstance(b, str):
                data = pad_for(d, dep, b.lower(), None)
                mask = pad_for(m.mask, dep, b.lower(), None)
            else:
                data = pad_for(d, dep, None, b)
                mask = pad_for(
                    m.mask, dep, None, m.nv is not None and nv_equal(b, m.nv)
                )
            out.append((data, mask))
        return out

    def result(self, o, dep):
        m = self.ms[0]
        f = invariants(o, burned=self.retmask)
        ob = self.out_bands
        nb, ny, nx = m.shape
        onb = nb if ob is None else ob
        if o.data.shape != (onb, ny, nx):
            self.bad("shape", f"{o.data.shape} expected {(onb, ny, nx)}")
            return
        if not (np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y)):
            f.append("grid differs from the first raster's")
        if not crs_equal(o.crs, m.crs):
            f.append(f"crs {o.crs}")
        if o.data.dtype != np.dtype(self.dtype):
            f.append(f"dtype {o.data.dtype} expected {self.dtype}")
        nv = self.out_null()
        if not nv_equal(o.nv, nv):
            f.append(f"null value {o.nv} expected {nv}")
        lay = self.lays[0]
        if self.depth is not None:
            lay = layout(lay, dep)
        if layout(self.lays[0], dep) == tuple(self.lays[0]) and (
            o.chunks[1:] != tuple(tuple(c) for c in lay)
        ):
            f.append(f"chunks {o.chunks[1:]} expected {lay}")
        # values
        pads = self.pads(dep)
        first, last = pads[0][0], pads[-1][0]
        with np.errstate(all="ignore"):
            full = self.apply(first, last, dep)
            k = np.roll(
                np.nan_to_num(first.astype(float)) % 2 == 0,
                (dep[0][0], dep[1][0]), (1, 2),
            )
        (t, b), (l, r) = dep
        sl = (
            slice(None), slice(t, t + ny), slice(l, l + nx)
        )
        none = self.boundary in (None, "default", "none", "None")
        known = np.ones(first.shape, bool)
        if none and any(max(d) for d in dep):
            inside = np.zeros(first.shape, bool)
            inside[:, t:t + ny, l:l + nx] = True
            known = np.roll(inside, (t, l), (1, 2)) & np.roll(
                inside, (-b, -r), (1, 2)
            )
        full, k, known = full[sl], k[sl], known[sl]
        if ob is not None:
            s = full.sum(0)
            ks = k.any(0)
            full = np.stack([s + i for i in range(ob)])
            k = np.stack([ks ^ bool(i % 2) for i in range(ob)])
            known = np.ones(full.shape, bool)
        with np.errstate(all="ignore"):
            want = full.astype(self.dtype)
        if self.retmask:
            mask = k
        elif nv is None:
            mask = np.zeros(k.shape, bool)
        else:
            mask = (want != want) if nv != nv else (want == nv)
        if (o.mask != mask)[known].any():
            i = np.argwhere((o.mask != mask) & known)[0]
            f.append(f"mask at {i}: {o.mask[tuple(i)]}")
        live = known & ~mask
        diff = live & ~((o.data == want) | ((want != want) & (o.data != o.data)))
        if diff.any():
            i = tuple(np.argwhere(diff)[0])
            f.append(
                f"{int(diff.sum())} cells differ, e.g. {i}: {o.data[i]} "
                f"expected {want[i]}"
            )
        if f:
            self.bad("result", "; ".join(f)[:1500])
        self.rec.outcome(o.canon())

    def records(self, calls, o, dep):
        ms = self.ms
        m = ms[0]
        nb, ny, nx = m.shape
        ob = self.out_bands
        overlap = self.depth is not None
        pads = self.pads(dep)
        none = self.boundary in (None, "default", "none", "None")
        if overlap:
            lay = layout(self.lays[0], dep)
        else:
            lay = self.lays[0]
        bands = spans((1,) * nb) if ob is None else [(0, nb)]
        if ob is None or self.tiles is None:
            if ob is not None:
                lay = ((ny,), (nx,))
            blocks = {
                (i, j, k): (bs, rs, cs)
                for (i, bs), (j, rs), (k, cs) in itertools.product(
                    enumerate(bands), enumerate(spans(lay[0])),
                    enumerate(spans(lay[1])),
                )
            }
            num = (len(bands), len(lay[0]), len(lay[1]))
            got_n = len(calls)
            if got_n != len(blocks):
                self.bad(
                    "count", f"{got_n} calls for {len(blocks)} blocks {lay}"
                )
        else:
            blocks = num = None
        (t, b), (l, r) = dep
        seen = set()
        cover = np.zeros((ny, nx), int)
        for args, scale, opts in calls:
            if scale != 3:
                self.bad("kwargs", f"scale={scale!r}")
            if len(args) != len(ms):
                self.bad("inputs", f"{len(args)} blocks for {len(ms)} inputs")
                return
            v0 = np.asarray(args[0])
            # where are we? find the window whose first input matches
            loc = None
            if blocks is None:
                # tiles chosen by the library: locate by content
                h, w = v0.shape[1:]
                h0 = opts["block_info"][0]["array-location"]
                h0 = (h0[1][0], h0[2][0])
                cand = [
                    (r0, c0) for r0 in range(ny - h + 1)
                    for c0 in range(nx - w + 1)
                    if same(v0, m.burned().data[:, r0:r0 + h, c0:c0 + w])
                ]
                # ambiguous only for blocks of null cells
                cand = [c for c in cand if c == h0] or cand
                if not cand:
                    self.bad("tile", f"unknown block {v0.tolist()}")
                    continue
                r0, c0 = cand[0]
                rows, cols, bs = (r0, r0 + h), (c0, c0 + w), (0, nb)
                cover[r0:r0 + h, c0:c0 + w] += 1
            else:
                for q, (bs, rows, cols) in blocks.items():
                    if q in seen:
                        continue
                    if self.match(args, opts, pads, bs, rows, cols, dep, none):
                        loc = q
                        break
                if loc is None:
                    self.bad(
                        "block",
                        f"handed a block that no location explains: "
                        f"{[np.asarray(a).tolist() for a in args]} masks "
                        f"{[np.asarray(x).tolist() for x in opts.get('input_masks', ())]}",
                    )
                    continue
                seen.add(loc)
            self.meta_of(args, opts, loc, num, bs, rows, cols, dep, none, o)
        if blocks is None:
            if not (cover == 1).all():
                self.bad("cover", f"{cover.tolist()}")

    def extent(self, rows, cols, dep, none):
        """Window in the raster's rows/columns, clipped when not padded."""
        ny, nx = self.ms[0].shape[1:]
        (t, b), (l, r) = dep
        w = [rows[0] - t, rows[1] + b, cols[0] - l, cols[1] + r]
        if none:
            w = [max(w[0], 0), min(w[1], ny), max(w[2], 0), min(w[3], nx)]
        return w

    def match(self, args, opts, pads, bs, rows, cols, dep, none):
        (t, b), (l, r) = dep
        w = self.extent(rows, cols, dep, none)
        sl = (
            slice(*bs), slice(w[0] + t, w[1] + t), slice(w[2] + l, w[3] + l)
        )
        for i, a in enumerate(args):
            want = pads[i][0][sl]
            if none:
                want = want.astype(self.ms[i].dtype)
            if not same(np.asarray(a), want):
                return False
        if "input_masks" in opts:
            if len(opts["input_masks"]) != len(args):
                return False
            for i, k in enumerate(opts["input_masks"]):
                if not same(np.asarray(k), pads[i][1][sl]):
                    return False
        # ambiguous contents (all null): prefer the location it claims
        if opts.get("block_id") is not None and self.out_bands is None:
            j = opts["block_id"]
            lay = layout(self.lays[0], dep)
            if (
                spans(lay[0])[j[1]] != tuple(rows)
                or spans(lay[1])[j[2]] != tuple(cols) or j[0] != bs[0]
            ):
                return False
        elif opts.get("geo_block_info") is not None:
            s = opts["geo_block_info"].chunk_location
            lay = layout(self.lays[0], dep)
            if self.out_bands is None and (
                spans(lay[0])[s[1]] != tuple(rows)
                or spans(lay[1])[s[2]] != tuple(cols)
            ):
                return False
        return True

    def meta_of(self, args, opts, loc, num, bs, rows, cols, dep, none, o):
        ms = self.ms
        m = ms[0]
        nb = m.shape[0]
        if "input_null_values" in opts:
            nvs = opts["input_null_values"]
            if len(nvs) != len(ms) or not all(
                nv_equal(a, x.nv) for a, x in zip(nvs, ms)
            ):
                self.bad("nullvalues", f"{nvs}")
        if "out_null_value" in opts:
            if not nv_equal(opts["out_null_value"], self.raw_out_null()):
                self.bad(
                    "outnull",
                    f"{opts['out_null_value']} expected {self.out_null()}",
                )
        if "block_id" in opts and loc is not None:
            if tuple(opts["block_id"]) != loc:
                self.bad("blockid", f"{opts['block_id']} expected {loc}")
        if "block_info" in opts and loc is not None:
            bi = opts["block_info"]
            if tuple(bi[None]["chunk-location"]) != loc or any(
                tuple(bi[i]["chunk-location"]) != loc
                for i in range(len(ms))
            ):
                self.bad("blockinfo", f"{bi} expected {loc}")
            if self.depth is None:
                for i, x in enumerate(ms):
                    if (
                        tuple(map(tuple, bi[i]["array-location"]))
                        != (bs, rows, cols)
                        or tuple(bi[i]["shape"]) != x.shape
                        or tuple(bi[i]["num-chunks"]) != num
                    ):
                        self.bad(
                            "blockinfo",
                            f"{bi[i]} expected {(bs, rows, cols)}",
                        )
        if not self.geo:
            if any(not isinstance(a, np.ndarray) for a in args):
                self.bad("type", f"{[type(a) for a in args]}")
            return
        w = self.extent(rows, cols, dep, none)
        rx = 10.0
        wx = m.x[0] + np.arange(w[2], w[3]) * rx
        wy = m.y[0] - np.arange(w[0], w[1]) * rx
        arrs = [(a, x.nv) for a, x in zip(args, ms)]
        arrs += [(k, "?") for k in opts.get("input_masks", ())]
        for a, nv in arrs:
            try:
                ok = (
                    a.dims == ("band", "y", "x")
                    and np.allclose(a.x.values, wx)
                    and np.allclose(a.y.values, wy)
                    and crs_equal(a.rio.crs, m.crs)
                )
                if nv != "?" and not nv_equal(a.rio.nodata, nv):
                    ok = False
            except (AttributeError, ValueError):
                ok = False
            if not ok:
                self.bad(
                    "geo",
                    f"block at rows {w[:2]} cols {w[2:]} nodata {nv} given as "
                    f"{repr(a)[:700]} crs {getattr(a, 'rio', None) and a.rio.crs}",
                )
        g = opts.get("geo_block_info")
        if g is not None:
            want_loc = loc if loc is not None else g.chunk_location
            f = info_faults(
                g, 0, bs, tuple(w[:2]), tuple(w[2:]), want_loc, m.shape,
                m.crs,
            )
            if f:
                self.bad("geoinfo", "; ".join(f))
        elif "geo_block_info" in opts:
            self.bad("geoinfo", f"geo block info {g}")


def case_blocks(rec, c):
    nb, ny, nx, lay, geo = c
    others = [((ny,), (nx,)), ((1,) * ny, (1,) * nx), lay,
              ((1, ny - 1), (nx - 1, 1))]
    names = GEO if geo else OPT
    for kinds, lays in [
        ("a", [lay]), ("e", [lay]),
        *[("ab", [lay, q]) for q in others],
        ("bca", [lay, others[1], others[3]]),
    ]:
        for retmask in (False, True):
            d = (c, kinds, lays, retmask)
            Case(
                rec, f"blocks|{geo}|{len(kinds)}", inputs(nb, ny, nx, kinds),
                lays, geo, names, retmask=retmask, detail=d,
            ).run()
            rec.state(d)


def case_optin(rec, c):
    fn, bits = c
    geo, overlap = fn
    allnames = GEO if geo else OPT
    names = tuple(n for i, n in enumerate(allnames) if bits >> i & 1)
    lay = ((2, 1), (1, 2))
    for kinds in ("a", "ab"):
        for method in (False, True):
            for retmask in (False, True):
                ms = inputs(1, 3, 3, kinds)
                d = (c, kinds, method, retmask)
                Case(
                    rec, f"optin|{fn}", ms, [lay, ((3,), (3,))][:len(ms)],
                    geo, names, method=method, retmask=retmask,
                    depth=((1, 1), (1, 1)) if overlap else None, raw_depth=1,
                    boundary="null", detail=d,
                ).run()
                rec.state(d)


DEPTHS = [
    (0, ((0, 0), (0, 0))),
    (1, ((1, 1), (1, 1))),
    ((0, 2), ((0, 0), (2, 2))),
    ((2, 1), ((2, 2), (1, 1))),
    ({1: 2}, ((2, 2), (0, 0))),
    ({1: 1, 2: 3}, ((1, 1), (3, 3))),
]
ASYM = [
    ({1: (1, 0), 2: (0, 1)}, ((1, 0), (0, 1))),
    ({1: (0, 2), 2: (2, 1)}, ((0, 2), (2, 1))),
    (((1, 2), 1), ((1, 2), (1, 1))),
]
BOUNDS_ = ["default", None, "none", "None", "null", "NoData", "null_value",
           "reflect", "Periodic", "nearest", -7, 5, 0]


MAIN = [None, "null", "reflect", "periodic", "nearest", -7, 5]


def case_overlap(rec, c):
    nb, ny, nx, lay, geo, full = c
    names = GEO if geo else OPT
    for raw, dep in DEPTHS + ASYM:
        asym = any(a != b for a, b in dep)
        if max(dep[0]) > ny or max(dep[1]) > nx:
            continue
        for b in BOUNDS_ if full else MAIN:
            if asym and b not in ("default", None, "none", "None"):
                continue
            kinds = ["a"]
            if full:
                kinds += ["eb", "cab", "d"]
            elif dep == ((2, 2), (1, 1)):
                kinds += ["eb", "d"]
            elif asym:
                kinds += ["d"]
            for k in kinds:
                if "c" in k and b == -7:
                    continue  # does not fit the third raster
                ms = inputs(nb, ny, nx, k)
                lays = [lay, ((1,) * ny, (nx,)), lay][:len(ms)]
                for retmask in (False, True) if full and len(k) == 1 else (
                    (k == "a",)
                ):
                    d = (c, raw, b, k, retmask)
                    Case(
                        rec, f"overlap|{geo}|{len(k)}", ms, lays, geo,
                        names, depth=dep, raw_depth=raw, boundary=b,
                        retmask=retmask, detail=d,
                    ).run()
                    rec.state(d)


def case_bands(rec, c):
    nb, lay, geo, size = c
    ny, nx = sum(lay[0]), sum(lay[1])
    names = GEO if geo else OPT
    for ob in (1, 2, 3, 4):
        for kinds in ("a", "ab"):
            ms = inputs(nb, ny, nx, kinds)
            lays = [lay, ((1,) * ny, (nx,))][:len(ms)]
            for retmask in (False, True):
                d = (c, ob, kinds, retmask)
                with dask.config.set({"array.chunk-size": size}):
                    Case(
                        rec, f"bands|{geo}", ms, lays, geo, names,
                        out_bands=ob, retmask=retmask, detail=d,
                        tiles="any" if size != "128MiB" else None,
                    ).run()
                rec.state(d)


def case_nulls(rec, c):
    din, dout, meta, geo, overlap = c
    n = 12
    a = np.arange(n).reshape(1, 3, 4)
    names = GEO if geo else OPT
    lay = ((2, 1), (3, 1))
    # values of the output (see apply): 1000*a+a overflow free for floats;
    # use an identity function so that every output dtype is exact
    cls = type("Ident", (Case,), {"apply": ident_apply})
    for nv_in in (None, 3, 100):
        m = M(a.astype(din), None if nv_in is None else a == 3, nv_in)
        for null in ("?", None, 7, 100):
            for k in (1, 2) if null == "?" or nv_in == 3 else (2,):
                for retmask in (False, True):
                    d = (c, nv_in, null, k, retmask)
                    cls(
                        rec, f"nulls|{geo}|{overlap}", [m, m][:k],
                        [lay, lay][:k], geo, names, dtype=dout, meta=meta,
                        null=null, retmask=retmask, detail=d,
                        depth=((1, 1), (0, 0)) if overlap else None,
                        raw_depth=(1, 0), boundary="nearest",
                    ).run()
                    rec.state(d)
    if np.dtype(dout).kind == "f":
        m = M(a.astype(din), a == 3, 100)
        for retmask in (False, True):
            cls(
                rec, f"nulls|{geo}|{overlap}", [m], [lay], geo, names,
                dtype=dout, meta=meta, null=np.nan, retmask=retmask,
                detail=(c, "nan"),
            ).run()


def ident_apply(self, first, last, dep):
    return np.where(first == 8, 7, first).astype(float)


def case_reject(rec, c):
    import raster_tools as rts

    what, fn = c
    r = build(M(np.arange(12, dtype="int32").reshape(3, 4)), ((2, 1), (4,)))
    f = getattr(rts, fn)
    overlap = "overlap" in fn
    base = {"depth": 1} if overlap else {}

    def idn(*b, **k):
        return b[0]

    def attempt(*rs, compute=False, func=idn, **kw):
        rec.trans()
        try:
            out = f(func, *rs, **{**base, **kw})
            if compute:
                observe(out)
        except (ValueError, TypeError):
            rec.outcome(what)
            return
        rec.bad(f"{what}|{fn}", f"accepted {sorted(kw)}", c)

    if what == "none":
        attempt()
    elif what == "shape":
        attempt(r, build(M(np.zeros((3, 3), "int32"))))
        attempt(r, build(M(np.zeros((2, 3, 4), "int32"))))
    elif what == "reserved":
        for n in GEO if fn.startswith("geo") else OPT:
            attempt(r, **{n: 1})
    elif what == "dask":
        for n in ("chunks", "name", "token", "drop_axis", "new_axis",
                  "concatenate", "trim", "align_arrays"):
            attempt(r, **{n: None})
    elif what == "null":
        attempt(r, null_value="-1", compute=True)
    elif what == "dtypes":
        attempt(r, dtype="int32", meta=np.empty((0, 0, 0), "float32"))
    elif what == "pair":
        attempt(r, return_mask=True, compute=True)
        attempt(
            r, return_mask=True, compute=True, dtype="int32",
            func=lambda b, **k: (b, np.zeros((1, 1, 1), bool)),
        )
    elif what == "bands":
        if overlap:
            attempt(r, out_bands=2)
        else:
            for ob in (0, -1, 1.5, True, "2"):
                attempt(r, out_bands=ob)
            attempt(r, out_bands=2, compute=True)
            attempt(
                r, out_bands=2, compute=True, return_mask=True, dtype="int32",
                func=lambda b, **k: (b, b.astype(bool)),
            )
    elif what == "grid" and fn.startswith("geo"):
        for m in (
            M(np.zeros((3, 4), "int32"), x=np.arange(4.0) * 10 + 115),
            M(np.zeros((3, 4), "int32"), crs="EPSG:5071"),
            M(np.zeros((3, 4), "int32"), y=990 - np.arange(3.0) * 10),
        ):
            attempt(r, build(m))
    elif what == "depth" and overlap:
        for d in (-1, (1, -1), 1.5, "1", {0: 1}, {3: 1}, (1, 1, 1),
                  {1: (1, -1)}, None):
            attempt(r, depth=d)
        for b in ("reflect", "null", 0):
            attempt(r, depth={1: (1, 0)}, boundary=b)
    elif what == "boundary" and overlap:
        for b in ("bogus", ""):
            attempt(r, boundary=b)
    rec.trace()
    rec.state(c)


def run(ctx):
    cases = [
        (nb, ny, nx, lay, geo)
        for nb, ny, nx in ((1, 3, 4), (2, 3, 3), (1, 4, 4))
        for lay in chunkings(ny, nx)
        for geo in (False, True)
        if ctx.thorough or nx * ny < 16
    ]
    ctx.explore("blocks", cases, case_blocks)
    cases = [
        ((geo, overlap), bits)
        for geo in (False, True) for overlap in (False, True)
        for bits in range(2 ** (6 if geo else 5))
    ]
    ctx.explore("optin", cases, case_optin)
    lays = chunkings(4, 4) if ctx.thorough else [
        (y, x) for y in compositions(3) for x in compositions(3)
    ]
    cases = [
        (nb, sum(l[0]), sum(l[1]), l, geo, True)
        for geo in (False, True)
        for nb, l in (
            (1, ((1, 2), (2, 1))), (2, ((2, 1), (1, 3))),
        )
    ] + [
        (1, sum(l[0]), sum(l[1]), l, geo, ctx.thorough)
        for i, l in enumerate([((1, 1, 2), (1, 1, 1, 2))] + lays)
        for geo in (False, True)
        if ctx.thorough or i % 2 == geo or i == 0
    ]
    ctx.explore("overlap", cases, case_overlap)
    cases = [
        (nb, lay, geo, size)
        for nb in (1, 2, 3)
        for lay in (chunkings(3, 3) if ctx.thorough else [
            ((3,), (3,)), ((1, 2), (2, 1)), ((1, 1, 1), (3,)),
            ((1, 1, 1), (1, 1, 1)),
        ])
        for geo in (False, True)
        for size in ("128MiB", "16B", "48B")
    ]
    ctx.explore("bands", cases, case_bands)
    dts = ["int16", "int32", "uint8", "float32", "float64"]
    if ctx.thorough:
        dts += ["int8", "uint16", "uint32", "int64", "uint64", "float16"]
    cases = [
        (din, dout, meta, geo, overlap)
        for din in dts for dout in dts for meta in ("dtype", "meta", "infer")
        for geo in (False, True) for overlap in (False, True)
        if ctx.thorough or (
            (din == "int16" or din == dout)
            and (geo + overlap + len(meta)) % 2 == dts.index(dout) % 2
        )
    ]
    ctx.explore("nulls", cases, case_nulls)
    cases = [
        (w, fn)
        for w in ("none", "shape", "reserved", "dask", "null", "dtypes",
                  "pair", "bands", "grid", "depth", "boundary")
        for fn in ("map_blocks", "map_overlap", "geo_map_blocks",
                   "geo_map_overlap")
    ]
    ctx.explore("reject", cases, case_reject)
