"""C07 a failing save never leaves stray or misleading output."""

import itertools
import os
import shutil
import tempfile
import warnings
from contextlib import contextmanager

import numpy as np

from mc.checks import c06
from mc.model import M, build, observe

LEVEL = "fault_enumeration"
RULE = (
    "for each driver x raster x chunk layout x kind of source x state of the "
    "target, save (or save_chunks) runs once without faults, recording every "
    "task and every file operation it performs (opening, writing, tagging, "
    "building overviews, copying, creating directories and temporary "
    "files); it then runs again once for every recorded point, failing "
    "exactly there, before the operation or after it took effect, with "
    "each kind of exception"
)
BOUNDS = "one fault per run; rasters of 1-2 bands, 4x5 cells, up to 6 chunks"
ASSUMPTIONS = [
    "GDAL reports failures as exceptions; what it hides while closing a file "
    "is out of reach",
    "removing the temporary file itself does not fail",
]

warnings.simplefilter("ignore")


class Injected(RuntimeError):
    pass


class InjectedOS(OSError):
    pass


class InjectedStop(KeyboardInterrupt):
    pass


KINDS = {"error": Injected, "os": InjectedOS, "stop": InjectedStop}


class Faults:
    """Counts the points passed; fails at point k."""

    def __init__(self, at=None, when="before", kind="error"):
        self.log = []
        self.at = at
        self.when = when
        self.kind = KINDS[kind]
        self.fired = False
        self.active = True

    def _hit(self, name, when):
        if not self.active:
            return
        if when == "before":
            self.log.append(name)
        if not self.fired and len(self.log) - 1 == self.at and (
            when == self.when
        ):
            self.fired = True
            raise self.kind(f"injected at {name}")

    @contextmanager
    def point(self, name):
        self._hit(name, "before")
        idx = len(self.log) - 1
        yield
        # nested points have moved the counter on
        if self.active and not self.fired and self.when == "after" and (
            idx == self.at
        ):
            self.fired = True
            raise self.kind(f"injected after {name}")


class Proxy:
    """A rasterio dataset opened for writing, with fault points."""

    def __init__(self, ds, faults, mode):
        object.__setattr__(self, "_p", (ds, faults, mode))

    def __getattr__(self, name):
        ds, faults, mode = object.__getattribute__(self, "_p")
        val = getattr(ds, name)
        if name in ("write", "update_tags", "build_overviews", "write_mask",
                    "write_colormap") and callable(val):
            def call(*a, **k):
                with faults.point(f"{mode}.{name}"):
                    return val(*a, **k)
            return call
        return val

    def __setattr__(self, name, value):
        setattr(object.__getattribute__(self, "_p")[0], name, value)

    def __enter__(self):
        object.__getattribute__(self, "_p")[0].__enter__()
        return self

    def __exit__(self, *a):
        ds, faults, mode = object.__getattribute__(self, "_p")
        return ds.__exit__(*a)


@contextmanager
def injected(faults, tmp):
    import dask
    import rasterio
    import rasterio.shutil
    from dask.callbacks import Callback

    saved = {
        "open": rasterio.open, "copy": rasterio.shutil.copy,
        "named": tempfile.NamedTemporaryFile, "mkstemp": tempfile.mkstemp,
        "mkdtemp": tempfile.mkdtemp, "makedirs": os.makedirs,
        "tempdir": tempfile.tempdir, "replace": os.replace,
        "rename": os.rename, "move": shutil.move, "copyf": shutil.copy,
    }

    def opened(fp, mode="r", *a, **k):
        with faults.point(f"open({mode})"):
            ds = saved["open"](fp, mode, *a, **k)
        return ds if mode == "r" else Proxy(ds, faults, mode)

    def wrapped(key, name):
        def call(*a, **k):
            with faults.point(name):
                return saved[key](*a, **k)
        return call

    def pretask(key, dsk, state):
        faults._hit("task", "before")

    rasterio.open = opened
    rasterio.shutil.copy = wrapped("copy", "copy")
    tempfile.NamedTemporaryFile = wrapped("named", "tempfile")
    tempfile.mkstemp = wrapped("mkstemp", "tempfile")
    tempfile.mkdtemp = wrapped("mkdtemp", "tempfile")
    os.makedirs = wrapped("makedirs", "makedirs")
    os.replace = wrapped("replace", "rename")
    os.rename = wrapped("rename", "rename")
    shutil.move = wrapped("move", "rename")
    shutil.copy = wrapped("copyf", "copy")
    tempfile.tempdir = tmp
    try:
        with Callback(pretask=pretask), dask.config.set(
            scheduler="synchronous"
        ):
            yield
    finally:
        rasterio.open = saved["open"]
        rasterio.shutil.copy = saved["copy"]
        tempfile.NamedTemporaryFile = saved["named"]
        tempfile.mkstemp = saved["mkstemp"]
        tempfile.mkdtemp = saved["mkdtemp"]
        os.makedirs = saved["makedirs"]
        os.replace = saved["replace"]
        os.rename = saved["rename"]
        shutil.move = saved["move"]
        shutil.copy = saved["copyf"]
        tempfile.tempdir = saved["tempdir"]


def listing(d):
    out = {}
    for base, _, files in os.walk(d):
        for n in files:
            p = os.path.join(base, n)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, d)] = fp.read()
    return out


RASTERS = {
    "int16": ("int16", "custom", 1, ((2, 2), (3, 2))),
    "float2": ("float32", "nan", 2, ((4,), (2, 2, 1))),
    "bool": ("bool", "default", 1, ((3, 1), (5,))),
    "plain": ("uint8", "none", 2, ((1, 1, 2), (5,))),
    "one": ("int32", "default", 1, ((4,), (5,))),
    "lost": ("uint64", "default", 1, ((2, 2), (5,))),
}
DRV = {
    "gtiff": ("out.tif", {}),
    "cog": ("out.tif", {"driver": "COG"}),
    "cog plain": ("out.cog", {"driver": "COG", "compress": "lzw"}),
    "overviews": ("out.tif", {"overviews": [2], "compress": "deflate"}),
    "cog overviews": ("out.tif", {"driver": "COG", "overviews": True}),
    "img": ("out.img", {}),
}


def prepare(d, raster, source, target, name):
    """The raster to be saved and what stands in the directory."""
    import raster_tools as rts

    dt, state, nb, lay = RASTERS[raster]
    m = c06.make(dt, state, nb, 4, 5)
    r = build(m, lay)
    if source == "file":
        src = os.path.join(d, "source.tif")
        r.save(src)
        r = rts.Raster(src).chunk((nb, *lay))
        o = observe(r)
        m = M(o.data, o.mask if o.nv is not None else None, o.nv)
    elif source == "lazy":
        r = r.load().set_null_value(r.null_value) if r._masked else r.load()
    with open(os.path.join(d, "bystander.txt"), "w") as fp:
        fp.write("untouched")
    if target == "exists":
        old = M(np.full((1, 3, 3), 42, "int16"))
        kw = {} if name.endswith(("tif", "img")) else {"driver": "COG"}
        build(old).save(os.path.join(d, name), **kw)
        for n in os.listdir(d):
            if n.endswith(".aux.xml"):
                os.unlink(os.path.join(d, n))
    return r, m


class Run:
    def __init__(self, rec, c):
        self.rec, self.c = rec, c

    def once(self, faults):
        """One save with the fault; returns what happened."""
        import raster_tools  # noqa: F401

        drv, raster, source, target, mode = self.c
        name, kw = DRV[drv]
        d = c06.fresh()
        tmp = os.path.join(d, "systmp")
        os.makedirs(tmp)
        work = os.path.join(d, "work")
        os.makedirs(work)
        r, m = prepare(work, raster, source, target, name)
        before = observe(r).canon()
        files = listing(work)
        path = os.path.join(work, name)
        if mode != "save":
            path = os.path.join(work, "sub", "tile")
        # reading the raster before saving must not change what is recorded
        err = back = None
        with injected(faults, tmp):
            try:
                back = self.call(r, path, mode, kw)
            except BaseException as e:  # noqa: BLE001
                err = e
        faults.active = False
        return d, work, tmp, r, m, before, files, path, back, err

    def call(self, r, path, mode, kw):
        if mode == "save":
            return r.save(path, **kw)
        return r.save_chunks(path, per_band=mode == "per_band", **kw)

    def contents(self, key, r, m, path, back, info):
        """A save that returns has written everything."""
        mode = self.c[4]
        if mode == "save":
            c06.judge(self.rec, key, m, path, back, info)
            return [os.path.basename(path)]
        names = []
        lay = r.data.chunks
        ys, xs = (np.cumsum((0, *q)) for q in lay[1:])
        parent = os.path.dirname(path)
        ext = ".tif"
        for idx in np.ndindex(back.shape):
            b, i, j = idx if mode == "per_band" else (None, *idx)
            n = "tile" + ("" if b is None else f"_b{b}") + f"_{i}_{j}" + ext
            sl = (
                slice(None) if b is None else slice(b, b + 1),
                slice(ys[i], ys[i + 1]), slice(xs[j], xs[j + 1]),
            )
            part = M(
                m.data[sl], m.mask[sl] if m.nv is not None else None, m.nv,
                m.x[sl[2]], m.y[sl[1]], m.crs,
            )
            names.append(os.path.join("sub", n))
            p = os.path.join(parent, n)
            if not os.path.exists(p):
                self.rec.bad(f"{key}|missing", n, info)
                continue
            if min(part.shape[1:]) > 1:
                c06.judge(self.rec, key, part, p, back[idx], info)
            else:
                o = observe(back[idx])
                _, _, data, mask = c06.file_model(part)
                if not np.array_equal(o.mask, mask) or not np.array_equal(
                    o.data[~mask], data[~mask]
                ):
                    self.rec.bad(key, f"tile {n}: {o}", info)
        return names

    def baseline(self):
        key = f"save|{self.c[0]}|{self.c[4]}"
        f = Faults()
        d, work, tmp, r, m, before, files, path, back, err = self.once(f)
        if err is not None:
            self.rec.bad(f"{key}|raises", repr(err), self.c)
            return None
        names = self.contents(key, r, m, path, back, self.c)
        self.tidy(key, work, tmp, files, names, names, self.c)
        self.rec.state(self.c, "none")
        return f.log

    def tidy(self, key, work, tmp, files, allowed, changed, info):
        """No stray files; everything else as it was."""
        now = listing(work)
        if listing(tmp) or os.listdir(tmp):
            self.rec.bad(
                f"{key}|temp", f"left in the temp directory: "
                f"{sorted(os.listdir(tmp))}", info,
            )
        extra = [
            n for n in now if n not in files and n not in allowed
            and not (n.endswith(".aux.xml") and n[:-8] in allowed)
        ]
        if extra:
            self.rec.bad(f"{key}|stray", f"stray files {sorted(extra)}", info)
        for n, content in files.items():
            if n in changed:
                continue
            if now.get(n) != content:
                self.rec.bad(f"{key}|touched", f"{n} was changed", info)

    def fail(self, at, name, when, kind):
        drv, raster, source, target, mode = self.c
        key = f"fault|{drv}|{mode}"
        info = (self.c, at, name, when, kind)
        f = Faults(at, when, kind)
        d, work, tmp, r, m, before, files, path, back, err = self.once(f)
        self.rec.trans()
        if not f.fired:
            self.rec.bad(f"{key}|replay", f"point {at} not reached", info)
            return
        if err is None:
            # swallowed: then everything must be there all the same
            self.rec.outcome((name, "swallowed"))
            names = self.contents(f"{key}|swallowed", r, m, path, back, info)
            self.tidy(key, work, tmp, files, names, names, info)
            return
        self.rec.outcome((name, when, type(err).__name__))
        rel = os.path.relpath(path, work)
        if mode == "save":
            allowed = [rel]
        else:
            allowed = [
                os.path.relpath(os.path.join(b, n), work)
                for b, _, ns in os.walk(work) for n in ns
                if n.startswith("tile_")
            ]
        changed = allowed
        if "cog" in drv and not any(n == "copy" for n in f.log):
            # staged elsewhere: the target has not been reached yet
            changed = []
            if mode == "save" and target == "absent" and os.path.exists(path):
                self.rec.bad(
                    f"{key}|early", "target created while staging", info
                )
        self.tidy(key, work, tmp, files, allowed, changed, info)
        if observe(r).canon() != before:
            self.rec.bad(f"{key}|source", "the raster changed", info)
        try:
            back = self.call(r, path, mode, DRV[drv][1])
        except Exception as e:  # noqa: BLE001
            self.rec.bad(f"{key}|again", f"later save: {e!r}"[:300], info)
            return
        names = self.contents(f"{key}|again", r, m, path, back, info)
        self.tidy(key, work, tmp, files, names, names, info)
        self.rec.trace()
        self.rec.state(info)


def case_fault(rec, c):
    *cfg, kinds, part, parts = c
    run = Run(rec, tuple(cfg))
    log = run.baseline()
    if log is None:
        return
    n = 0
    for at, name in enumerate(log):
        # a temporary file that was made but never handed over cannot be
        # known to the code under test
        once = name in ("task", "tempfile")
        for when in ("before",) if once else ("before", "after"):
            for kind in kinds:
                n += 1
                if n % parts != part:
                    continue
                run.fail(at, name, when, kind)


def case_reject(rec, c):
    """Arguments that cannot be used leave the target as it was."""
    drv, target, opts = c
    name, kw = DRV[drv]
    d = c06.fresh()
    r, m = prepare(d, "int16", "file", target, name)
    files = listing(d)
    before = observe(r).canon()
    path = os.path.join(d, name)
    rec.trans()
    rec.state(c)
    try:
        back = r.save(path, **{**kw, **dict(opts)})
    except Exception as e:  # noqa: BLE001
        rec.outcome(type(e).__name__)
        now = listing(d)
        stray = {
            n for n in set(now) - set(files)
            if n != name and not n.endswith(".aux.xml")
        }
        if stray:
            rec.bad(f"reject|{drv}|stray", f"{sorted(stray)}", c)
        for n, content in files.items():
            if n != name and now.get(n) != content:
                rec.bad(f"reject|{drv}|touched", n, c)
        if observe(r).canon() != before:
            rec.bad(f"reject|{drv}|source", "the raster changed", c)
        back = r.save(path, **kw)
        c06.judge(rec, f"reject|{drv}|again", m, path, back, c)
        rec.trace()
    else:
        # GDAL overlooked it: then the file must be complete
        rec.outcome("accepted")
        c06.judge(rec, f"reject|{drv}|accepted", m, path, back, c)


BAD = [
    (("compress", "bogus"),), (("predictor", "bogus"), ("compress", "lzw")),
    (("bigtiff", "bogus"),), (("blocksize", "x"),),
    (("driver", "bogus"),), (("null_value", "x"),),
    (("overviews", [2]), ("overview_resampling", "bogus")),
]


def run(ctx):
    base = c06.root()
    try:
        explore(ctx)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def explore(ctx):
    cfgs = []
    for drv, raster, source, target in itertools.product(
        DRV, RASTERS, ("memory", "lazy", "file"), ("absent", "exists")
    ):
        if drv == "img" and raster in ("lost",):
            continue
        cfgs.append((drv, raster, source, target, "save"))
    tiles = [
        (drv, raster, source, "absent", mode)
        for drv, raster, source, mode in itertools.product(
            ("gtiff", "cog", "overviews"), RASTERS, ("memory", "file"),
            ("chunks", "per_band"),
        )
    ]
    if ctx.thorough:
        cases = [
            (*c, tuple(KINDS), p, 4) for c in cfgs + tiles for p in range(4)
        ]
    else:
        kinds = list(KINDS)
        # every driver with every source and target; rasters and
        # exceptions take turns
        cases = []
        combos = itertools.product(
            DRV, ("memory", "file"), ("absent", "exists")
        )
        names = list(RASTERS)
        for i, (drv, source, target) in enumerate(combos):
            raster = names[(i * 5 + i // 6) % 6]
            if drv == "img" and raster == "lost":
                raster = "one"
            cases.append((
                drv, raster, source, target, "save", (kinds[i % 3],), 0, 1
            ))
        for i, (drv, mode) in enumerate(itertools.product(
            ("gtiff", "cog"), ("chunks", "per_band")
        )):
            for raster in (("int16", "float2")[(i + i // 2) % 2],):
                for p in range(3):
                    cases.append((
                        drv, raster, ("memory", "file")[i % 2], "absent",
                        mode, (kinds[i % 3],), p, 3,
                    ))
    ctx.explore("faults", cases, case_fault)
    ctx.explore(
        "rejected arguments",
        [
            (drv, target, b) for drv in DRV for target in ("absent", "exists")
            for b in BAD
        ],
        case_reject,
    )
