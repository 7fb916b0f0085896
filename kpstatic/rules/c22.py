"""C22: files are read with the scan and detector they describe."""

from __future__ import annotations

from fractions import Fraction
import re

from .. import poly as Q
from ..alg import Alg, Arr, Dict, External, Fn, Given, Obj, Opaque, PyError, Slice, Unsupported, View, key
from ..algtools import DETECTOR, ERR, judge, make
from ..grid import GAlg, Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from .c06 import File, as_dict, hooks as file_hooks

N = Num.const
SY, SX = sym("pattern rows", "int"), sym("pattern columns", "int")


# ------------------------------------------------------------------- arrays
def array(name, shape, ops=(), lazy=False):
    """An array of known shape."""
    o = Obj(None, "array")
    shape = tuple(shape)

    def again(f, op=None):
        def call(a, args, kw):
            s = f(a, args, kw)
            return array(name, s, ops + ((op, tuple(args), Dict(kw)),) if op else ops, lazy)
        return Fn("array", call)

    def reshape(a, args, kw):
        s = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
        return tuple(s)

    def squeeze(a, args, kw):
        if args or kw:
            raise PyError("squeeze of one axis")
        return tuple(x for x in shape if not is_one(a, x))

    def getitem(a, args, kw):
        parts = args[0] if isinstance(args[0], tuple) else (args[0],)
        if all(a.is_all(p) or is_flip(p) for p in parts):
            n = [j for j, p in enumerate(parts) if is_flip(p)]
            pos = tuple(j - (len(parts) if any(p is not None and _ell(p) for p in parts[:j]) else 0) for j in n)
            return array(name, shape, ops + (("flip", pos, Dict()),), lazy)
        if len(parts) == 1 and isinstance(parts[0], (Opaque, Arr)):
            return array(name, shape, ops + (("take", (parts[0],), Dict()),), lazy)
        return Opaque("item", (o, args[0]))

    def total(a, args, kw):
        ax = a.const(kw.get("axis", args[0] if args else None))
        if not isinstance(ax, int):
            return Opaque("sum", (o, tuple(args), Dict(kw)))
        k = ax % len(shape)
        return array(name, shape[:k] + shape[k + 1:], ops + (("sum", (ax,), Dict()),), lazy)
    size = Num.const(1)
    for x in shape:
        size = size.mul(x if isinstance(x, Num) else sym("unknown", "int"))
    o.attrs.update({
        "shape": shape, "ndim": N(len(shape)), "size": size, "what": name, "ops": ops, "islazy": lazy,
        "dtype": Given(f"dtype of {name}"), "chunks": Given(f"chunks of {name}"), "chunksize": Given("chunksize"),
        "reshape": again(reshape), "squeeze": again(squeeze), "rechunk": again(lambda a, x, k: shape),
        "astype": again(lambda a, x, k: shape), "copy": again(lambda a, x, k: shape),
        "__getitem__": Fn("getitem", getitem), "sum": Fn("sum", total),
    })
    return o


def _ell(p):
    from ..alg import ELLIPSIS
    return p is ELLIPSIS


def is_flip(p):

    return isinstance(p, Slice) and p.lo is None and p.hi is None and isinstance(p.step, Num) and p.step.value == -1


def is_one(a, x):
    return isinstance(x, Num) and x.value == 1


def through(to_lazy=None):
    def f(a, args, kw, s=None):
        x = args[0] if args else None
        if isinstance(x, Obj) and x.name == "array":
            lz = x.attrs["islazy"] if to_lazy is None else to_lazy
            return array(x.attrs["what"], x.attrs["shape"], x.attrs["ops"], lz)
        return None if not args else x
    return f


def stacked(a, args, kw, s=None):
    xs = args[0]
    if isinstance(xs, (list, tuple)) and xs and all(isinstance(x, Obj) and x.name == "array" for x in xs) \
            and a.const(kw.get("axis", N(0))) == 0 and len(args) == 1:
        return array(tuple(x.attrs["what"] for x in xs), (N(len(xs)),) + xs[0].attrs["shape"],
                     xs[0].attrs["ops"] + (("stack", (), Dict()),), xs[0].attrs["islazy"])
    return a.stack("stack", args, kw) if all(isinstance(x, (Arr, Num, View)) for x in xs or ()) else Opaque("stack", (xs,))


def array_hooks():
    return {
        "numpy.asanyarray": keep_array("numpy.asanyarray"), "numpy.asarray": keep_array("numpy.asarray"), "numpy.array": keep_array("numpy.array"),
        "dask.array.from_array": through(True), "dask.array.stack": stacked, "numpy.stack": stacked,
        "warnings.warn": lambda a, args, kw, s=None: None,
    }


def keep_array(d):
    def f(a, args, kw, s=None):
        if args and isinstance(args[0], Obj) and args[0].name == "array":
            return args[0]
        if args and isinstance(args[0], list) and args[0] and all(isinstance(x, Obj) and x.name == "array" for x in args[0]):
            return stacked(a, [args[0]], {})
        h = a.hooks.pop(d)
        try:
            return a.external(d, args, kw, None)
        finally:
            a.hooks[d] = h
    return f


# ------------------------------------------------------------------- checks
def check_axes(res, a, tag, d, want, where):
    """`want`: (name, size, scale or None) of each axis of the array."""
    data, axes = d.get("data"), d.get("axes")
    ok = isinstance(data, Obj) and data.name == "array"
    res.count("obligations")
    if not ok:
        res.undecided.append(f"{tag}: patterns read are not described: {data!r}"[:200])
    else:
        shape = data.attrs["shape"]
        if len(shape) != len(want):
            res.add("shape", f"{tag}", f"patterns are read with {len(shape)} axes, not {len(want)}", where)
            return
        judge(res, "shape", f"shape of the patterns of {tag}", [a.num(x) for x in shape], [w[1] for w in want], where,
              [f"axis {i}" for i in range(len(want))])
    if not isinstance(axes, (list, tuple)) or not all(isinstance(x, Dict) for x in axes):
        res.undecided.append(f"{tag}: axes are not described: {axes!r}"[:160])
        return
    names = [a.const(x.get("name")) for x in axes]
    res.count("obligations")
    if None in names:
        res.undecided.append(f"{tag}: names of axes not described")
    elif names != [w[0] for w in want]:
        res.add("axes", f"names of the axes of {tag}", f"{names}, not {[w[0] for w in want]}", where)
        return
    else:
        res.count("proved_equal")
    for i, (x, (n, size, scale)) in enumerate(zip(axes, want)):
        got, exp, lab = [a.num(x["size"]), a.num(x["index_in_array"])], [size, N(i)], ["size", "position in the array"]
        if scale is not None:
            got.append(a.num(x["scale"]))
            exp.append(scale)
            lab.append("scale")
        judge(res, "axes", f"axis {n} of {tag}", got, exp, where, lab)


def check_xmap(res, a, tag, d, ny, nx, dy, dx, where):
    x = d.get("xmap")
    res.count("obligations")
    if not (isinstance(x, Opaque) and x.fn == "call" and str(x.args[0]).endswith("CrystalMap.empty")):
        res.undecided.append(f"{tag}: crystal map is not described")
        return
    kw = dict(x.args[2])
    for n, v in zip(("shape", "step_sizes"), x.args[1]):
        kw[n] = v
    try:
        got = [a.num(v) for v in (*kw["shape"], *kw["step_sizes"])]
    except (KeyError, TypeError):
        res.undecided.append(f"{tag}: crystal map is not described")
        return
    judge(res, "crystal-map", f"crystal map of {tag}", got, [ny, nx, dy, dx], where, ("rows", "columns", "dy", "dx"))


def check_detector(res, a, tag, d, want, where):
    o = d.get("detector")
    res.count("obligations")
    if not isinstance(o, Obj) or o.cls is None or o.cls.name != DETECTOR:
        res.undecided.append(f"{tag}: detector is not described")
        return
    for k, w in want.items():
        if k == "pc":
            # as if the user had given the stored values in the vendor's convention
            _, ref = make(a.proj, o.cls, w[:3], w[3], shape=want["shape"], px_size=a.attr(o, "px_size", None),
                          binning=a.attr(o, "binning", None))
            for c in ("pcx", "pcy", "pcz"):
                judge(res, "detector", f"{c} of the detector of {tag}", [a.num(a.attr(o, c, None))],
                      [a.num(a.attr(ref, c, None))], where, ("value",))
            continue
        got = a.attr(o, k, None)
        if isinstance(w, tuple):
            judge(res, "detector", f"{k} of the detector of {tag}", [a.num(x) for x in got], [a.num(x) for x in w], where,
                  ("rows", "columns"))
        else:
            judge(res, "detector", f"{k} of the detector of {tag}", [a.num(got)], [w], where, ("value",))


def check_same(res, rule, tag, what, got, want, where):
    res.count("obligations")
    if got is not None and Q.same(key(got), key(want)):
        res.count("proved_equal")
    elif got is None or isinstance(got, (Num, str, Given)):
        res.add(rule, f"{what} of {tag}", f"{got!r}, not {want!r}", where)
    else:
        res.undecided.append(f"{tag}: {what} is {got!r}"[:160])


NAVS = {"a map": (5, 7), "a line along x": (1, 7), "a line along y": (5, 1), "a single pattern": (1, 1)}


def nav_axes(ny, nx, dy, dx):
    return [(n, N(s), st) for n, s, st in (("y", ny, dy), ("x", nx, dx)) if s != 1]


# ------------------------------------------------------- HDF5 files (h5ebsd)
def sub(tree, **kw):
    return {**tree, **kw}


def h5ebsd_cases():
    dy, dx = sym("step along y"), sym("step along x")
    tilt, az, st = sym("camera elevation"), sym("camera azimuth"), sym("sample tilt")
    px, py, pz = sym("PCx stored"), sym("PCy stored"), sym("PCz stored")
    H, U = sym("detector height (um)"), sym("detector height (px)")
    for nav, (ny, nx) in NAVS.items():
        data = array("patterns", (N(ny).mul(N(nx)), SY, SX))
        yield nav, "Bruker", "BrukerH5EBSDReader", {}, (ny, nx, dy, dx), {
            "EBSD": {"Header": {
                "NROWS": N(ny), "NCOLS": N(nx), "PatternHeight": SY, "PatternWidth": SX, "YSTEP": dy, "XSTEP": dx,
                "Grid Type": "isometric", "DetectorFullHeightMicrons": H, "UnClippedPatternHeight": U,
                "CameraTilt": tilt, "Sample Tilt": st, "StaticBackground": Given("background", "array"),
                "KV": Given("beam energy"), "Magnification": Given("magnification"), "WD": Given("working distance")},
                "Data": {"PCX": px, "PCY": py, "DD": pz, "RawPatterns": data}}}, {
            "shape": (SY, SX), "px_size": H.div(U), "tilt": tilt, "sample_tilt": st, "pc": (px, py, pz, "bruker"),
            "azimuthal": N(0), "binning": N(1)}, H.div(U), Given("background", "array"), \
            {"beam_energy": "beam energy", "magnification": "magnification", "working_distance": "working distance"}
        yield nav, "EDAX", "EDAXH5EBSDReader", {}, (ny, nx, dy, dx), {
            "EBSD": {"Header": {
                "nRows": N(ny), "nColumns": N(nx), "Pattern Height": SY, "Pattern Width": SX, "Step Y": dy, "Step X": dx,
                "Grid Type": "SqrGrid", "Camera Elevation Angle": tilt, "Camera Azimuthal Angle": az, "Sample Tilt": st,
                "Working Distance": Given("working distance"),
                "Pattern Center Calibration": {"x-star": px, "y-star": py, "z-star": pz}},
                "Data": {"Pattern": data}},
            "SEM-PRIAS Images": {"Header": {"Mag": Given("magnification")}}}, {
            "shape": (SY, SX), "tilt": tilt, "azimuthal": az, "sample_tilt": st,
            "pc": (px, py, pz, "tsl")}, None, None, \
            {"magnification": "magnification", "working_distance": "working distance"}
        yield nav, "Oxford", "OxfordH5EBSDReader", {"version": "5.0", "_patterns_name": "Processed Patterns"}, (ny, nx, dy, dx), {
            "EBSD": {"Header": {
                "Y Cells": N(ny), "X Cells": N(nx), "Pattern Height": SY, "Pattern Width": SX, "Y Step": dy, "X Step": dx,
                "Tilt Angle": st, "Detector Orientation Euler": Arr([sym("phi1"), tilt, sym("phi2")]),
                "Processed Static Background": Given("background", "array"), "Beam Voltage": Given("beam energy"),
                "Magnification": Given("magnification"), "Working Distance": Given("working distance")},
                "Data": {"Pattern Center X": px, "Pattern Center Y": py, "Detector Distance": pz,
                         "Processed Patterns": data}}}, {
            "shape": (SY, SX), "sample_tilt": st.mul(N(180)).div(Q.PI), "tilt": tilt.mul(N(180)).div(Q.PI).sub(N(90)),
            "pc": (px, py, pz, "oxford")}, None, Given("background", "array"), \
            {"beam_energy": "beam energy", "magnification": "magnification", "working_distance": "working distance"}


def h5ebsd(proj, res: Result):
    done = set()
    for nav, vendor, cname, extra, (ny, nx, dy, dx), tree, det, px, bg, sem in h5ebsd_cases():
        cls = next((c for c in proj.classes.values() if c.name == cname and "scan2dict" in c.methods), None)
        if cls is None:
            res.undecided.append(f"no class {cname}")
            continue
        where = proj.lookup(cls, "scan2dict").where
        for lazy in (False, True):
            tag = f"{nav} in {vendor}'s h5ebsd file" + (", lazy" if lazy else "")
            res.count("files_described")
            f = File()
            f.tree = {"Scan": tree}
            h = {**file_hooks(f), **array_hooks()}

            def read(a, args, kw, s, f=f):
                g = args[0] if args else kw["group"]
                v = f.at(g.attrs["path"]) if isinstance(g, Obj) else None
                if v is None:
                    raise PyError("KeyError")
                return as_dict(v)
            h["_hdf5group2dict"] = read
            a = Alg(proj, h)
            scan = f.handle(["Scan"])
            scan.attrs["keys"] = Fn("keys", lambda a, args, kw, t=tree: list(t))
            r = Obj(cls, "reader", {"filename": Given("filename"), "manufacturer": vendor, "version": Given("version"),
                                    "file": f.handle([]), **extra})
            try:
                d = a.call(a.attr(r, "scan2dict", None), [scan], {"lazy": lazy}, None)
                if not isinstance(d, Dict):
                    res.undecided.append(f"{tag}: scan is not described")
                    continue
                check_axes(res, a, tag, d, nav_axes(ny, nx, dy, dx) + [("dy", SY, px), ("dx", SX, px)], where)
                check_xmap(res, a, tag, d, N(ny), N(nx), dy, dx, where)
                check_detector(res, a, tag, d, det, where)
                if bg is not None:
                    check_same(res, "static-background", tag, "static background", d.get("static_background"), bg, where)
                m = d.get("metadata")
                for k, v in sem.items():
                    got = m
                    for p in ("Acquisition_instrument", "SEM", k):
                        got = got.get(p) if isinstance(got, Dict) else None
                    check_same(res, "microscope", tag, k, got, Given(v), where)
            except (*ERR, KeyError) as e:
                res.undecided.append(f"{tag}: {type(e).__name__} {e}")
            done |= a.functions
    return done


# ------------------------------------------------------------- binary files
SIZES = {"uint8": 1, "int8": 1, "bool": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "float32": 4, "uint64": 8,
         "int64": 8, "float64": 8, "float": 8, "int": 8}


def dtype_name(a, v):
    if isinstance(v, External):
        return v.dotted.split(".")[-1].rstrip("_")
    if isinstance(v, Opaque) and v.fn == "call" and v.args[1]:
        return dtype_name(a, v.args[1][0])
    if isinstance(v, Obj) and v.name == "dtype":
        return v.attrs["name"]
    c = a.const(v)
    return c if isinstance(c, str) else None


class Binary:
    """A binary file: what is read at a position is one quantity."""

    def __init__(self, name, known=()):
        self.known, self.pos, self.name = dict(known), 0, name

    def read(self, a, args, kw, s=None):
        dt = dtype_name(a, kw.get("dtype", args[1] if len(args) > 1 else None))
        n = a.const(kw.get("count", args[2] if len(args) > 2 else None))
        off = a.const(kw.get("offset", N(0)))
        if dt not in SIZES or self.pos is None or not isinstance(off, int):
            self.pos = None
            return Opaque("fromfile", (dt,))
        if not isinstance(n, int) or n > 64:
            n = kw.get("count", args[2] if len(args) > 2 else None)
            at, self.pos = self.pos, None
            return array(("file", key(N(at)), dt), (n,)) if isinstance(n, Num) else Opaque("fromfile", (dt,))
        out = []
        self.pos += off
        for _ in range(n):
            out.append(self.known.get((self.pos, dt), sym(f"{dt} at byte {self.pos}", "int" if "int" in dt else "real")))
            self.pos += SIZES[dt]
        return Arr(out)

    def handle(self):
        def seek(a, args, kw):
            k, how = a.const(args[0]), a.const(args[1]) if len(args) > 1 else 0
            ok = isinstance(k, int) and self.pos is not None and how in (0, 1)
            self.pos = (k + (self.pos if how == 1 else 0)) if ok else None

        def nothing(a, args, kw):
            return None
        return Obj(None, "file", {"seek": Fn("seek", seek), "close": Fn("close", nothing), "name": self.name})


def memmap(a, args, kw, s=None):
    """np.memmap(filename, dtype, mode, offset, shape)"""
    names = ("filename", "dtype", "mode", "offset", "shape")
    g = {**dict(zip(names, args)), **kw}
    shape = g.get("shape")
    if not isinstance(shape, (tuple, list)):
        return Opaque("memmap", (shape,))
    return array(("memmap", key(g.get("offset", N(0))), dtype_name(a, g.get("dtype"))), shape)


def distributed(a, args, kw, s=None):
    names = ("filename", "dtype", "positions", "offset", "shape")
    g = {**dict(zip(names, args)), **kw}
    shape = g.get("shape")
    if not isinstance(shape, (tuple, list)):
        return Opaque("memmap", (shape,))
    return array(("memmap", key(g.get("offset", N(0))), dtype_name(a, g.get("dtype"))), shape, lazy=True)


def path_obj(name):
    stem, _, ext = name.rpartition("/")[2].rpartition(".")
    return Obj(None, "path", {
        "suffix": "." + ext, "stem": stem, "name": name,
        "stat": Fn("stat", lambda a, args, kw: Obj(None, "stat", {"st_size": sym("file size", "int")})),
    })


def scalar(dt):
    return lambda a, args, kw, s=None: Obj(None, "dtype", {"name": dt, "itemsize": N(SIZES[dt]), "nbytes": N(SIZES[dt])})


def np_dtype(a, args, kw, s=None):
    dt = dtype_name(a, args[0])
    return scalar(dt)(a, (), {}) if dt in SIZES else Opaque("call", ("numpy.dtype", tuple(args), Dict(kw)))


def binary_hooks(b):
    return {
        **{f"numpy.{dt}": scalar(dt) for dt in SIZES if dt not in ("float", "int", "bool")}, "numpy.dtype": np_dtype,
        **array_hooks(), "numpy.fromfile": b.read, "numpy.memmap": memmap,
        "open": lambda a, args, kw, s=None: b.handle(), "pathlib.Path": lambda a, args, kw, s=None: path_obj(b.name),
        "rsciio.utils.distributed.memmap_distributed": distributed,
        "rsciio.utils._distributed.memmap_distributed": distributed, "rsciio.utils.file.memmap_distributed": distributed,
        "memmap_distributed": distributed,
        "get_chunking": lambda a, args, kw, s=None: Given("chunks"), "builtins.open": lambda a, args, kw, s=None: b.handle(),
    }


def reader_of(proj, plugin):
    m = proj.modules.get(f"kikuchipy.io.plugins.{plugin}._api")
    f = m and proj.resolve_in_module(m, "file_reader")
    return f if f is not None and hasattr(f, "params") else None


def one_scan(res, tag, out):
    out = out[0] if isinstance(out, (list, tuple)) and len(out) == 1 else None
    if not isinstance(out, Dict):
        res.undecided.append(f"{tag}: scan is not described")
    return out if isinstance(out, Dict) else None


def edax_binary(proj, res: Result):
    """UP1/2: width, height and the offset of the patterns as uint32 from byte 4; from version 3 the numbers of map
    columns and rows from byte 17, whether the grid is hexagonal at byte 25, and the step sizes along x and y from 26."""
    f = reader_of(proj, "edax_binary")
    if f is None:
        res.undecided.append("no EDAX binary reader")
        return set()
    done = set()
    sx, sy, off = (sym(f"uint32 at byte {i}", "int") for i in (4, 8, 12))
    dx, dy = (sym(f"float64 at byte {i}") for i in (26, 34))
    for ext, dt in (("up1", "uint8"), ("up2", "uint16")):
        for version in (1, 3):
            for hexa in (False, True):
                for given in (None, (5, 7)):
                    for nav, (ny, nx) in NAVS.items():
                        for lazy in (False, True):
                            if version == 1 and hexa or (version == 1 or hexa) and nav != "a map":
                                continue
                            if given and (nav != "a map" or hexa or version == 1):
                                continue
                            tag = f"{nav} in an EDAX .{ext} file of version {version}" + (", hexagonal" if hexa else "") \
                                + (", shape given" if given else "") + (", lazy" if lazy else "")
                            known = {(0, "uint32"): N(version), (25, "uint8"): N(int(hexa))}
                            if version > 1 and not hexa:
                                known |= {(17, "uint32"): N(nx), (21, "uint32"): N(ny)}
                            b = Binary(f"dir/scan.{ext}", known)
                            a = Alg(proj, binary_hooks(b))
                            res.count("files_described")
                            try:
                                d = one_scan(res, tag, a.call_func(f, ["dir/scan." + ext], {
                                    "nav_shape": tuple(map(N, given)) if given else None, "lazy": lazy}))
                                if d is None:
                                    continue
                                if version == 1 or hexa:
                                    size = Q.f_int(sym("file size", "int").sub(off).div(sx.mul(sy).mul(N(SIZES[dt]))))
                                    want = [("x", size, N(1) if version == 1 else dx)]
                                else:
                                    want = [(n, s, st) for n, s, st in (("y", N(ny), dy), ("x", N(nx), dx))
                                            if not (n == "y" and ny == 1)]
                                check_axes(res, a, tag, d, want + [("dy", sy, None), ("dx", sx, None)], f.where)
                                check_source(res, tag, d, "memmap", off, dt, f.where)
                            except (*ERR, KeyError) as e:
                                res.undecided.append(f"{tag}: {type(e).__name__} {e}")
                            done |= a.functions
    return done


def check_source(res, tag, d, kind, off, dt, where):
    x = d.get("data")
    res.count("obligations")
    w = x.attrs["what"] if isinstance(x, Obj) and x.name == "array" else None
    if not isinstance(w, tuple) or w[0] != kind:
        res.undecided.append(f"{tag}: where patterns are read from is not described")
        return
    if not Q.same(w[1], key(off)):
        res.add("bytes", f"patterns of {tag}", f"read from {w[1]!r}, not {off!r}", where)
    elif dt is not None and w[2] != dt:
        if w[2] is None:
            res.undecided.append(f"{tag}: data type not described")
        else:
            res.add("bytes", f"patterns of {tag}", f"read as {w[2]}, not {dt}", where)
    else:
        res.count("proved_equal")


class Settings(dict):
    """What a NORDIF setting file says, by the words before each value."""


def nordif_hooks(b, settings, exists):
    def joined(a, args, kw, s=None):
        return "/".join(x if isinstance(x, str) else "?" for x in args)

    def split(a, args, kw, s=None):
        h, _, t = args[0].rpartition("/")
        return (h, t)
    base = binary_hooks(b)
    return {
        **base, "os.path.isfile": lambda a, args, kw, s=None: exists,
        "os.path.join": joined, "os.path.split": split,
        "os.path.splitext": lambda a, args, kw, s=None: tuple(args[0].rpartition(".")[::2]) if isinstance(args[0], str) else
        Opaque("splitext", tuple(args)),
        "imageio.v3.imread": lambda a, args, kw, s=None: Given("background", "array"),
        "matplotlib.pyplot.imread": lambda a, args, kw, s=None: Given("background", "array"),
        "_get_settings_from_file": lambda a, args, kw, s=None: settings(),
    }


def nordif(proj, res: Result):
    """A .dat file holds the patterns only, one after the other, the columns of a row first."""
    f = reader_of(proj, "nordif")
    done = set()
    if f is None:
        res.undecided.append("no NORDIF reader")
        return done
    step, SY, SX = sym("step size"), N(60), N(50)
    for nav, (ny, nx) in NAVS.items():
        for how in ("setting file", "given sizes"):
            for lazy in (False, True):
                tag = f"{nav} in a NORDIF file, {how}" + (", lazy" if lazy else "")
                b = Binary("dir/Pattern.dat")
                det = {"shape": (SY, SX), "tilt": sym("tilt"), "sample_tilt": sym("sample tilt"),
                       "azimuthal": sym("azimuthal")}

                def settings():
                    size = Dict({"ny": N(ny), "nx": N(nx), "sy": SY, "sx": SX, "step_y": step, "step_x": step})
                    return (Dict(), Dict(), size, Dict(det))
                a = Alg(proj, nordif_hooks(b, settings, how == "setting file"))
                kw = {"lazy": lazy}
                if how == "given sizes":
                    kw |= {"scan_size": (N(nx), N(ny)), "pattern_size": (SX, SY)}
                res.count("files_described")
                st = step if how == "setting file" else N(1)
                try:
                    d = one_scan(res, tag, a.call_func(f, ["dir/Pattern.dat"], kw))
                    if d is None:
                        continue
                    check_axes(res, a, tag, d, nav_axes(ny, nx, st, st) + [("dy", SY, None), ("dx", SX, None)], f.where)
                    check_xmap(res, a, tag, d, N(ny), N(nx), st, st, f.where)
                    if how == "setting file":
                        check_detector(res, a, tag, d, det, f.where)
                    if lazy:
                        check_source(res, tag, d, "memmap", N(0), "uint8", f.where)
                    else:
                        check_source(res, tag, d, "file", N(0), None, f.where)
                except (*ERR, KeyError) as e:
                    res.undecided.append(f"{tag}: {type(e).__name__} {e}")
                done |= a.functions
    return done


def oxford_binary(proj, res: Result):
    """.ebsp: patterns follow each other, each with a header and (from version 1) a footer with the beam position."""
    cls = next((c for c in proj.classes.values() if c.name == "OxfordBinaryFileReader"), None)
    done = set()
    if cls is None:
        res.undecided.append("no Oxford binary reader")
        return done
    # --- the map's shape and step size
    where = proj.lookup(cls, "__init__").where
    starts = Obj(None, "starts")
    starts.attrs["__getitem__"] = Fn("getitem", lambda a, args, kw: sym(f"start {a.const(args[0])}", "int")
                                     if isinstance(a.const(args[0]), int) and not isinstance(args[0], bool) else starts)

    def footer(a, args, kw, s=None):
        i = repr(a.num(args[-1]))
        return Dict({"beam_x": Arr([Arr([sym(f"x of {i}")])]), "beam_y": Arr([Arr([sym(f"y of {i}")])])})
    f = proj.lookup(cls, "get_navigation_shape_and_step_size")
    if f is not None:
        a = Alg(proj, {**array_hooks(), "get_single_pattern_footer": footer})
        o = Obj(cls, "reader", {"pattern_starts": starts, "pattern_is_present": Given("all", "array")})
        try:
            rows, cols, step = a.call_func(f, [], {}, self_=o)
            x0, x1, x4 = (sym(f"x of start {i}") for i in (0, 1, -1))
            y0, y4 = (sym(f"y of start {i}") for i in (0, -1))
            s = x1.sub(x0)

            def count(p, q):
                r = Q.FUNCS["round"]
                return Q.f_int(Q.FUNCS["abs"](r(q.div(s)).sub(r(p.div(s))))).add(N(1))
            judge(res, "axes", "map in an Oxford .ebsp file", [a.num(v) for v in (rows, cols, step)],
                  [count(y0, y4), count(x0, x4), s], f.where, ("rows", "columns", "step size"))
        except (*ERR, KeyError, TypeError, ValueError) as e:
            res.undecided.append(f"Oxford .ebsp map: {type(e).__name__} {e}")
        done |= a.functions
    # --- the scan
    sizes = {"pattern_footer_size": N(16), "pattern_header_size": N(16)}
    for has_map in (True, False):
        for dt, nbytes in (("uint8", 1), ("uint16", 2)):
            for lazy in (False, True):
                tag = ("a map" if has_map else "some patterns") + f" in an Oxford .ebsp file, {dt}" + (", lazy" if lazy else "")
                b = Binary("dir/scan.ebsp")
                rows, cols, n = N(60), N(50), N(35)
                header = Dict({"is_compressed": Arr([N(0)]), "nrows": Arr([rows]), "ncols": Arr([cols]),
                               "n_bytes": Arr([rows.mul(cols).mul(N(nbytes))])})
                step = sym("step size")
                h = {
                    **binary_hooks(b), "get_version": lambda a, args, kw, s=None: N(1),
                    "guess_number_of_patterns": lambda a, args, kw, s=None, n=n: n,
                    "get_pattern_starts": lambda a, args, kw, s=None: Given("pattern starts", "array"),
                    "get_single_pattern_header": lambda a, args, kw, s=None, h=header: h,
                    "get_pattern_footer_dtype": lambda a, args, kw, s=None: [("beam_x", Given("f8"), (N(1),))],
                    "get_pattern_header_size": lambda a, args, kw, s=None: N(16),
                    "all_patterns_present": lambda a, args, kw, s=None, m=has_map: m,
                    "n_patterns_present": lambda a, args, kw, s=None, n=n: n,
                    "pattern_order": lambda a, args, kw, s=None: Given("order in the file", "array"),
                    "get_navigation_shape_and_step_size": lambda a, args, kw, s=None: (N(5), N(7), step),
                    "get_memmap": lambda a, args, kw, s=None, n=n, dt=dt: Obj(None, "memmap", {
                        "__getitem__": Fn("getitem", lambda a, args, kw: array("patterns", (n, rows, cols))
                                          if a.const(args[0]) == "pattern" else Given(str(a.const(args[0])), "array")),
                        "dtype": Obj(None, "dtype", {"names": ("pattern", "beam_x", "beam_y")}), "shape": (n,)}),
                }
                a = Alg(proj, h)
                res.count("files_described")
                try:
                    o = a.construct(cls, [b.handle()], {})
                    if isinstance(o, Obj):
                        o.attrs.update({k: v for k, v in sizes.items() if k not in o.attrs})
                    got = dtype_name(a, a.attr(o, "dtype", None))
                    res.count("obligations")
                    if got is None:
                        res.undecided.append(f"{tag}: data type not described")
                    elif got != dt:
                        res.add("bytes", f"patterns of {tag}", f"read as {got}, not {dt}", where)
                    else:
                        res.count("proved_equal")
                    d = a.call(a.attr(o, "get_scan", None), [], {"lazy": lazy}, None)
                    if not isinstance(d, Dict):
                        res.undecided.append(f"{tag}: scan is not described")
                        continue
                    want = [("y", N(5), step), ("x", N(7), step)] if has_map else [("x", n, N(1))]
                    check_axes(res, a, tag, d, want + [("dy", rows, None), ("dx", cols, None)], where)
                except (*ERR, KeyError, TypeError) as e:
                    res.undecided.append(f"{tag}: {type(e).__name__} {e}")
                done |= a.functions
    return done


def oxford_order(proj, res: Result):
    """Patterns of an .ebsp file belong to the points in which order the file lists their positions, in whatever
    order they follow each other."""
    cls = next((c for c in proj.classes.values() if c.name == "OxfordBinaryFileReader"), None)
    done = set()
    f = proj.lookup(cls, "get_patterns") if cls is not None else None
    if f is None:
        return done
    rows, cols, size, first = 2, 3, 2 * 3 + 34, 100
    for order in ((0, 1, 2, 3, 4, 5), (2, 0, 1, 3, 4, 5), (0, 2, 1, 3, 5, 4), (1, 2, 3, 4, 5, 0), (5, 4, 3, 2, 1, 0), (2, 1, 0, 4, 5, 3)):
        for lazy in (False, True):
            tag = f"a map in an Oxford .ebsp file with patterns {', '.join(map(str, order))} in turn" + (", lazy" if lazy else "")
            a = GAlg(proj, {"get_chunking": lambda a, args, kw, s=None: "auto", "dask.config.set": lambda a, args, kw, s=None: Opaque("set")})
            starts = Grid((6,), [N(first + size * k) for k in order], DType("int64"))
            pats = Grid((6, rows, cols), [sym(f"pattern {k} of the file[{i},{j}]") for k in range(6) for i in range(rows) for j in range(cols)],
                        DType("uint8"))
            o = Obj(cls, "reader", {
                "pattern_starts": starts, "n_bytes": N(rows * cols), "pattern_header_size": N(16), "pattern_footer_size": N(18),
                "signal_shape": (N(rows), N(cols)), "navigation_shape": (N(2), N(3)), "dtype": DType("uint8"), "version": N(2),
                "n_patterns": N(6), "step_sizes": [sym("step"), sym("step")], "axes_names": ["y", "x", "dy", "dx"], "scan_unit": "um",
                "memmap": Dict({"pattern": pats}), "first_pattern_position": N(first)})
            res.count("files_described")
            res.count("obligations")
            try:
                r = a.grid(a.call_func(f, [], {"lazy": lazy}, self_=o))
                want = [pats.cells[k * rows * cols + i] for k in order for i in range(rows * cols)]
                if list(r.axes) != [2, 3, rows, cols]:
                    res.add("axes", f"patterns of {tag}", f"they have shape {tuple(r.axes)}", f.where)
                elif all(x.eq(y) for x, y in zip(r.cells, want)):
                    res.count("proved_equal")
                else:
                    k = next(i for i, (x, y) in enumerate(zip(r.cells, want)) if not x.eq(y))
                    if Q.differ(r.cells[k], want[k]) is not None:
                        res.add("bytes", f"patterns of {tag}", f"pixel {k} of the map is {r.cells[k]!r}, not {want[k]!r}", f.where)
                    else:
                        res.undecided.append(f"{tag}: order not described")
            except (*ERR, KeyError, TypeError, AttributeError) as e:
                res.undecided.append(f"{tag}: {type(e).__name__} {e}")
            done |= a.functions
    return done


def h5_handle(tree, opened):
    """h5py.File(...)[path] over a tree of known entries."""
    f = File()
    f.tree = tree
    return f, f.handle([])


def first_item(v):
    """A dataset with one entry."""
    return Obj(None, "dataset", {"__getitem__": Fn("getitem", lambda a, args, kw: Arr([v]) if isinstance(v, Num) else [v])})


def emsoft_ebsd(proj, res: Result):
    f = reader_of(proj, "emsoft_ebsd")
    done = set()
    if f is None:
        res.undecided.append("no EMsoft reader")
        return done
    tilt, delta, binning = sym("thetac"), sym("delta"), sym("binning", "int")
    pc = (sym("xpc"), sym("ypc"), sym("L"))
    for how, size, nav in (("no scan size", None, [("x", N(35), None)]), ("a scan size", (N(5), N(7)), [("y", N(5), None), ("x", N(7), None)]),
                           ("a number", N(35), [("x", N(35), None)])):
        for lazy in (False, True):
            tag = f"an EMsoft EBSD file with {how}" + (", lazy" if lazy else "")
            nml = {"numsy": SY, "numsx": SX, "delta": delta, "thetac": tilt, "xpc": pc[0], "ypc": pc[1], "L": pc[2],
                   "energymax": Given("beam energy"), "binning": binning}
            tree = {"NMLparameters": {"EBSDNameList": nml}, "CrystalData": {"x": Given("crystal")},
                    "EMData": {"EBSD": {"EBSDPatterns": array("patterns", (N(35), SY, SX)), "xtalname": Given("xtalname"),
                                        "EulerAngles": Given("Euler angles", "array")}}}
            file = File()
            file.tree = tree
            root = file.handle([])

            def read(a, args, kw, s, file=file):
                g = args[0] if args else kw["group"]
                v = file.at(g.attrs["path"]) if isinstance(g, Obj) and "path" in g.attrs else None
                if v is None:
                    raise PyError("KeyError")
                return as_dict(v)
            h = {**array_hooks(), "h5py.File": lambda a, args, kw, s=None, r=root: r, "_hdf5group2dict": read,
                 "_check_file_format": lambda a, args, kw, s=None: None,
                 "_crystaldata2phase": lambda a, args, kw, s=None: Obj(None, "phase"),
                 "os.path.basename": lambda a, args, kw, s=None: "x.h5",
                 "os.path.splitext": lambda a, args, kw, s=None: (Given("name"), ".h5")}
            a = Alg(proj, h)
            res.count("files_described")
            try:
                d = one_scan(res, tag, a.call_func(f, ["dir/x.h5"], {"scan_size": size, "lazy": lazy}))
                if d is None:
                    continue
                check_axes(res, a, tag, d, nav + [("dy", SY, delta), ("dx", SX, delta)], f.where)
                check_detector(res, a, tag, d, {"shape": (SY, SX), "binning": binning, "px_size": delta, "tilt": tilt,
                                                "pc": (*pc, "emsoft")}, f.where)
            except (*ERR, KeyError, TypeError) as e:
                res.undecided.append(f"{tag}: {type(e).__name__} {e}")
            done |= a.functions
    return done


def dataset(name, shape):
    """An HDF5 dataset of known shape; ranges along its axes give its parts."""
    o = array(name, shape)

    def getitem(a, args, kw):
        parts = args[0] if isinstance(args[0], tuple) else (args[0],)
        out, lo = [], []
        for p, n in zip(parts, shape):
            if not isinstance(p, Slice) or p.step is not None:
                return Opaque("item", (o, args[0]))
            lo.append(N(0) if p.lo is None else a.num(p.lo))
            out.append((n if p.hi is None else a.num(p.hi)).sub(lo[-1]))
        return array((name, tuple(lo)), tuple(out) + tuple(shape[len(parts):]))
    o.attrs["__getitem__"] = Fn("getitem", getitem)
    return o


def truths(a, v):
    out = [a.truth(c) for c in v.comps] if isinstance(v, Arr) and v.comps is not None else [None]
    return None if None in out else out


def argwhere(a, args, kw, s=None):
    t = truths(a, args[0])
    return Opaque("argwhere", tuple(args)) if t is None else Arr([Arr([N(i)]) for i, x in enumerate(t) if x])


def argmin(a, args, kw, s=None):
    v = args[0]
    if isinstance(v, Arr) and v.comps is not None:
        n = [a.num(c).value for c in v.comps]
        if None not in n:
            return N(n.index(min(n)))
    return Opaque("argmin", tuple(args))


def length(a, args, kw, s=None):
    v = args[0]
    if isinstance(v, Arr) and v.comps is not None and not v.lead:
        return N(len(v.comps))
    h = a.hooks.pop("len")
    try:
        return a.external("len", args, kw, None)
    finally:
        a.hooks["len"] = h


MP_PLUGINS = {"EBSD": ("emsoft_ebsd_master_pattern", "EBSDmaster", "EkeVs", "MCCL"),
              "TKD": ("emsoft_tkd_master_pattern", "TKDmaster", "EkeVs", "MCCLfoil"),
              "ECP": ("emsoft_ecp_master_pattern", "ECPmaster", "EkeV", "MCCL")}


def emsoft_master_patterns(proj, res: Result):
    """The energies are those of the file, or the ones within the range asked for, or the closest one; the stereographic
    projection is stored in masterSP[NS]H, upside down, the Lambert one, per asymmetric position, in mLP[NS]H."""
    done = set()
    ekev = [10, 12, 14, 16, 18]
    half = 30
    side = N(2 * half + 1)
    for kind, (plugin, group, ename, mc) in MP_PLUGINS.items():
        f = reader_of(proj, plugin)
        if f is None:
            res.undecided.append(f"no reader of {kind} master patterns")
            continue
        cases = [(p, h, e, sets, lazy) for p in ("stereographic", "lambert") for h in ("upper", "lower", "both")
                 for e in (None, (12, 16), 15.9) for sets in (1, 2) for lazy in (False, True)
                 if (p == "lambert" and kind != "ECP" or sets == 1)]
        for p, hemi, e, sets, lazy in cases:
            tag = f"{kind} master pattern, {p}, {hemi}, energy {e}" + (f", {sets} positions" if p == "lambert" else "") \
                + (", lazy" if lazy else "")
            res.count("files_described")
            per_set = (N(sets),) if kind != "ECP" else ()
            shape = (N(len(ekev)), side, side)
            tree = {"NMLparameters": {f"{kind}MasterNameList": {"npx": N(half)}, f"{mc}NameList": {"Ebinsize": sym("Ebinsize")},
                                      "MCCLNameList": {"xtalname": "dir/ni.xtal", "Ebinsize": sym("Ebinsize") if mc == "MCCL"
                                                       else sym("another Ebinsize")}},
                    "CrystalData": {"x": Given("crystal")},
                    "EMData": {group: {
                        ename: Arr([N(k) for k in ekev]), "numset": first_item(N(sets)),
                        **{f"{t}{h}": dataset(f"{t}{h}", (per_set if t == "mLP" else ()) + shape)
                           for t in ("masterSP", "mLP") for h in ("NH", "SH")}}}}
            file = File()
            file.tree = tree
            root = master_handle(file)

            def read(a, args, kw, s, file=file):
                g = args[0] if args else kw["group"]
                v = file.at(g.attrs["path"]) if isinstance(g, Obj) and "path" in g.attrs else None
                if v is None:
                    raise PyError("KeyError")
                return as_dict(v)
            h = {**array_hooks(), "h5py.File": lambda a, args, kw, s=None, r=root: r, "_hdf5group2dict": read,
                 "check_file_format": lambda a, args, kw, s=None: None, "numpy.argwhere": argwhere,
                 "pathlib.Path": lambda a, args, kw, s=None: path_obj("dir/x.h5"), "numpy.argmin": argmin, "len": length,
                 "_crystaldata2phase": lambda a, args, kw, s=None: Obj(None, "phase", {"name": "ni"})}
            a = Alg(proj, h)
            try:
                arg = tuple(map(N, e)) if isinstance(e, tuple) else N(e) if isinstance(e, int) else \
                    N(159).div(N(10)) if e else None
                d = one_scan(res, tag, a.call_func(f, ["dir/x.h5"], {"energy": arg, "projection": p, "hemisphere": hemi,
                                                                       "lazy": lazy}))
                if d is None:
                    continue
                lo, n = {None: (0, 5), (12, 16): (1, 3), 15.9: (3, 1)}[e]
                want = [("hemisphere", N(2), None)] * (hemi == "both") + [("energy", N(n), sym("Ebinsize"))] * (n > 1) \
                    + [("height", side, N(1)), ("width", side, N(1))]
                check_axes(res, a, tag, d, want, f.where)
                offs = {"energy": N(ekev[lo]), "hemisphere": N(0)}
                if isinstance(d.get("axes"), (list, tuple)):
                    for ax in d["axes"]:
                        w = offs.get(a.const(ax.get("name")))
                        if w is not None:
                            judge(res, "axes", f"first value of axis {a.const(ax['name'])} of {tag}", [a.num(ax["offset"])], [w],
                                  f.where, ("value",))
                check_same(res, "master-pattern", tag, "projection", d.get("projection"), p, f.where)
                check_same(res, "master-pattern", tag, "hemisphere", d.get("hemisphere"), hemi, f.where)
                check_hemispheres(res, tag, d, p, hemi, kind, lo, f.where)
            except (*ERR, KeyError, TypeError) as err:
                res.undecided.append(f"{tag}: {type(err).__name__} {err}")
            done |= a.functions
    return done


def master_handle(file):
    return file.handle([])


def check_hemispheres(res, tag, d, p, hemi, kind, lo, where):
    """Which datasets, from which energy, and whether mirrored and summed."""
    x = d.get("data")
    res.count("obligations")
    if not (isinstance(x, Obj) and x.name == "array"):
        res.undecided.append(f"{tag}: patterns are not described")
        return
    w = x.attrs["what"]
    if hemi != "both":
        w = (w,)
    t = "masterSP" if p == "stereographic" else "mLP"
    want = [f"{t}{h}" for h in {"upper": ("NH",), "lower": ("SH",), "both": ("NH", "SH")}[hemi]]
    if not (isinstance(w, tuple) and all(isinstance(q, tuple) and len(q) == 2 and isinstance(q[0], str) for q in w)):
        res.undecided.append(f"{tag}: where patterns are read from is not described")
        return
    res.count("proved_equal")
    if [q[0] for q in w] != want:
        res.add("master-pattern", f"dataset of {tag}", f"{[q[0] for q in w]}, not {want}", where)
    skip = 1 if p == "lambert" and kind != "ECP" else 0
    for q in w:
        first = q[1]
        judge(res, "master-pattern", f"first energy of {tag}", [first[skip]], [N(lo)], where, ("position",))
    ops = [(o[0], o[1]) for o in x.attrs["ops"] if o[0] in ("flip", "sum")]
    wo = []
    if skip:
        wo.append(("sum", (0 if hemi != "both" else 1,)))
    if p == "stereographic":
        wo.append(("flip", (-2,)))
    n = len(x.attrs["shape"])
    ops = [(o, tuple(i - n if o == "flip" and i >= 0 else i for i in pos)) for o, pos in ops]
    res.count("obligations")
    if ops == wo:
        res.count("proved_equal")
    else:
        res.add("master-pattern", f"arrangement of {tag}", f"{ops}, not {wo}", where)


# ------------------------------------------------------- NORDIF setting file
SETTINGS = """[NORDIF]\t\t
Software version\t3.1.2\t
\t\t
[Microscope]\t\t
Manufacturer\tHitachi\t
Model\tSU-6600\t
Magnification\t200\t#
Scan direction\tDirect\t
Accelerating voltage\t20\tkV
Working distance\t24.7\tmm
Tilt angle\t69.5\t°
\t\t
[Signal voltages]\t\t
Minimum\t0.0\tV
Maximum\t1.0\tV
\t\t
[Deflection voltages]\t\t
Minimum\t-5.5\tV
Maximum\t5.5\tV
\t\t
[Electron image]\t\t
Frame rate\t0.25\tfps
Resolution\t1200x1000\tpx
Rotation\t0\t°
Flip x-axis\tFalse\t
Flip y-axis\tFalse\t
Calibration factor\t7273\tµm/V
Tilt axis\tx-axis\t
\t\t
[Aspect ratio]\t\t
X-axis\t1.000\t
Y-axis\t1.000\t
\t\t
[EBSD detector]\t\t
Model\tUF1100\t
Port position\t90\t
Jumbo frames\tFalse\t
\t\t
[Detector angles]\t\t
Euler 1\t31\t°
Euler 2\t32\t°
Euler 3\t33\t°
Azimuthal\t2.5\t°
Elevation\t5.25\t°
\t\t
[Acquisition settings]\t\t
Frame rate\t202\tfps
Resolution\t60x50\tpx
Exposure time\t3500\tµs
Gain\t0\t
\t\t
[Calibration settings]\t\t
Frame rate\t10\tfps
Resolution\t120x100\tpx
Exposure time\t99950\tµs
Gain\t8\t
\t\t
[Specimen]\t\t
Name\tNi\t
Mounting\t1. ND||EB TD||TA\t
\t\t
[Phase 1]\t\t
Name\t\t
Pearson S.T.\t\t
IT\t\t
\t\t
[Phase 2]\t\t
Name\t\t
Pearson S.T.\t\t
IT\t\t
\t\t
[Region of interest]\t\t
\t\t
[Area]\t\t
Top\t89.200 (223)\tµm (px)
Left\t60.384 (152)\tµm (px)
Width\t10.500 (21)\tµm (px)
Height\t7.500 (15)\tµm (px)
Step size\t1.500\tµm
Number of samples\t5x7\t#
Scan time\t00:02:28\t
\t\t
[Points of interest]\t\t
\t\t
[Acquisition patterns]\t\t
Acquisition (507,500)\t507,500\tpx
Acquisition (393,501)\t393,501\tpx
Acquisition (440,448)\t440,448\tpx
\t\t
[Calibration patterns]\t\t
Calibration (425,447)\t425,447\tpx
Calibration (294,532)\t294,532\tpx
"""


def re_search(a, args, kw, s=None):
    if len(args) == 2 and all(isinstance(x, str) for x in args):
        m = re.search(*args)
        if m is None:
            return None
        return Obj(None, "match", {
            "group": Fn("group", lambda a, args, kw: m.group(*[a.const(x) for x in args])),
            "groups": Fn("groups", lambda a, args, kw: m.groups())})
    return Opaque("search", tuple(args))


def re_findall(a, args, kw, s=None):
    if len(args) == 2 and all(isinstance(x, str) for x in args):
        return list(re.findall(*args))
    return Opaque("findall", tuple(args))


def nordif_settings(proj, res: Result):
    done = set()
    m = proj.modules.get("kikuchipy.io.plugins.nordif._api")
    f = m and proj.resolve_in_module(m, "_get_settings_from_file")
    text = Obj(None, "file", {
        "read": Fn("read", lambda a, args, kw: SETTINGS), "close": Fn("close", lambda a, args, kw: None), "name": "Setting.txt",
        "readlines": Fn("readlines", lambda a, args, kw: SETTINGS.splitlines(True))})
    text.attrs["__enter__"] = Fn("enter", lambda a, args, kw: text)
    hooks = {
        **array_hooks(), "open": lambda a, args, kw, s=None: text, "builtins.open": lambda a, args, kw, s=None: text,
        "re.search": re_search, "re.findall": re_findall, "numpy.isclose": lambda a, args, kw, s=None: False,
        "os.path.join": lambda a, args, kw, s=None: "/".join(args), "os.path.dirname": lambda a, args, kw, s=None: "dir",
        "imageio.v3.imread": image, "matplotlib.pyplot.imread": image,
    }
    want = {
        "acquisition": (N(50), N(60)), "calibration": (N(100), N(120)),
    }
    q = lambda x: N(Fraction(x))  # noqa: E731
    if f is not None and hasattr(f, "params"):
        for kind, shape in want.items():
            tag = f"NORDIF setting file, {kind}"
            res.count("files_described")
            a = Alg(proj, hooks)
            a.MAX_LOOP = 200
            try:
                md, omd, size, det = a.call_func(f, ["dir/Setting.txt"], {"pattern_type": kind})
                judge(res, "settings", f"map of {tag}", [a.num(size[k]) for k in ("ny", "nx", "step_y", "step_x")],
                      [N(5), N(7), q("1.5"), q("1.5")], f.where, ("rows", "columns", "dy", "dx"))
                judge(res, "settings", f"patterns of {tag}", [a.num(size[k]) for k in ("sy", "sx")], list(shape), f.where,
                      ("rows", "columns"))
                judge(res, "settings", f"detector of {tag}",
                      [a.num(det[k]) for k in ("sample_tilt", "tilt", "azimuthal")] + [a.num(x) for x in det["shape"]],
                      [q("69.5"), q("-5.25"), q("2.5"), *shape], f.where, ("sample tilt", "tilt", "azimuthal", "rows", "columns"))
                sem = md["Acquisition_instrument"]["SEM"]
                judge(res, "settings", f"microscope of {tag}",
                      [a.num(sem[k]) for k in ("beam_energy", "magnification", "working_distance")],
                      [N(20), N(200), q("24.7")], f.where, ("energy", "magnification", "working distance"))
                check_same(res, "settings", tag, "microscope", sem.get("microscope"), "Hitachi SU-6600", f.where)
            except PyError as e:
                res.add("settings", f"{tag}", f"reading fails: {e}", f.where)
            except (*ERR, KeyError, TypeError, ValueError) as e:
                res.undecided.append(f"{tag}: {type(e).__name__} {e}")
            done |= a.functions
    f = reader_of(proj, "nordif_calibration_patterns")
    if f is None:
        res.undecided.append("no reader of NORDIF calibration patterns")
        return done
    tag = "NORDIF calibration patterns"
    res.count("files_described")
    a = Alg(proj, hooks)
    a.MAX_LOOP = 200
    try:
        # pixels are 1/3 of a step: 21 px for a width of 10.5 um, steps of 1.5 um
        m2 = proj.resolve_in_module(m, "_get_settings_from_file") if m else None
        if m2 is not None:
            omd = a.call_func(m2, ["dir/Setting.txt"], {"pattern_type": "calibration"})[1]
            for k, v in {"origin_scaled": (74, 51), "shape_scaled": (5, 7)}.items():
                judge(res, "settings", f"{k} of {tag}", [a.num(x) for x in omd["roi"][k]], [N(x) for x in v], m2.where,
                      ("row", "column"))
            judge(res, "settings", f"area of {tag}", [a.num(x) for x in (*omd["area"]["shape"], *omd["area"]["shape_scaled"])],
                  [N(1000), N(1200), N(333), N(400)], m2.where, ("rows", "columns", "scaled rows", "scaled columns"))
        d = one_scan(res, tag, a.call_func(f, ["dir/Setting.txt"], {}))
        if d is not None:
            check_axes(res, a, tag, d, [("x", N(2), None), ("dy", N(100), None), ("dx", N(120), None)], f.where)
            check_detector(res, a, tag, d, {"shape": (N(100), N(120)), "sample_tilt": q("69.5"), "tilt": q("-5.25"),
                                            "azimuthal": q("2.5")}, f.where)
            res.count("obligations")
            x = d["data"]
            w = x.attrs["what"] if isinstance(x, Obj) and x.name == "array" else None
            names = ["dir/Calibration (425,447).bmp", "dir/Calibration (294,532).bmp"]
            if not isinstance(w, tuple) or len(w) != 2:
                res.undecided.append(f"{tag}: files read are not described")
            elif list(w) != names:
                res.add("settings", f"files of {tag}", f"{list(w)}, not {names}", f.where)
            else:
                res.count("proved_equal")
            c = d["original_metadata"]["calibration_patterns"]["indices"]
            rows = [[a.num(y) for y in (r.comps if isinstance(r, Arr) else r)] for r in (c.comps if isinstance(c, Arr) else c)]
            for r, w in zip(rows, ((447, 425), (532, 294))):
                judge(res, "settings", f"indices of {tag}", r, [N(k) for k in w], f.where, ("row", "column"))
    except (*ERR, KeyError, TypeError, ValueError) as e:
        res.undecided.append(f"{tag}: {type(e).__name__} {e}")
    return done | a.functions


# ------------------------------------------------------ patterns of a folder
def grid(a, shape):
    """An array of objects, filled one by one."""
    o = Obj(None, "grid", {"shape": tuple(shape)})
    cells = {}

    def place(i):
        i = i if isinstance(i, tuple) else (i,)
        k = tuple(a.const(x) for x in i)
        if not all(isinstance(x, int) for x in k):
            raise Unsupported("place in a grid")
        return k

    def put(a, args, kw):
        cells[place(args[0])] = args[1]

    def tolist(a, args, kw):
        n = [a.const(x) for x in shape]
        if not all(isinstance(x, int) for x in n):
            raise Unsupported("grid of unknown shape")

        def rows(pre):
            if len(pre) == len(n):
                return cells.get(tuple(pre))
            return [rows(pre + [j]) for j in range(n[len(pre)])]
        return rows([])
    o.attrs.update({"__setitem__": Fn("setitem", put), "tolist": Fn("tolist", tolist),
                    "__getitem__": Fn("getitem", lambda a, args, kw: cells.get(place(args[0])))})
    return o


def block(a, args, kw, s=None):
    """Nested lists of two-dimensional arrays along axes (map rows, map columns, rows, columns)."""
    xs, n, flat = args[0], [], []

    def walk(v, depth):
        if isinstance(v, list):
            if len(n) == depth:
                n.append(len(v))
            for x in v:
                walk(x, depth + 1)
        else:
            flat.append(v)
    walk(xs, 0)
    if len(n) < 2 or any(k != 1 for k in n[-2:]) or not all(isinstance(x, Obj) and x.name == "array" for x in flat):
        return Opaque("block", (xs,))
    return array(tuple(x.attrs["what"] for x in flat), tuple(N(k) for k in n[:-2]) + flat[0].attrs["shape"], (), True)


def empty(a, args, kw, s=None):
    dt = kw.get("dtype", args[1] if len(args) > 1 else None)
    if isinstance(dt, External) and dt.dotted.split(".")[-1] == "object" and isinstance(args[0], tuple):
        return grid(a, args[0])
    if isinstance(args[0], tuple) and dtype_name(a, dt) is None and dt is not None:
        o = array("empty", args[0])
        return o
    h = a.hooks.pop("numpy.empty")
    try:
        return a.external("numpy.empty", args, kw, None)
    finally:
        a.hooks["numpy.empty"] = h


def filled(x):
    """Give a lazy array a store() which writes it into another."""
    def store(a, args, kw):
        t = args[0]
        if not (isinstance(t, Obj) and t.name == "array"):
            raise Unsupported("store()")
        judge_shape = [a.num(p).eq(a.num(q)) for p, q in zip(t.attrs["shape"], x.attrs["shape"])]
        if len(t.attrs["shape"]) != len(x.attrs["shape"]) or not all(judge_shape):
            raise PyError("shapes of store() differ")
        t.attrs["what"], t.attrs["ops"] = x.attrs["what"], x.attrs["ops"]
    x.attrs["store"] = Fn("store", store)
    return x


FOLDERS = {
    "x and y in names": (["dir/p_x4y7.tif", "dir/p_x1y9.tif", "dir/p_x1y7.tif", "dir/p_x1y8.tif", "dir/p_x4y9.tif",
                          "dir/p_x4y8.tif"], None, "dir/*.tif"),
    "given expression": (["dir/q4_9.tif", "dir/q1_7.tif", "dir/q1_9.tif", "dir/q4_8.tif", "dir/q4_7.tif", "dir/q1_8.tif"],
                         r"q(\d+)_(\d+).tif", "dir/*.tif"),
    "numbers in names": (["dir/p-10-7.bmp", "dir/p-9-9.bmp", "dir/p-9-7.bmp", "dir/p-9-8.bmp", "dir/p-10-9.bmp",
                          "dir/p-10-8.bmp"], None, "dir/*.bmp"),
    "no coordinates": (["dir/b.tif", "dir/c.tif", "dir/a.tif"], None, "dir/*.tif"),
    "a missing pattern": (["dir/p_x4y7.tif", "dir/p_x1y9.tif", "dir/p_x1y7.tif", "dir/p_x1y8.tif", "dir/p_x4y9.tif"],
                          None, "dir/*.tif"),
}


def ebsd_directory(proj, res: Result):
    f = reader_of(proj, "ebsd_directory")
    done = set()
    if f is None:
        res.undecided.append("no reader of a directory")
        return done
    for how, (files, pattern, name) in FOLDERS.items():
        for lazy in (False, True):
            tag = f"a folder, {how}" + (", lazy" if lazy else "")
            res.count("files_described")
            by_order = sorted(files)

            def imread(a, args, kw, s=None):
                return array(args[0], (SY, SX)) if isinstance(args[0], str) else Given("image", "array")

            def delayed(a, args, kw, s=None):
                return Fn("delayed", lambda a, x, k, g=args[0]: a.call(g, list(x), k, None))
            b = array_hooks()
            h = {
                **b, "glob.glob": lambda a, args, kw, s=None, x=files: list(x),
                "os.path.splitext": lambda a, args, kw, s=None: (args[0].rpartition(".")[0], "." + args[0].rpartition(".")[2]),
                "re.search": re_search, "imageio.v3.imread": imread, "dask.delayed": delayed, "dask.delayed.delayed": delayed,
                "dask.array.from_delayed": lambda a, args, kw, s=None: args[0],
                "dask.array.stack": lambda a, args, kw, s=None: filled(stacked(a, args, kw)),
                "dask.array.block": lambda a, args, kw, s=None: filled(block(a, args, kw)), "numpy.empty": empty,
            }
            a = Alg(proj, h)
            try:
                d = one_scan(res, tag, a.call_func(f, [name], {"xy_pattern": pattern, "lazy": lazy}))
                if d is None:
                    continue
                if how in ("no coordinates", "a missing pattern"):
                    want, order = [("x", N(len(files)), None)], by_order
                else:
                    def at(n):
                        return tuple(map(int, re.search(r"(\d+)\D+(\d+)\.", n).groups()))
                    want = [("y", N(3), None), ("x", N(2), None)]
                    order = sorted(files, key=lambda n: at(n)[::-1])
                check_axes(res, a, tag, d, want + [("dy", SY, None), ("dx", SX, None)], f.where)
                x = d["data"]
                w = x.attrs["what"] if isinstance(x, Obj) and x.name == "array" else None
                res.count("obligations")
                if not isinstance(w, tuple) or not all(isinstance(n, str) for n in w):
                    res.undecided.append(f"{tag}: order of the patterns not described")
                elif list(w) != order:
                    res.add("folder", f"order of patterns of {tag}", f"{list(w)}, not {order}", f.where)
                else:
                    res.count("proved_equal")
            except (*ERR, KeyError, TypeError, ValueError) as e:
                res.undecided.append(f"{tag}: {type(e).__name__} {e}")
            done |= a.functions
    return done


def image(a, args, kw, s=None):
    n = args[0]
    if isinstance(n, str) and "Calibration (" in n:
        return array(n, (N(100), N(120)))
    return Given("background", "array")


def scan(proj, ctx: Ctx, res: Result):
    seen = h5ebsd(proj, res) | edax_binary(proj, res) | nordif(proj, res) | oxford_binary(proj, res) | oxford_order(proj, res) | emsoft_ebsd(proj, res) \
        | emsoft_master_patterns(proj, res) | nordif_settings(proj, res) | ebsd_directory(proj, res)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"io/__init__.py": "", "io/plugins/__init__.py": "", "io/plugins/ebsd_directory/__init__.py": "",
            "io/plugins/nordif/__init__.py": "", "io/plugins/ebsd_directory/_api.py": '''
import glob
import dask
import dask.array as da
import imageio.v3 as iio

def file_reader(filename, xy_pattern=None, show_progressbar=None, lazy=False):
    names = glob.glob(filename)
    data = da.stack([dask.delayed(iio.imread)(n) for n in names])
    axes = [{"name": n, "size": data.shape[i], "index_in_array": i} for i, n in enumerate(("x", "dx", "dy"))]
    return [{"data": data, "axes": axes}]
''', "io/plugins/nordif/_api.py": '''
def _get_settings_from_file(filename, pattern_type="acquisition"):
    f = open(filename)
    lines = f.read().splitlines()
    f.close()
    n = [i for i, x in enumerate(lines) if x.startswith("[" + pattern_type.capitalize())][0]
    sx, sy = lines[n + 2].split("\\t")[1].split("x")
    size = {"ny": 5, "nx": 7, "step_y": 1.5, "step_x": 1.5, "sx": int(sy), "sy": int(sx)}
    sem = {"beam_energy": float(20), "magnification": 200, "working_distance": 24.7, "microscope": "Hitachi SU-6600"}
    det = {"shape": (int(sy), int(sx)), "tilt": -5.25, "sample_tilt": 69.5, "azimuthal": 2.5}
    return {"Acquisition_instrument": {"SEM": sem}}, {}, size, det
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C22",
        explanation=(
            "value numbering of every reader of another program's files over a described file (an HDF5 tree, bytes at positions, "
            "lines of a setting file, images of a folder) whose quantities are symbols: the shape, order, data type and place of "
            "the patterns, the names, sizes and scales of the axes, the crystal map, the detector, the static background and the "
            "microscope's settings in what is returned are compared with those of the file"
        ),
        assumptions=["the layouts of the vendors' files are those written in this rule",
                     "axes of size one are left out; map sizes 1 and larger ones stand for all sizes"],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C22")
    ebsd_directory(proj, r)
    nordif_settings(proj, r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    want = ("folder:order of patterns of a folder, no coordinates", "names of the axes of a folder",
            "patterns of NORDIF setting file, acquisition")
    quiet = ("detector of NORDIF setting file", "microscope of NORDIF setting file")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}; {r.undecided})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
