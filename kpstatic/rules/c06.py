"""C06: a signal saved to kikuchipy's own file format is read back the same."""

from __future__ import annotations

import ast

from .. import poly as Q
from ..alg import Alg, Arr, Attr, Dict, External, Fn, Given, Head, Obj, Opaque, Text, View, key
from ..algtools import DETECTOR, ERR, judge, make, symbols
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from

P = [sym("PCx"), sym("PCy"), sym("PCz")]
SEM = ("beam_energy", "magnification", "microscope", "working_distance")
PARAMS = {
    "px_size": "px_size", "binning": "binning", "tilt": "tilt", "azimuthal": "azimuthal", "twist": "twist",
    "sample_tilt": "sample_tilt", "pcx": "pcx", "pcy": "pcy", "pcz": "pcz", "nrows": "number of rows",
    "ncols": "number of columns",
}


# --------------------------------------------------------------- file model
class File:
    """The tree of groups and datasets of an HDF5 file."""

    def __init__(self):
        self.tree: dict = {}

    def part(self, a, x):
        if isinstance(x, Text):
            return ["<scan>"]
        c = a.const(x)
        return [p for p in c.split("/") if p] if isinstance(c, str) else ["<unknown>"]

    def at(self, path):
        d = self.tree
        for p in path:
            if not isinstance(d, dict) or p not in d:
                return None
            d = d[p]
        return d

    def put(self, path, value):
        d = self.tree
        for p in path[:-1]:
            d = d.setdefault(p, {})
        if path:
            d[path[-1]] = value

    def handle(self, path):
        o = Obj(None, "/" + "/".join(path))

        def create_group(a, args, kw):
            p = list(path) + self.part(a, args[0] if args else kw["name"])
            if self.at(p) is None:
                self.put(p, {})
            return self.handle(p)

        def getitem(a, args, kw):
            p = list(path) + self.part(a, args[0])
            v = self.at(p)
            return self.handle(p) if v is None or isinstance(v, dict) else v

        def contains(a, args, kw):
            return self.at(list(path) + self.part(a, args[0])) is not None

        def create_dataset(a, args, kw):
            k = args[0] if args else kw["name"]
            self.put(list(path) + self.part(a, k), kw.get("data", args[3] if len(args) > 3 else None))

        def nothing(a, args, kw):
            return None
        o.attrs.update({
            "create_group": Fn("create_group", create_group), "require_group": Fn("create_group", create_group),
            "__getitem__": Fn("getitem", getitem), "__contains__": Fn("contains", contains),
            "create_dataset": Fn("create_dataset", create_dataset), "close": Fn("close", nothing),
            "flush": Fn("flush", nothing), "name": "/Scan 1", "path": tuple(path),
        })
        return o


def as_dict(v):
    if isinstance(v, dict) and not isinstance(v, Dict):
        return Dict({k: as_dict(x) for k, x in v.items()})
    return v


def hooks(file: File, compatible=True):
    def write(a, args, kw, s):
        names = ("dictionary", "group")
        d, g = (args[i] if len(args) > i else kw[n] for i, n in enumerate(names))

        def put(path, x):
            if isinstance(x, Dict):
                if file.at(path) is None:
                    file.put(path, {})
                for k, v in x.items():
                    put(path + [k], v)
            else:
                file.put(path, x)
        put(list(g.attrs["path"]), d)

    def read(a, args, kw, s):
        g = args[0] if args else kw["group"]
        if not isinstance(g, Obj):
            return g
        v = file.at(g.attrs["path"])
        if v is None:
            raise KeyError("/".join(g.attrs["path"]))
        return as_dict(v)

    def overwrite(a, args, kw, s):
        g = args[0] if args else kw["group"]
        d = kw.get("data", args[1] if len(args) > 1 else None)
        k = kw.get("key", args[2] if len(args) > 2 else None)
        file.put(list(g.attrs["path"]) + [k], d)
    return {
        "_dict2hdf5group": write, "_hdf5group2dict": read, "rsciio.hspy._api.overwrite_dataset": overwrite,
        "h5py.File": lambda a, args, kw, s: file.handle([]),
        "_xmap_is_compatible_with_signal": lambda a, args, kw, s: compatible,
        "os.path.isfile": lambda a, args, kw, s: False,
        "warnings.warn": lambda a, args, kw, s: None,
        "get_metadata_filename_title": lambda a, args, kw, s: (Given("filename"), Given("title")),
    }


# ------------------------------------------------------------------ signals
def axis(name, size, scale):
    return Obj(None, f"axis {name}", {"name": name, "size": Num.const(size), "scale": scale, "offset": Num.const(0),
                                      "units": "um"})


def signal(det, nav, bg):
    """A signal with navigation axes `nav` in the order of the array."""
    ny, nx = symbols()["shape"]
    navs = tuple(axis(n, s, sym(f"step_{n}")) for n, s in nav)
    sig = (Obj(None, "axis dy", {"name": "dy", "size": ny, "scale": sym("scale_dy")}),
           Obj(None, "axis dx", {"name": "dx", "size": nx, "scale": sym("scale_dx")}))
    am = Obj(None, "axes_manager", {
        "navigation_axes": navs[::-1], "navigation_dimension": Num.const(len(nav)),
        "navigation_shape": tuple(a.attrs["size"] for a in navs[::-1]),
        "navigation_size": Num.const(_prod(s for _, s in nav)),
        "signal_axes": sig[::-1], "signal_shape": (nx, ny), "signal_dimension": Num.const(2),
    })
    md = Obj(None, "metadata", {"as_dictionary": Fn("as_dictionary", lambda a, args, kw: Dict({
        "Acquisition_instrument": Dict({"SEM": Dict({k: Given(k) for k in SEM})})}))})
    return Obj(None, "signal", {
        "axes_manager": am, "detector": det, "static_background": bg, "xmap": Given("xmap", "array"),
        "data": Given("data", "array"), "metadata": md, "_lazy": False,
    })


def _prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def base_of(v):
    """(array, last shape given to it) below reshapes and conversions."""
    shape = None
    while isinstance(v, Opaque) and not isinstance(v, Given):
        if v.fn == "method":
            o, name, args, _ = v.args
            if name == "reshape":
                if shape is None:
                    shape = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
            elif name not in ("squeeze", "astype", "copy"):
                return v, shape
            v = o
        elif v.fn == "call" and isinstance(v.args[0], str) and v.args[0].split(".")[-1] in (
                "asarray", "asanyarray", "array", "from_array", "squeeze") and v.args[1]:
            v = v.args[1][0]
        else:
            break
    return v, shape


def find(proj, suffix, base=None):
    out = []
    for c in proj.classes.values():
        if c.name.endswith(suffix) and (base is None or proj.lookup(c, base)):
            out.append(c)
    return out


def kikuchipy_file(proj):
    """(writer class, reader class): in one module, writing with
    _dict2hdf5group."""
    for w in proj.classes.values():
        if "write" not in w.methods:
            continue
        for r in proj.classes.values():
            if r.module is w.module and "scan2dict" in r.methods:
                return w, r
    return None


def entry(v, *ks):
    for k in ks:
        if not isinstance(v, dict) or k not in v:
            return None
        v = v[k]
    return v


NAVS = {
    "a map": (("y", 5), ("x", 7)), "a line along x": (("x", 7),), "a line along y": (("y", 5),),
    "a single pattern": (),
}


def round_trip(proj, res: Result, wcls, rcls, det_cls, nav_name, bg_name, lazy):
    nav = NAVS[nav_name]
    ny_, nx_ = dict(nav).get("y", 1), dict(nav).get("x", 1)
    file = File()
    h = hooks(file)
    _, det = make(proj, det_cls, P, "bruker")
    bg = {"a static background": Given("static_background", "array"), "no static background": None}[bg_name]
    tag = f"{nav_name} with {bg_name}" + (", lazy" if lazy else "")
    a = Alg(proj, h)
    w = a.construct(wcls, [Given("filename"), signal(det, nav, bg)], {})
    a.call(a.attr(w, "write", None), [], {}, None)
    scans = [k for k, v in file.tree.items() if isinstance(v, dict)]
    if len(scans) != 1:
        res.undecided.append(f"{tag}: scans written {scans}")
        return set()
    scan = file.handle([scans[0]])
    r = Obj(rcls, "reader", {"filename": Given("filename"), "manufacturer": "kikuchipy", "version": Given("version"),
                             "file": file.handle([])})
    wrote = a.functions
    wwhere, rwhere = proj.lookup(wcls, "write").where, proj.lookup(rcls, "scan2dict").where
    try:
        d = a.call(a.attr(r, "scan2dict", None), [scan], {"lazy": lazy}, None)
    except KeyError as e:
        res.add("read-what-was-written", f"{rcls.name}.scan2dict: {e.args[0]}",
                f"reads {e.args[0]}, which is not written", rwhere)
        return wrote
    if not isinstance(d, Dict):
        res.undecided.append(f"{tag}: what is read is not described")
        return wrote
    # --- detector
    out = d.get("detector")
    if not isinstance(out, Obj) or out.cls is not det_cls:
        res.undecided.append(f"{tag}: detector read is not described")
    else:
        for k, what in PARAMS.items():
            got, want = a.attr(out, k, None), a.attr(det, k, None)
            judge(res, "detector", f"{what} of the detector", [a.num(got)], [a.num(want)], rwhere, (tag,))
    # --- static background
    res.count("obligations")
    if "static_background" not in d:
        res.add("static-background", f"{rcls.name}: static_background", f"not read back for {tag}", rwhere)
    else:
        same(res, a, "static-background", f"{bg_name}", d["static_background"], bg, rwhere)
    # --- patterns
    res.count("obligations")
    b, shape = base_of(d.get("data"))
    if not (isinstance(b, Given) and b.fn == "data"):
        res.undecided.append(f"{tag}: patterns read: {b!r}"[:200])
    else:
        res.count("proved_equal")
        ys, xs = symbols()["shape"]
        if shape is None:
            res.undecided.append(f"{tag}: shape of the patterns not described")
        elif len(shape) != 4:
            res.undecided.append(f"{tag}: shape of the patterns has {len(shape)} parts")
        else:
            judge(res, "patterns", f"shape of the patterns of {nav_name}", [a.num(x) for x in shape],
                  [Num.const(ny_), Num.const(nx_), ys, xs], rwhere, ("map rows", "map columns", "rows", "columns"))
    # --- navigation axes
    axes = d.get("axes")
    if not isinstance(axes, (list, tuple)) or not all(isinstance(x, Dict) for x in axes):
        res.undecided.append(f"{tag}: axes read are not described")
    else:
        names = [a.const(x.get("name")) for x in axes]
        want = [n for n, _ in nav] + ["dy", "dx"]
        res.count("obligations")
        if names == want:
            res.count("proved_equal")
            for (n, s), x in zip(nav, axes):
                judge(res, "axes", f"axis {n} of {nav_name}", [a.num(x["scale"]), a.num(x["size"])],
                      [sym(f"step_{n}"), Num.const(s)], rwhere, ("scale", "size"))
            for i, x in enumerate(axes):
                judge(res, "axes", f"place of axis {want[i]} of {nav_name}", [a.num(x["index_in_array"])], [Num.const(i)], rwhere,
                      ("index",))
        elif None in names:
            res.undecided.append(f"{tag}: names of the axes not described")
        else:
            res.add("axes", f"names of the axes of {nav_name}", f"read back as {names}, not {want}", rwhere)
    # --- crystal map
    x = d.get("xmap")
    want = Opaque("call", ("orix.io.plugins.orix_hdf5.dict2crystalmap", (Opaque(
        "call", ("orix.io.plugins.orix_hdf5.crystalmap2dict", (Given("xmap", "array"),), Dict())),), Dict()))
    res.count("obligations")
    if isinstance(x, Opaque) and Q.same(key(x), key(want)):
        res.count("proved_equal")
    elif mentions(x, "xmap"):
        res.undecided.append(f"{tag}: crystal map read is not described")
    else:
        res.add("crystal-map", f"crystal map of {nav_name}", "the crystal map read is not made from the one saved", rwhere)
    # --- microscope parameters
    sem = entry(d, "metadata", "Acquisition_instrument", "SEM")
    for k in SEM:
        res.count("obligations")
        got = entry(sem, k)
        if got is None:
            if isinstance(sem, Dict):
                res.add("microscope", f"{k}", "not among the metadata read", rwhere)
            else:
                res.undecided.append(f"{tag}: metadata read is not described")
        else:
            same(res, a, "microscope", k, got, Given(k), rwhere)
    return a.functions


def same(res, a, rule, construct, got, want, where):
    if got is want or got is not None and want is not None and Q.same(key(got), key(want)):
        res.count("proved_equal")
        return
    sure = (Num, str, bool, Given)
    if (want is None or got is None) and isinstance(got, (*sure, type(None))) or isinstance(got, sure):
        res.add(rule, construct, f"saved as {want!r}, read back as {got!r}", where)
        return
    res.undecided.append(f"{rule} {construct}: {got!r}"[:200])


def mentions(v, name, depth=0):
    if depth > 12:
        return True
    if isinstance(v, Given):
        return v.fn == name
    if isinstance(v, Opaque):
        return any(mentions(x, name, depth + 1) for x in v.args)
    if isinstance(v, (list, tuple)):
        return any(mentions(x, name, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, name, depth + 1) for x in v.values())
    if isinstance(v, Num):
        return name in repr(v)
    return False


# ------------------------------------------------ nothing is left out midway
def leaves(body):
    """Statements ending the loop early (not the program)."""
    for s in body:
        if isinstance(s, (ast.Break, ast.Return)):
            yield s
        elif isinstance(s, (ast.For, ast.While)):
            for x in leaves(s.body):
                if isinstance(x, ast.Return):
                    yield x
            yield from leaves(s.orelse)
        else:
            for f in ("body", "orelse", "finalbody"):
                yield from leaves(getattr(s, f, []) or [])
            for h in getattr(s, "handlers", []) or []:
                yield from leaves(h.body)


def item_loops(f):
    """Loops over the items of a mapping or group given to a function."""
    for n in ast.walk(f.node):
        if isinstance(n, ast.For):
            it = n.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ("items", "keys") \
                    and isinstance(it.func.value, ast.Name) and it.func.value.id in f.param_names:
                yield n
            elif isinstance(it, ast.Name) and it.id in f.param_names:
                yield n


def scan(proj, ctx: Ctx, res: Result):
    seen = set()
    for f in proj.all_funcs():
        if f.name not in ("_dict2hdf5group", "_hdf5group2dict") or f.parent is not None:
            continue
        for loop in item_loops(f):
            res.count("loops_over_entries")
            for s in leaves(loop.body):
                res.add("entries-dropped", f"{f.name}",
                        f"the loop over the entries is left at line {s.lineno}: entries after that one are dropped", f.where)
    pair = kikuchipy_file(proj)
    det = next((c for c in proj.classes.values() if c.name == DETECTOR), None)
    if pair is None or det is None:
        res.undecided.append("no writer and reader in one module")
        return
    for nav in NAVS:
        for bg in ("a static background", "no static background"):
            for lazy in (False, True):
                res.count("round_trips")
                try:
                    seen |= round_trip(proj, res, *pair, det, nav, bg, lazy)
                except ERR as e:
                    res.undecided.append(f"{nav}, {bg}: {type(e).__name__} {e}")
                except KeyError as e:
                    res.undecided.append(f"{nav}, {bg}: no {e}")
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import numpy as np
import h5py
from orix.io.plugins.orix_hdf5 import crystalmap2dict, dict2crystalmap


def _dict2hdf5group(dictionary, group, **kwargs):
    for key, val in dictionary.items():
        if isinstance(val, dict):
            _dict2hdf5group(val, group.create_group(key))
            break
        group.create_dataset(key, val)


def _hdf5group2dict(group, recursive=False):
    out = {}
    for key, val in group.items():
        if val is None:
            continue
        out[key] = val
    return out


class EBSDDetector:
    def __init__(self, shape=(1, 1), px_size=1.0, binning=1, tilt=0.0, azimuthal=0.0, twist=0.0, sample_tilt=70.0,
                 pc=(0.5, 0.5, 0.5), convention="bruker"):
        self.nrows, self.ncols = shape
        self.px_size = px_size
        self.binning = binning
        self.tilt, self.azimuthal, self.twist, self.sample_tilt = tilt, azimuthal, twist, sample_tilt
        self.pcx, self.pcy, self.pcz = (pc[..., i] for i in range(3))


class Reader:
    def scan2dict(self, group, lazy=False):
        h = _hdf5group2dict(group["EBSD/Header"])
        ny, nx = h["ny"], h["nx"]
        sy, sx = h["sy"], h["sx"]
        shape, names, steps = [sy, sx], ["dy", "dx"], [1, 1]
        if nx > 1:
            shape, names, steps = [nx] + shape, ["x"] + names, [h["step_y"]] + steps
        if ny > 1:
            shape, names, steps = [ny] + shape, ["y"] + names, [h["step_y"]] + steps
        det = EBSDDetector((sy, sx), h["px"], h.get("binning", 1), h["tilt"], h["azimuthal"], h.get("twist", 0), h["sample_tilt"],
                           np.stack((h["pcx"], h["pcz"], h["pcz"]), axis=-1))
        data = group["EBSD/Data/patterns"].reshape((nx, ny, sy, sx)).squeeze()
        sem = _hdf5group2dict(group["SEM/Header"])
        bg = h["bg"]
        return {
            "data": data, "detector": det, "static_background": bg,
            "xmap": dict2crystalmap(_hdf5group2dict(group["EBSD/CrystalMap/crystal_map"])),
            "axes": [{"size": s, "index_in_array": i, "name": n, "scale": d}
                     for i, (s, n, d) in enumerate(zip(shape, names, steps))],
            "metadata": {"Acquisition_instrument": {"SEM": sem}},
        }


class Writer:
    def __init__(self, filename, signal):
        self.signal = signal
        self.file = h5py.File(filename, mode="w")

    def write(self):
        s = self.signal
        am = s.axes_manager
        n, d = {"x": 1, "y": 1}, {"x": 1, "y": 1}
        for a in am.navigation_axes:
            n[a.name] = a.size
            d[a.name] = a.scale
        sx, sy = am.signal_shape
        g = self.file.create_group("Scan 1")
        e = g.create_group("EBSD")
        data = e.create_group("Data")
        data.create_dataset("patterns", data=s.data.reshape(n["x"] * n["y"], sy, sx))
        _dict2hdf5group({"crystal_map": crystalmap2dict(s.xmap)}, e.create_group("CrystalMap"))
        det = s.detector
        bg = s.static_background
        _dict2hdf5group({
            "ny": n["y"], "nx": n["x"], "sy": sy, "sx": sx, "step_x": d["x"], "step_y": d["y"], "pcx": det.pcx,
            "pcy": det.pcy, "pcz": det.pcz, "px": det.px_size, "binning": det.binning, "tilt": det.azimuthal,
            "azimuthal": det.azimuthal, "sample_tilt": det.sample_tilt, "bg": 0 if bg is None else bg,
        }, e.create_group("Header"))
        sem = s.metadata.as_dictionary().get("Acquisition_instrument", {}).get("SEM", {})
        _dict2hdf5group({k: sem.get(k, 0) for k in ("beam_energy", "magnification", "microscope")},
                        g.create_group("SEM/Header"))
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C06",
        explanation=(
            "value numbering through the writer and then the reader of kikuchipy's h5ebsd format: a signal with symbolic "
            "detector parameters, axes, background, crystal map and metadata is followed into the tree of groups and "
            "datasets and from there into what the reader returns; each part must be the one saved; loops writing or reading "
            "the entries of a group are never left early"
        ),
        assumptions=["h5py gives back the datasets written under a path", "orix's crystalmap2dict/dict2crystalmap are inverse"],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C06")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    want = ("entries-dropped:_dict2hdf5group", "detector:twist", "detector:tilt", "detector:pcy", "static-background:no static",
            "patterns:shape of the patterns of a map", "axes:axis x of a map", "microscope:working_distance")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}; {r.undecided[:4]})")
    quiet = ("_hdf5group2dict", "detector:px_size", "detector:pcx", "detector:azimuthal", "axes:axis y", "axes:names",
             "crystal-map", "microscope:beam", "static-background:a static", "of a single pattern")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
