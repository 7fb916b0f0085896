"""C52: virtual backscatter electron images hold what the detector region
asked for received.

VirtualBSEImager and the signal's own method are interpreted for a few
detectors and grids of tiles; the detector's axes have any scale and offset
and patterns hold any numbers.  HyperSpy's regions of interest select by the
value along an axis, as its source does.
"""

from __future__ import annotations

import itertools

from .. import poly as Q
from ..alg import Arr, Class, Dict, Fn, Obj, Opaque, PyError, Raises, Unsupported
from ..grid import GAlg, Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from .c43 import described
from .c50 import compare, same, told

F = Q.Fraction
F64 = DType("float64")
ROI = "roi"
MARKERS = ("HorizontalLines", "VerticalLines", "Texts", "Rectangles")


class Engine(GAlg):
    def __init__(self, proj, nav=(2, 2), hooks=None):
        h = {}
        for m in ("hyperspy.api.", "hyperspy."):
            h[m + "roi.RectangularROI"] = rectangle
            for k in MARKERS:
                h[f"{m}api.plot.markers.{k}"] = h[f"{m}plot.markers.{k}"] = marker(k)
        super().__init__(proj, {**h, "hyperspy.api.preferences": lambda A, a, k, s: Opaque("preferences"), **(hooks or {})})
        self.nav = nav

        for k in ("dtype_range[]", "dtype.dtype_range[]"):
            self.hooks["skimage.util." + k] = depth

    def construct(self, c: Class, args, kwargs):
        if c.name in ("VirtualBSEImage", "LazyVirtualBSEImage"):
            return image(self, c, args[0] if args else kwargs["data"])
        return super().construct(c, args, kwargs)

    def call(self, f, args, kwargs, fr):
        if isinstance(f, Obj) and f.name == ROI:
            kw = dict(zip(("signal", "out", "axes"), args))
            kw.update(kwargs)
            return region(self, f, kw["signal"], kw.get("axes"))
        return super().call(f, args, kwargs, fr)

    def setattr(self, o, name, v):
        st = self.proj.lookup(o.cls, name, setter=True) if o.cls is not None else None
        if st is None:
            o.attrs[name] = v
        else:
            self.call_func(st, [v], {}, self_=o)

    def isinst(self, v, c):
        v = self.deref(v)
        cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
        names = [str(getattr(x, "dotted", getattr(x, "name", ""))).split(".")[-1] for x in cs]
        if isinstance(v, Obj) and "kind" in v.attrs:
            if any(n in ("Signal2D", "BaseSignal", "VirtualBSEImage") for n in names):
                return v.attrs["kind"] == "image"
            return any(n in ("RectangularROI", "BaseInteractiveROI", "BaseROI") for n in names) and v.name == ROI
        return super().isinst(v, c)

    def external(self, d, args, kwargs, fr):
        if d in ("numpy.zeros", "numpy.empty"):
            kind = kwargs.get("dtype", args[1] if len(args) > 1 else None)
            n = self.items(args[0]) if isinstance(args[0], (tuple, list)) else [args[0]]
            if str(getattr(kind, "dotted", kind)).split(".")[-1] == "object" and len(n) == 1:
                return [None if d.endswith("empty") else Q.ZERO] * self.const(n[0])
        if d == "str" and len(args) == 1 and isinstance(args[0], Num) and args[0].value is not None and args[0].value.denominator == 1:
            return str(args[0].value)
        if d in ("numpy.array", "numpy.asarray", "numpy.asanyarray") and args and isinstance(args[0], (list, tuple)) and all(
                isinstance(x, str) for x in args[0]) and args[0]:
            return list(args[0])
        if d in ("numpy.percentile", "numpy.nanpercentile"):
            kw = {**dict(zip(("a", "q"), args)), **kwargs}
            g = self.deref(kw["a"])
            if isinstance(g, Grid) and kw.get("axis") is None:
                q = kw["q"]
                qs = self.items(q) if isinstance(self.deref(q), (tuple, list, Grid)) else None
                out = [Num.of(Q.atom("percentile", (self.num(x), *sorted(g.cells, key=repr)))) for x in (qs or [q])]
                return out[0] if qs is None else Grid((len(out),), out, F64)
        if d == "numpy.iinfo":
            lo, hi = depth(self, args[0])
            n = {255: 1, 65535: 2, 2 ** 32 - 1: 4}[int(hi.value)]
            return Obj(None, "iinfo", {"max": hi, "min": lo, "bits": Num.const(8 * n), "dtype": Obj(None, "dtype", {
                "itemsize": Num.const(n)})})
        if d == "hasattr" and isinstance(self.deref(args[0]), Obj) and self.deref(args[0]).name == ROI:
            return args[1] in self.deref(args[0]).attrs
        return super().external(d, args, kwargs, fr)


def depth(A, d):
    d = A.dtype_name(d)
    top = {"uint8": 255, "uint16": 65535, "uint32": 2 ** 32 - 1}.get(d)
    if top is None:
        return sym(f"lowest({d})"), sym(f"highest({d})")
    return Q.ZERO, Num.const(top)


def rectangle(A, args, kwargs, s):
    kw = dict(zip(("left", "top", "right", "bottom"), args))
    kw.update(kwargs)
    return Obj(None, ROI, {**{k: A.num(kw[k]) for k in ("left", "top", "right", "bottom")}, "kind": "roi"})


def marker(kind):
    names = {"HorizontalLines": ("offsets",), "VerticalLines": ("offsets",), "Texts": ("offsets",),
             "Rectangles": ("offsets", "widths", "heights", "angles")}[kind]

    def f(A, args, kwargs, s):
        return Obj(None, "marker", {"marker": kind, "arguments": Dict({**dict(zip(names, args)), **kwargs})})
    return f


def axis(name, size, scale, offset):
    return Obj(None, "axis", {"name": name, "size": Num.const(size), "scale": scale, "offset": offset, "units": "units of " + name,
                              "navigate": False, "low_value": offset,
                              "high_value": offset.add(scale.mul(Num.const(size - 1)))})


def index_of(ax, v, edge):
    """Index of a value along an axis (BaseROI._make_slices)."""
    n = ax.attrs["size"].value
    i = v.sub(ax.attrs["offset"]).div(ax.attrs["scale"]).value
    if i is None:
        raise Outside(f"{v!r} is no place along the axis {ax.attrs['name']}")
    if i < 0:
        return 0
    if i > n - 1:
        if not edge:
            raise Outside(f"index {i} is out of the limits of the axis {ax.attrs['name']}")
        return n
    return round(i)


class Outside(PyError):
    pass


def region(A, roi, signal, axes):
    am = signal.attrs["axes_manager"].attrs
    if axes is not None:
        axes = A.items(axes)
        axes = [A.deref(x) for x in axes]
        if sorted(map(id, axes)) != sorted(map(id, am["signal_axes"])):
            raise Unsupported("region along other axes")
    x, y = am["signal_axes"]
    ranges = dict(zip((id(a) for a in axes or (x, y)), ((roi.attrs["left"], roi.attrs["right"]), (roi.attrs["top"], roi.attrs["bottom"]))))
    l, r, t, b = (index_of(a, ranges[id(a)][k], bool(k)) for a in (x, y) for k in (0, 1))
    o = Obj(None, "region", {"axes_manager": signal.attrs["axes_manager"], "kind": "region"})
    for how in ("sum", "nansum", "mean", "nanmean", "max", "min"):
        def total(A, args, kwargs, how=how.removeprefix("nan")):
            got = args[0] if args else kwargs.get("axis")
            if sorted(id(A.deref(v)) for v in A.items(got)) != sorted((id(x), id(y))):
                raise Unsupported("sum over other axes")
            return image(A, None, intensity(A.nav, t, b, l, r, how))
        o.attrs[how] = Fn(how, total)
    return o


def intensity(nav, t, b, l, r, how="sum"):
    """Image of the pixels in rows t to b, columns l to r."""
    return Grid(nav, [sym(f"{how}[{t}:{b}, {l}:{r}] at {p}") for p in itertools.product(*map(range, nav))], DType("float64"))


def image(A, cls, data):
    g = A.deref(data)
    o = Obj(cls, "image", {"data": g, "kind": "image", "log": []})
    ax = [Obj(None, "new axis", {"name": "none", "scale": Q.ONE, "units": "none", "offset": Q.ZERO}) for _ in range(2)]
    o.attrs["axes_manager"] = Obj(None, "axes_manager", {
        "signal_dimension": Num.const(2), "signal_axes": tuple(ax), "navigation_dimension": Num.const(2)})
    o.attrs["metadata"] = Obj(None, "metadata", {"General": Obj(None, "General", {"title": ""})})

    def note(name, result=False):
        def f(A, args, kwargs):
            o.attrs["log"].append((name, tuple(args), tuple(sorted(kwargs.items(), key=str))))
            return o if result else None
        return Fn(name, f)
    o.attrs.update({"set_signal_type": note("set_signal_type"), "change_dtype": note("change_dtype"),
                    "transpose": note("transpose", True)})
    return o


def signal(cls, shape, nav):
    o = Obj(cls, "s")
    rows, cols = shape
    x, y = axis("x", cols, sym("dx", "pos"), sym("ox")), axis("y", rows, sym("dy", "pos"), sym("oy"))
    names = ("nav x", "nav y", "nav z")
    navs = tuple(axis(n, k, sym("step " + n, "pos"), sym("start " + n)) for n, k in zip(names, nav[::-1]))
    o.attrs.update({"_lazy": False, "axes_manager": Obj(None, "axes_manager", {
        "signal_shape": (Num.const(cols), Num.const(rows)), "signal_dimension": Num.const(2), "signal_axes": (x, y),
        "navigation_shape": tuple(Num.const(n) for n in nav[::-1]), "navigation_dimension": Num.const(len(nav)),
        "navigation_axes": navs})})

    def inav(A, args, kwargs):
        p = Obj(None, "pattern", {"place": args[0]})
        p.attrs["markers"] = []
        p.attrs["add_marker"] = Fn("add_marker", lambda A, a, k: p.attrs["markers"].extend(A.items(a[0])))
        return p
    o.attrs["inav"] = Obj(None, "inav", {"__getitem__": Fn("inav", inav)})
    return o


# -------------------------------------------------------------- definition
REFERENCE = {"ref.py": '''
import numpy as np


def rgb(channels, normalize, alpha, percentiles, top, add_bright, contrast, dtype):
    if normalize:
        channels = [np.clip(top // 2 + add_bright + contrast * top * 0.3125 * (c - np.median(c)) / np.std(c), 0, top)
                    for c in channels]
    if alpha is not None:
        a = (alpha - np.nanmin(alpha)) / (np.nanmax(alpha) - np.nanmin(alpha))
        channels = [c * a for c in channels]
    im = np.stack(channels, axis=-1)
    if percentiles is None:
        lo, hi = np.nanmin(im), np.nanmax(im)
    else:
        lo, hi = np.percentile(im, q=percentiles)
        im = np.clip(im, lo, hi)
    return ((im - lo) / (hi - lo) * top).astype(dtype)
'''}

#: (rows and columns of the detector, of the grid or None)
GRIDS = (((6, 8), (3, 4)), ((6, 8), (6, 2)), ((8, 6), (1, 1)), ((6, 8), (3, 5)), ((7, 4), None), ((12, 10), None))


def bounds(n, g, i):
    return F(n * i, g)


def tile(shape, grid, first, last):
    """Rows and columns of the region of tiles."""
    (r, c), (gr, gc) = shape, grid
    return (bounds(r, gr, first[0]), bounds(r, gr, last[0] + 1), bounds(c, gc, first[1]), bounds(c, gc, last[1] + 1))


def pixels(t):
    return tuple(round(x) for x in t)


def at(ax, i):
    """Value along an axis at an index."""
    return ax.attrs["offset"].add(ax.attrs["scale"].mul(Num.const(i)))


def tiles(grid):
    return list(itertools.product(*map(range, grid)))


def as_index(t):
    return tuple(Num.const(x) for x in t)


def cells(g):
    return list(g.cells)


def added(gs):
    out = gs[0]
    for g in gs[1:]:
        out = [a.add(b) for a, b in zip(out, g)]
    return out


def calibrated(res, what, o, s, where):
    """The image's axes are those of the map."""
    am, nav = o.attrs["axes_manager"].attrs, s.attrs["axes_manager"].attrs["navigation_axes"]
    if not isinstance(am, dict) or "signal_axes" not in am:
        res.undecided.append(f"{what}: axes not described")
        return
    for k, (a, b) in enumerate(zip(am["signal_axes"], nav)):
        res.count("obligations")
        for name in ("name", "scale", "units"):
            x, y = a.attrs[name], b.attrs[name]
            if not (x == y if isinstance(y, str) else isinstance(x, Num) and x.eq(y)):
                res.add("axes", what, f"the {name} of axis {k} of the image is {x!r}, not {y!r}", where)
                break
        else:
            res.count("proved_equal")


def scan(proj, res: Result, thorough):
    seen: set = set()
    cls = next((c for c in proj.classes.values() if c.name == "VirtualBSEImager"), None)
    if cls is None:
        return
    sig = next((c for c in proj.classes.values() if c.name == "EBSD"), None)
    f = proj.lookup(cls, "__init__")
    where = f.where if f is not None else cls.qualname
    ref = project_from(dict(REFERENCE))
    rgb = next(iter(ref.funcs.values()))

    def imager(shape, grid, nav=(2, 2)):
        A = Engine(proj, nav)
        s = signal(sig, shape, nav)
        v = A.construct(cls, [s], {})
        if grid is not None:
            A.setattr(v, "grid_shape", as_index(grid))
        return A, s, v

    def ask(rule, what, one, name=None):
        fn = proj.lookup(cls, name) if name else None
        w = fn.where if fn is not None else where

        def go():
            try:
                one(w)
            except Raises as e:
                raise PyError(str(e)) from None
        described(res, rule, what, go, w)

    for shape, given in GRIDS:
        grid = given or tuple(min(5, n) for n in shape)
        tag = f"detector {shape}, {grid if given else 'no'} grid"

        def lines(w):
            A, s, v = imager(shape, given)
            told(res, "grid", f"grid_shape ({tag})", A, A.attr(v, "grid_shape", None), grid, w)
            for k, name in enumerate(("grid_rows", "grid_cols")):
                compare(res, "grid", f"{name} ({tag})", A.attr(v, name, None), (grid[k] + 1,),
                        [Num.const(bounds(shape[k], grid[k], i)) for i in range(grid[k] + 1)], w)
            seen.update(A.functions)
        ask("grid", f"grid ({tag})", lines)

        groups = [(t,) for t in tiles(grid)][:: 1 if len(tiles(grid)) < 13 else 3]
        last = (grid[0] - 1, grid[1] - 1)
        groups += [((0, 0), last), ((0, last[1]), (last[0], 0)), (last, (0, 0), (0, last[1]))]
        if min(grid) > 2:
            groups += [((1, 1), (1, 2), (2, 1))]
        for group in groups:
            def roi(w, group=group):
                A, s, v = imager(shape, given)
                i = as_index(group[0]) if len(group) == 1 else [as_index(t) for t in group]
                o = A.call(A.attr(v, "roi_from_grid", None), [i], {}, None)
                lo, hi = [min(t[k] for t in group) for k in (0, 1)], [max(t[k] for t in group) for k in (0, 1)]
                t = tile(shape, grid, lo, hi)
                x, y = s.attrs["axes_manager"].attrs["signal_axes"]
                for name, want in (("top", at(y, t[0])), ("bottom", at(y, t[1])), ("left", at(x, t[2])), ("right", at(x, t[3]))):
                    res.count("obligations")
                    if not isinstance(o, Obj) or o.name != ROI:
                        res.undecided.append(f"roi_from_grid({group}) ({tag}): {o!r}"[:200])
                        break
                    if not o.attrs[name].eq(want):
                        res.add("region", f"{name} of roi_from_grid({group}) ({tag})", f"it is {o.attrs[name]!r}, not {want!r}", w)
                        break
                    res.count("proved_equal")
                seen.update(A.functions)
            ask("region", f"roi_from_grid({group}) ({tag})", roi, "roi_from_grid")

        for nav in ((2, 2), (3,), (2, 1, 2)) if shape == (6, 8) and thorough is not None else ((2, 2),):
            def images(w, nav=nav):
                what = f"get_images_from_grid() ({tag}, map {nav})"
                A, s, v = imager(shape, given, nav)
                o = A.call(A.attr(v, "get_images_from_grid", None), [], {}, None)
                if not isinstance(o, Obj) or o.name != "image":
                    res.undecided.append(f"{what}: {o!r}"[:200])
                    return
                want = [c for t in tiles(grid) for c in cells(intensity(nav, *pixels(tile(shape, grid, t, t))))]
                compare(res, "images", what, o.attrs["data"], (*grid, *nav), want, w)
                calibrated(res, what, o, s, w)
                seen.update(A.functions)
            ask("images", f"get_images_from_grid() ({tag}, map {nav})", images, "get_images_from_grid")

    for shape, grid in GRIDS[:2]:
        for bad in ((1,), (2, 2, 2), (shape[0] + 1, 2), (2, shape[1] + 1)):
            res.count("obligations")
            what = f"grid_shape = {bad} (detector {shape})"
            try:
                A, s, v = imager(shape, grid)
                A.setattr(v, "grid_shape", as_index(bad))
                res.add("grid", what, "it is not refused", where)
            except Raises as e:
                res.count("proved_equal")
            except PyError:
                res.add("grid", what, "it fails otherwise than by refusing", where)
            except Exception as e:
                res.undecided.append(f"{what}: {type(e).__name__} {e}")
        def full(w):
            A, s, v = imager(shape, shape)
            told(res, "grid", f"grid_shape = {shape} (detector {shape})", A, A.attr(v, "grid_shape", None), shape, w)
        ask("grid", f"grid_shape = {shape}", full)

    colours(proj, res, ask, imager, seen, rgb, thorough)
    drawn(proj, res, ask, imager, seen, thorough)
    direct(proj, res, sig, seen)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


CHANNELS = (
    ("tiles", ((0, 0),), ((1, 2),), ((2, 3),)),
    ("lists of tiles", ((0, 0), (0, 1)), ((1, 2), (2, 0), (1, 1)), ((2, 3),)),
    ("regions", "a", "b", "c"),
    ("regions and tiles", ("a", (1, 1)), ("b",), ((0, 3), "c")),
)
REGIONS = {"a": (0, 2, 1, 5), "b": (3, 6, 0, 8), "c": (1, 2, 7, 8)}


def colours(proj, res, ask, imager, seen, rgb, thorough):
    shape, grid, nav = (6, 8), (3, 4), (2, 2)
    full = (Q.ONE, Num.const(2))
    options = [
        ("", {}), ("normalize=False", {"normalize": False}), ("alpha", {"alpha": "array"}), ("alpha", {"alpha": "signal"}),
        ("percentiles", {"percentiles": full}), ("uint16", {"dtype_out": "uint16"}),
        ("contrast and brightness", {"contrast": sym("contrast", "pos"), "add_bright": sym("bright")}),
        ("all", {"normalize": False, "alpha": "array", "percentiles": full, "dtype_out": "uint16"}),
    ]
    for kind, *chs in CHANNELS:
        for oname, opts in options if kind in ("tiles", "regions and tiles") and thorough is not None else options[:3]:
            what = f"get_rgb_image() of {kind}, {oname or 'no options'}"

            def one(w, opts=opts, chs=chs, kind=kind, what=what):
                A, s, v = imager(shape, grid, nav)
                x, y = s.attrs["axes_manager"].attrs["signal_axes"]

                def roi(k):
                    t, b, l, r = REGIONS[k]
                    return rectangle(A, [at(x, l), at(y, t), at(x, r), at(y, b)], {}, None)
                args = []
                for ch in chs:
                    if isinstance(ch, str):
                        args.append(roi(ch))
                    elif kind == "tiles":
                        args.append(as_index(ch[0]))
                    else:
                        args.append([roi(e) if isinstance(e, str) else as_index(e) for e in ch])
                kw = dict(opts)
                al = None
                if "alpha" in kw:
                    al = Grid(nav, [sym(f"alpha {i}") for i in range(4)], DType("float64"))
                    kw["alpha"] = image(A, None, al.copy()) if kw["alpha"] == "signal" else al.copy()
                o = A.call(A.attr(v, "get_rgb_image", None), args, kw, None)
                if not isinstance(o, Obj) or o.name != "image":
                    res.undecided.append(f"{what}: {o!r}"[:200])
                    return
                channels = []
                for ch in chs:
                    ims = [cells(intensity(nav, *(REGIONS[e] if isinstance(e, str) else pixels(tile(shape, grid, e, e))))) for e in ch]
                    channels.append(Grid(nav, added(ims), DType("float64")))
                d = kw.get("dtype_out", "uint8")
                B = Engine(rgb_project(rgb), nav)
                want = B.call_func(rgb, [channels, kw.get("normalize", True), al, kw.get("percentiles"),
                                         Num.const(255 if d == "uint8" else 65535), kw.get("add_bright", Q.ZERO),
                                         kw.get("contrast", Q.ONE), DType(d)], {})
                compare(res, "colours", what, o.attrs["data"], (*nav, 3), want.cells, w)
                calibrated(res, what, o, s, w)
                depth = [a[0] for n, a, k in o.attrs["log"] if n == "change_dtype" and a]
                told(res, "colours", f"data type of {what}", A, depth[-1] if depth else None, "rgb8" if d == "uint8" else "rgb16", w)
                seen.update(A.functions)
            ask("colours", what, one, "get_rgb_image")


_ref = {}


def rgb_project(fn):
    if "p" not in _ref:
        _ref["p"] = project_from(dict(REFERENCE))
    return _ref["p"]


def direct(proj, res, sig, seen):
    """The signal's own method."""
    f = proj.lookup(sig, "get_virtual_bse_intensity") if sig is not None else None
    if f is None:
        return
    for nav in ((2, 2), (3,)):
        for k, t in REGIONS.items():
            for axes in (None, (1, 0)[:len(nav)]):
                what = f"get_virtual_bse_intensity() of region {k}, map {nav}" + ("" if axes is None else f", out_signal_axes={axes}")

                def one():
                    A = Engine(proj, nav)
                    s = signal(sig, (6, 8), nav)
                    x, y = s.attrs["axes_manager"].attrs["signal_axes"]
                    r = rectangle(A, [at(x, t[2]), at(y, t[0]), at(x, t[3]), at(y, t[1])], {}, None)
                    o = A.call(A.attr(s, "get_virtual_bse_intensity", None), [r], {} if axes is None else {
                        "out_signal_axes": [Num.const(i) for i in axes]}, None)
                    if not isinstance(o, Obj) or o.name != "image":
                        res.undecided.append(f"{what}: {o!r}"[:200])
                        return
                    compare(res, "intensity", what, o.attrs["data"], nav, cells(intensity(nav, *t)), f.where)
                    order = [a[0] if a else dict(kw).get("signal_axes") for n, a, kw in o.attrs["log"] if n == "transpose"]
                    want = tuple(range(len(nav))) if axes is None else axes
                    told(res, "intensity", f"signal axes of {what}", A, tuple(A.items(order[-1])) if order else None, want, f.where)
                    kinds = [a[0] for n, a, kw in o.attrs["log"] if n == "set_signal_type" and a]
                    told(res, "intensity", f"type of {what}", A, kinds[-1] if kinds else None, "VirtualBSEImage", f.where)
                    seen.update(A.functions)

                def go():
                    try:
                        one()
                    except Raises as e:
                        raise PyError(str(e)) from None
                described(res, "intensity", what, go, f.where)


# ----------------------------------------------------------------- drawing
def drawn(proj, res, ask, imager, seen, thorough):
    for shape, given in GRIDS[:5] if thorough is not None else GRIDS[1:2]:
        grid = given or tuple(min(5, n) for n in shape)
        last = (grid[0] - 1, grid[1] - 1)
        for name, chs in (("no channels", None), ("tiles", ((0, 0), last, (0, last[1]))),
                          ("lists of tiles", (((0, 0), last), (last,), ((last[0], 0), (0, 0))))):
            tag = f"plot_grid() with {name} (detector {shape}, grid {grid})"

            def one(w, chs=chs, tag=tag):
                A, s, v = imager(shape, given)
                kw = {}
                if chs is not None:
                    kw["rgb_channels"] = [as_index(c) if isinstance(c[0], int) else [as_index(t) for t in c] for c in chs]
                p = A.call(A.attr(v, "plot_grid", None), [], kw, None)
                if not isinstance(p, Obj) or "markers" not in p.attrs:
                    res.undecided.append(f"{tag}: {p!r}"[:200])
                    return
                ms = [A.deref(m) for m in p.attrs["markers"]]
                for m in ms:
                    for k, v in m.attrs["arguments"].items():
                        v = A.deref(v)
                        if isinstance(v, (Arr, list, tuple)) and k in ("offsets", "widths", "heights"):
                            m.attrs["arguments"][k] = A.grid(v)
                x, y = s.attrs["axes_manager"].attrs["signal_axes"]
                half = F(1, 2)
                for kind, ax, n, g in (("HorizontalLines", y, shape[0], grid[0]), ("VerticalLines", x, shape[1], grid[1])):
                    m = [m.attrs["arguments"] for m in ms if m.attrs["marker"] == kind]
                    got = m[0].get("offsets") if m else None
                    compare(res, "drawn", f"{kind} of {tag}", got, (g + 1,),
                            [at(ax, bounds(n, g, i) - half) for i in range(g + 1)], w)
                m = [m.attrs["arguments"] for m in ms if m.attrs["marker"] == "Texts"]
                labels(res, A, f"Texts of {tag}", m[0] if m else {}, shape, grid, x, y, w)
                rects = [m.attrs["arguments"] for m in ms if m.attrs["marker"] == "Rectangles"]
                if len(rects) != (0 if chs is None else 3):
                    res.count("obligations")
                    res.add("drawn", f"Rectangles of {tag}", f"there are {len(rects)} of them", w)
                    return
                for m, ch, colour in zip(rects, chs or (), "rgb"):
                    ch = (ch,) if isinstance(ch[0], int) else ch
                    what = f"Rectangles of colour {colour} of {tag}"
                    told(res, "drawn", what, A, m.get("ec", m.get("edgecolor")), colour, w)
                    ts = [tile(shape, grid, t, t) for t in ch]
                    compare(res, "drawn", what, m.get("offsets"), (len(ch), 2), [
                        c for t in ts for c in (at(x, (t[2] + t[3]) / 2 - half), at(y, (t[0] + t[1]) / 2 - half))], w)
                    for k, ax, lo, hi in (("widths", x, 2, 3), ("heights", y, 0, 1)):
                        got = m.get(k)
                        if isinstance(got, Grid) and got.cells:
                            got = got.cells[0]
                        want = ax.attrs["scale"].mul(Num.const(ts[0][hi] - ts[0][lo]))
                        res.count("obligations")
                        if isinstance(got, Num) and got.eq(want):
                            res.count("proved_equal")
                        elif isinstance(got, Num) and got.clean:
                            res.add("drawn", f"{k} of {what}", f"it is {got!r}, not {want!r}", w)
                        else:
                            res.undecided.append(f"{k} of {what}: {got!r}"[:200])
                seen.update(A.functions)
            ask("drawn", tag, one, "plot_grid")

    for k, bad in enumerate(((9, 0), (0, 9))):
        what = f"plot_grid() with a tile at {bad}"
        res.count("obligations")
        try:
            A, s, v = imager((6, 8), (3, 4))
            A.call(A.attr(v, "plot_grid", None), [], {"rgb_channels": [as_index((0, 0)), as_index(bad), as_index((0, 0))]}, None)
            res.add("drawn", what, "it is not refused", "")
        except Raises:
            res.count("proved_equal")
        except PyError:
            res.add("drawn", what, "it fails otherwise than by refusing", "")
        except Exception as e:
            res.undecided.append(f"{what}: {type(e).__name__} {e}")


def labels(res, A, what, m, shape, grid, x, y, where):
    """Each label names its tile and lies in it."""
    res.count("obligations")
    pos, txt = A.deref(m.get("offsets")), A.deref(m.get("texts"))
    try:
        ts = [A.const(t) if not isinstance(t, str) else t for t in A.items(txt)]
    except Exception:
        ts = [None]
    n = grid[0] * grid[1]
    if not isinstance(pos, Grid) or any(not isinstance(t, str) for t in ts):
        res.undecided.append(f"{what}: {pos!r} {ts!r}"[:200])
        return
    if tuple(pos.axes) != (n, 2) or len(ts) != n:
        res.add("drawn", what, f"there are {tuple(pos.axes)} labels", where)
        return
    for k, text in enumerate(ts):
        px, py = pos.cells[2 * k: 2 * k + 2]
        t = next((t for t in tiles(grid) if str(t) == text), None)
        if t is None:
            res.add("drawn", what, f"no tile is named {text!r}", where)
            return
        b = tile(shape, grid, t, t)
        for ax, p, lo, hi in ((x, px, b[2], b[3]), (y, py, b[0], b[1])):
            i = p.sub(ax.attrs["offset"]).div(ax.attrs["scale"]).value
            if i is None or not lo - F(1, 2) <= i < hi - F(1, 2) + F(1, 10 ** 9):
                res.add("drawn", what, f"the label {text} is at {p!r}, not between {at(ax, lo)!r} and {at(ax, hi)!r}", where)
                return
    if len(set(ts)) != n:
        res.add("drawn", what, "a tile has two labels", where)
        return
    res.count("proved_equal")


SELFTEST = {"m.py": '''
import hyperspy.api as hs
import numpy as np
from skimage.util.dtype import dtype_range


class VirtualBSEImage:
    pass


class EBSD:
    @property
    def _signal_shape_rc(self):
        return self.axes_manager.signal_shape[::-1]

    def get_virtual_bse_intensity(self, roi, out_signal_axes=None):
        vbse = roi(self, axes=self.axes_manager.signal_axes)
        out = vbse.sum(vbse.axes_manager.signal_axes)
        n = min(self.axes_manager.navigation_dimension, 2)
        out = out.transpose(list(range(n)) if out_signal_axes is None else out_signal_axes)
        out.set_signal_type("VirtualBSEImage")
        return out


class VirtualBSEImager:
    def __init__(self, signal):
        self.signal = signal
        self.grid_shape = tuple(min(5, n) for n in signal._signal_shape_rc)

    @property
    def grid_shape(self):
        return self._grid_shape

    @grid_shape.setter
    def grid_shape(self, shape):
        if len(shape) != 2:
            raise ValueError("shape")
        r, c = self.signal._signal_shape_rc
        if shape[0] > r + 1 or shape[1] > c:
            raise ValueError("too many tiles")
        self._grid_shape = tuple(shape)

    def _lines(self, axis):
        n, g = self.signal._signal_shape_rc[axis], self.grid_shape[axis]
        return np.arange(g + 1) * (n / g)

    @property
    def grid_rows(self):
        return self._lines(0)

    @property
    def grid_cols(self):
        return self._lines(1)

    def roi_from_grid(self, index):
        idx = np.atleast_2d(np.array(index))
        x, y = self.signal.axes_manager.signal_axes
        r, c = self.grid_rows, self.grid_cols
        (r0, c0), (r1, c1) = idx.min(axis=0), idx.max(axis=0) + 1
        return hs.roi.RectangularROI(
            left=x.offset + c[c0] * x.scale, top=y.offset + r[r0] * y.scale,
            right=x.offset + c[c1] * x.scale, bottom=y.offset + r[r1] * y.scale)

    def get_images_from_grid(self, dtype_out="float32"):
        gr, gc = self.grid_shape
        ims = [[self.signal.get_virtual_bse_intensity(self.roi_from_grid((i, j))).data for j in range(gc)] for i in range(gr)]
        out = VirtualBSEImage(np.array(ims, dtype=dtype_out))
        self._axes(out)
        return out

    def _axes(self, out):
        for new, old in zip(out.axes_manager.signal_axes, self.signal.axes_manager.navigation_axes):
            new.name, new.scale, new.units = old.name, old.scale, old.units

    def get_rgb_image(self, r, g, b, percentiles=None, normalize=True, alpha=None, dtype_out="uint8", add_bright=0, contrast=1.0):
        top = np.iinfo(dtype_out).max
        channels = []
        for rois in (r, g, b):
            if isinstance(rois, tuple) or not hasattr(rois, "__iter__"):
                rois = [rois]
            im = 0
            for roi in rois:
                if isinstance(roi, tuple):
                    roi = self.roi_from_grid(roi)
                im = im + self.signal.get_virtual_bse_intensity(roi).data
            if normalize:
                im = np.clip(top // 2 + add_bright + contrast * top * 0.3125 * (im - np.median(im)) / im.std(), 0, top)
            channels.append(im)
        rgb = np.stack(channels, axis=-1)
        if alpha is not None:
            alpha = alpha if isinstance(alpha, np.ndarray) else alpha.data
            rgb = rgb * (alpha / (alpha.max() - alpha.min()))[..., np.newaxis]
        lo, hi = (rgb.min(), rgb.max()) if percentiles is None else np.percentile(rgb, percentiles)
        rgb = (rgb.clip(lo, hi) - lo) / (hi - lo) * top
        out = VirtualBSEImage(rgb.astype(dtype_out)).transpose(signal_axes=1)
        out.change_dtype("rgb8" if top == 255 else "rgb16")
        self._axes(out)
        return out

    def plot_grid(self, pattern_idx=None, rgb_channels=None, visible_indices=True):
        x, y = self.signal.axes_manager.signal_axes
        r, c = self.grid_rows, self.grid_cols
        markers = [hs.plot.markers.HorizontalLines(y.offset + (r - 0.5) * y.scale, ec="w"),
                   hs.plot.markers.VerticalLines(x.offset + (c - 0.5) * x.scale, ec="w")]
        if visible_indices:
            at, text = [], []
            for i in range(len(r) - 1):
                for j in range(len(c) - 1):
                    at.append([x.offset + c[j] * x.scale, y.offset + r[i] * y.scale])
                    text.append(f"({i}, {j})")
            markers.append(hs.plot.markers.Texts(np.array(at), texts=text))
        for color, tiles in zip("rgb", rgb_channels or []):
            tiles = [tiles] if isinstance(tiles, tuple) else tiles
            if any(i >= len(r) - 1 or j >= len(c) - 1 for i, j in tiles):
                raise ValueError("no such tile")
            w, h = c[1], r[1]
            at = np.array([[x.offset + (c[j] + h / 2 - 0.5) * x.scale, y.offset + (r[i] + h / 2 - 0.5) * y.scale] for i, j in tiles])
            markers.append(hs.plot.markers.Rectangles(at, w * x.scale, h * y.scale, ec=color))
        p = self.signal.inav[pattern_idx or (0, 0)]
        p.add_marker(markers, permanent=True)
        return p
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C52",
        explanation=(
            "abstract interpretation of VirtualBSEImager and EBSD.get_virtual_bse_intensity() for six detectors and grids of tiles, "
            "signal axes of any scale and offset and patterns of any content: tile boundaries, regions of one and several tiles, "
            "the image of each tile, color images from tiles and regions with every option, axes of the images and the markers "
            "drawn, compared with their definition in exact arithmetic"
        ),
        assumptions=[
            "six detector and grid shapes (dividing the detector evenly or not) and maps of one to three axes stand for any",
            "regions of interest and sums of HyperSpy do what its version here documents",
        ],
    )
    scan(ctx.proj, res, ctx.tier == "thorough")
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "VirtualBSEImager not found")
    r = Result("C52")
    scan(project_from(dict(SELFTEST)), r, None)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("grid:grid_shape = (7, 2) (detector (6, 8))", "colours:get_rgb_image() of tiles, alpha", "drawn:Rectangles of colour r of plot_grid() with tiles")
    quiet = ("region:", "images:", "axes:", "intensity:", "grid:grid_rows", "tiles, no options", "tiles, normalize", "widths", "Texts")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:300]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt[:300]})")
    res.require(not r.undecided, f"self-test: undecided ({r.undecided[:3]})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
