"""What is left of a signal's attributes when some of its patterns or pixels
are left (part of C05 and C07).

EBSD's slicing, cropping, rebinning, downsampling and grid extraction are
interpreted for small signals where every pattern has its own projection
center and crystal map point and every pixel its own background; HyperSpy's
part is described here as its source does it.
"""

from __future__ import annotations

import copy
import itertools
import math

from .. import poly as Q
from ..alg import Class, Clos, Dict, External, Fn, Obj, Opaque, PyError, Slice, Super, Unsupported
from ..grid import BOOL, GAlg, Grid
from ..poly import Num, sym
from ..report import Result
from ..tens import DType
from .c43 import described
from .c50 import compare, told

N = Num.const
F64 = DType("float64")
U8 = DType("uint8")
SIGNAL, MANAGER, AXIS, MAP = "signal", "axes_manager", "axis", "xmap"

#: signatures of HyperSpy's methods, less self
SIGNATURES = {
    "_slicer": ("slices", "isNavigation", "out"),
    "crop": ("axis", "start", "end", "convert_units"),
    "rebin": ("new_shape", "scale", "crop", "dtype", "out"),
}
DEFAULTS = {"_slicer": {"isNavigation": None, "out": None}, "crop": {"start": None, "end": None, "convert_units": False},
            "rebin": {"new_shape": None, "scale": None, "crop": True, "dtype": None, "out": None}}


def arguments(name, args, kwargs):
    kw = {**DEFAULTS[name], **dict(zip(SIGNATURES[name], args)), **kwargs}
    if set(kw) != set(SIGNATURES[name]):
        raise PyError(f"{name}() called with {sorted(kw)}")
    return kw


class Engine(GAlg):
    MAX_LOOP = 400

    def __init__(self, proj):
        super().__init__(proj, {
            "_downsample2d": downsampled, "inspect.signature": signature, "warnings.warn": lambda A, a, k, s: None,
            "hyperspy.api.signals.Signal2D": lambda A, a, k, s: plain(A, a[0] if a else k["data"]),
            "hyperspy.signals.Signal2D": lambda A, a, k, s: plain(A, a[0] if a else k["data"]),
            "gc.collect": lambda A, a, k, s: None, "logging.getLogger": lambda A, a, k, s: Opaque("logger"),
        })

    # ----------------------------------------------------------- attributes
    def attr(self, o, a, fr):
        o = self.deref(o)
        if isinstance(o, Super) and self.proj.lookup_after(o.obj.cls, o.cls, a) is None and o.obj.name in (SIGNAL, ""):
            if a in LIBRARY:
                return Fn(a, lambda A, args, kw, x=o.obj: LIBRARY[a](A, x, args, kw))
        if isinstance(o, Obj):
            if a == "__getattribute__":
                return Fn(a, lambda A, args, kw: A.attr(o, args[0], None))
            if a == "__setattr__":
                return Fn(a, lambda A, args, kw: A.setattr(o, *args))
            if a == "__dict__":
                return Dict(o.attrs)
            if o.name == MANAGER and a in AM:
                return AM[a](self, o)
            if o.name == MAP and a in XMAP:
                return XMAP[a](self, o)
            if o.cls is not None and o.cls.name == "EBSDDetector" and a == "_has_signals":
                return False
            if o.name == SIGNAL and a not in o.attrs and (o.cls is None or self.proj.lookup(o.cls, a) is None) and a in LIBRARY:
                return Fn(a, lambda A, args, kw: LIBRARY[a](A, o, args, kw))
        return super().attr(o, a, fr)

    def setattr(self, o, name, v):
        st = self.proj.lookup(o.cls, name, setter=True) if o.cls is not None else None
        if st is None:
            o.attrs[name] = v
        else:
            self.call_func(st, [v], {}, self_=o)

    def construct(self, c: Class, args, kwargs):
        if self.proj.lookup(c, "_get_custom_attributes") is None:
            return super().construct(c, args, kwargs)
        o = Obj(c, SIGNAL, {"_lazy": c.name.startswith("Lazy")})
        init = self.proj.lookup(c, "__init__")
        if init is not None:
            self.call_func(init, args, kwargs, self_=o)
        else:
            LIBRARY["__init__"](self, o, args, kwargs)
        return o

    def index(self, o, i):
        o = self.deref(o)
        if o is None:
            raise PyError("'NoneType' object is not subscriptable")
        if isinstance(o, Obj) and o.name == MANAGER:
            return manager_axis(self, o, i)
        if isinstance(o, Obj) and o.name == MAP:
            return part_of_map(self, o, i)
        return super().index(o, i)

    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if o is None:
            raise PyError(f"None has no {name}")
        if isinstance(o, Slice) and name == "indices":
            r = self.slice_range(o, self.const(args[0]))
            if r is None:
                raise Unsupported("slice")
            s, e, st = slice(*(None if x is None else self.const(x) for x in (o.lo, o.hi, o.step))).indices(self.const(args[0]))
            return (N(s), N(e), N(st))
        if isinstance(o, Grid) and name in ("round", "__round__") and all(c.value is not None for c in o.cells):
            n = self.const(args[0]) if args else 0
            return o.like([N(round(Q.Fraction(c.value), n)) for c in o.cells])
        return super().method(o, name, args, kwargs, fr)

    def external(self, d, args, kwargs, fr):
        if d in ("copy.deepcopy", "copy.copy") and args:
            v = self.deref(args[0])
            if v is None or isinstance(v, (str, bool)):
                return v
            if isinstance(v, Obj) and d == "copy.deepcopy" and v.cls is not None:
                f = self.proj.lookup(v.cls, "__deepcopy__")
                if f is not None:
                    return self.call_func(f, [Dict()], {}, self_=v)
            if isinstance(v, Grid):
                return v.copy()
            if isinstance(v, Obj):
                if d == "copy.copy":
                    return Obj(v.cls, v.name, dict(v.attrs))
                return copy.deepcopy(v, self.memo_atoms())
        if d == "map" and len(args) == 2 and isinstance(self.deref(args[1]), Grid):
            return [self.call(args[0], [x], {}, fr) for x in self.items(args[1])]
        if d == "hasattr" and isinstance(self.deref(args[0]), Obj) and args[1].endswith("_changed"):
            return False
        if d in ("setattr", "object.__setattr__") and isinstance(self.deref(args[0]), Obj):
            return self.setattr(self.deref(args[0]), args[1], args[2])
        return super().external(d, args, kwargs, fr)

    def compare(self, op, a, b):
        if type(op).__name__ in ("In", "NotIn") and isinstance(a, str) and isinstance(b, Opaque) and b.fn == "global":
            return type(op).__name__ == "In"         # the type is one of kikuchipy's
        return super().compare(op, a, b)

    def isinst(self, v, c):
        v = self.deref(v)
        if isinstance(v, Obj) and v.name in (MAP, MANAGER, AXIS):
            return False
        if isinstance(v, (Num, int, float)) and not isinstance(v, bool) and str(getattr(c, "dotted", "")) == "numbers.Number":
            return True
        return super().isinst(v, c)


def signature(A, args, kwargs, s):
    name = getattr(args[0], "fn", None)
    if not isinstance(args[0], Fn) or name not in SIGNATURES:
        raise Unsupported("signature")
    ps = Dict()
    for p in SIGNATURES[name]:
        d = DEFAULTS[name].get(p, External("inspect.Signature.empty"))
        ps[p] = Obj(None, "parameter", {"default": d, "name": p, "kind": Opaque("kind")})
    return Obj(None, "signature", {"parameters": ps})


# ---------------------------------------------------------------- the library
def axis(name, size, nav, scale=None, offset=None, units=None):
    return Obj(None, AXIS, {"name": name, "size": N(size), "scale": scale or sym("scale " + name, "pos"),
                            "offset": offset if offset is not None else sym("offset " + name), "units": units or "units " + name,
                            "navigate": nav})


def ax_of(o, nav):
    return [a for a in o.attrs["axes"] if a.attrs["navigate"] is nav]


def sizes(axs):
    return tuple(a.attrs["size"] for a in axs)


def product(ns):
    t = 1
    for n in ns:
        t *= n.value
    return N(t)


def places(o, nav):
    return tuple(N(k) for k, a in reversed(list(enumerate(o.attrs["axes"]))) if a.attrs["navigate"] is nav)


AM = {
    "navigation_shape": lambda A, o: sizes(ax_of(o, True)[::-1]),
    "signal_shape": lambda A, o: sizes(ax_of(o, False)[::-1]),
    "shape": lambda A, o: sizes(ax_of(o, True)[::-1] + ax_of(o, False)[::-1]),
    "navigation_axes": lambda A, o: tuple(ax_of(o, True)[::-1]),
    "signal_axes": lambda A, o: tuple(ax_of(o, False)[::-1]),
    "_axes": lambda A, o: list(o.attrs["axes"]),
    "navigation_dimension": lambda A, o: N(len(ax_of(o, True))),
    "signal_dimension": lambda A, o: N(len(ax_of(o, False))),
    "navigation_size": lambda A, o: product(sizes(ax_of(o, True))) if ax_of(o, True) else N(0),
    "signal_size": lambda A, o: product(sizes(ax_of(o, False))),
    "navigation_indices_in_array": lambda A, o: places(o, True),
    "signal_indices_in_array": lambda A, o: places(o, False),
    "as_dictionary": lambda A, o: Fn("as_dictionary", lambda A, a, k: Dict({
        f"axis-{k}": Dict(x.attrs) for k, x in enumerate(o.attrs["axes"])})),
    "deepcopy": lambda A, o: Fn("deepcopy", lambda A, a, k: manager(clone(x) for x in o.attrs["axes"])),
    "copy": lambda A, o: Fn("copy", lambda A, a, k: manager(clone(x) for x in o.attrs["axes"])),
}


def size_of(a):
    return int(a.attrs["size"].value)


def clone(x):
    return Obj(None, AXIS, dict(x.attrs))


def manager(axes):
    return Obj(None, MANAGER, {"axes": list(axes)})


def natural(o):
    return ax_of(o, True)[::-1] + ax_of(o, False)[::-1]


def manager_axis(A, o, i):
    if isinstance(i, Obj) and i.name == AXIS:
        return i
    if isinstance(i, str):
        for a in o.attrs["axes"]:
            if a.attrs["name"] == i:
                return a
        raise PyError("axis")
    k = A.const(i)
    if not isinstance(k, int):
        raise Unsupported("axis")
    xs = natural(o)
    if not -len(xs) <= k < len(xs):
        raise PyError("axis")
    return xs[k]


def array_slices(A, s, slices, nav):
    slices = list(A.items(slices)) if isinstance(A.deref(slices), (tuple, list)) else [slices]
    am = s.attrs["axes_manager"]
    axs = ax_of(am, bool(nav))[::-1] if nav is not None else natural(am)
    if len(slices) > len(axs):
        raise PyError("too many indices")
    out = [Slice(None, None, None)] * len(am.attrs["axes"])
    for a, x in zip(axs, slices):
        out[next(k for k, b in enumerate(am.attrs["axes"]) if b is a)] = x
    return tuple(out)


def slicer(A, s, args, kwargs):
    kw = arguments("_slicer", args, kwargs)
    parts = array_slices(A, s, kw["slices"], kw["isNavigation"])
    if kw["out"] is not None:
        raise Unsupported("out")
    axes = []
    for a, p in zip(s.attrs["axes_manager"].attrs["axes"], parts):
        if not isinstance(p, Slice):
            continue
        b = clone(a)
        r = A.slice_range(p, size_of(a))
        if r is None or not len(r):
            raise PyError("slice")
        b.attrs.update(size=N(len(r)), offset=a.attrs["offset"].add(a.attrs["scale"].mul(N(r[0]))),
                       scale=a.attrs["scale"].mul(N(r.step)))
        axes.append(b)
    if not sum(not a.attrs["navigate"] for a in axes) == 2:
        raise Unsupported("signal of one dimension")
    new = Obj(s.cls, SIGNAL, dict(s.attrs))
    new.attrs.update({"data": A.index(s.attrs["data"], parts), "axes_manager": manager(axes)})
    return new


def crop(A, s, args, kwargs):
    kw = arguments("crop", args, kwargs)
    am = s.attrs["axes_manager"]
    a = manager_axis(A, am, kw["axis"])
    p = Slice(kw["start"], kw["end"], None)
    r = A.slice_range(p, size_of(a))
    if r is None:
        raise Unsupported("slice")
    k = next(k for k, b in enumerate(am.attrs["axes"]) if b is a)
    s.attrs["data"] = A.index(s.attrs["data"], (Slice(None, None, None),) * k + (p,))
    a.attrs.update(size=N(len(r)), offset=a.attrs["offset"].add(a.attrs["scale"].mul(N(r[0]))))


def blocks(g, factors):
    """Sums over blocks of an array."""
    shape = tuple(n // f for n, f in zip(g.axes, factors))
    strides = [math.prod(g.axes[k + 1:]) for k in range(len(g.axes))]
    out = []
    for p in itertools.product(*map(range, shape)):
        t = Q.ZERO
        for q in itertools.product(*map(range, factors)):
            t = t.add(g.cells[sum((i * f + j) * s for i, j, f, s in zip(p, q, factors, strides))])
        out.append(t)
    return Grid(shape, out, F64)


def rebin(A, s, args, kwargs):
    kw = arguments("rebin", args, kwargs)
    am = s.attrs["axes_manager"]
    order = natural(am)
    given = kw["new_shape"] if kw["new_shape"] is not None else kw["scale"]
    if given is None or kw["new_shape"] is not None and kw["scale"] is not None:
        raise PyError("One of new_shape, or scale must be specified")
    given = [A.const(x) for x in A.items(given)]
    if len(given) != len(order):
        raise PyError("Wrong new_shape or scale size")
    factors = []
    for a in am.attrs["axes"]:
        x = given[next(k for k, b in enumerate(order) if b is a)]
        f = Q.Fraction(size_of(a)) / x if kw["new_shape"] is not None else Q.Fraction(x)
        if f.denominator != 1 or size_of(a) % f:
            raise Unsupported("bins of part of a pixel")
        factors.append(int(f))
    if kw["out"] is not None:
        raise Unsupported("out")
    new = Obj(s.cls, SIGNAL, dict(s.attrs))
    axes = [clone(a) for a in am.attrs["axes"]]
    for a, f in zip(axes, factors):
        a.attrs.update(size=N(size_of(a) // f), scale=a.attrs["scale"].mul(N(f)))
    g = blocks(s.attrs["data"], factors)
    if kw["dtype"] is not None:
        g = A.cast(g, kw["dtype"])
    new.attrs.update({"data": g, "axes_manager": manager(axes)})
    return new


def mapped(A, s, args, kwargs):
    kw = dict(kwargs)
    f = args[0] if args else kw.pop("function")
    inplace = A.truth(kw.pop("inplace", True if len(args) < 4 else args[3]))
    for k in ("show_progressbar", "output_dtype", "lazy_output", "navigation_chunks", "max_workers", "num_workers", "ragged",
              "output_signal_size", "silence_warnings"):
        kw.pop(k, None)
    g = s.attrs["data"]
    axes = s.attrs["axes_manager"].attrs["axes"]
    nav = tuple(size_of(a) for a in axes if a.attrs["navigate"])
    sig = g.axes[len(nav):]
    n = math.prod(sig)
    outs = [A.call(f, [Grid(sig, g.cells[k * n:(k + 1) * n], g.dtype)], dict(kw), None) for k in range(math.prod(nav))]
    outs = [A.deref(o) for o in outs]
    if not all(isinstance(o, Grid) and len(o.axes) == 2 for o in outs):
        raise Unsupported("mapped function")
    to = s if inplace else Obj(s.cls, SIGNAL, dict(s.attrs))
    axes = [clone(a) for a in axes]
    for a, k in zip([a for a in axes if not a.attrs["navigate"]], outs[0].axes):
        a.attrs["size"] = N(k)
    to.attrs.update({"data": Grid(nav + tuple(outs[0].axes), [c for o in outs for c in o.cells], outs[0].dtype),
                     "axes_manager": manager(axes)})
    return None if inplace else to


def new_signal(A, s, args, kwargs):
    kw = dict(kwargs)
    data = A.deref(args[0] if args else kw["data"])
    axes = kw.get("axes")
    if not isinstance(data, Grid) or axes is None:
        raise Unsupported("signal without axes")
    out = []
    for a in A.items(axes):
        a = A.deref(a)
        if not isinstance(a, Dict) or not isinstance(a.get("size"), Num):
            raise Unsupported("axes")
        out.append(Obj(None, AXIS, {"navigate": len(out) < len(data.axes) - 2, **a}))
    if len(out) != len(data.axes):
        raise PyError("axes and data do not match")
    # HyperSpy takes sizes of axes from the data
    s.attrs.update({"data": data, "axes_manager": manager(out), "metadata": kw.get("metadata"),
                    "original_metadata": kw.get("original_metadata"), "_lazy": s.attrs.get("_lazy", False)})


def change_dtype(A, s, args, kwargs):
    d = args[0] if args else kwargs["dtype"]
    s.attrs["data"] = A.cast(s.attrs["data"], d)


def plain(A, data):
    g = A.deref(data)
    if not isinstance(g, Grid):
        raise Unsupported("signal")
    k = len(g.axes)
    names = ("navigation y", "navigation x", "signal y", "signal x")[4 - k:]
    return Obj(None, SIGNAL, {"data": g, "_lazy": False, "axes_manager": manager(
        axis(n, m, j < k - 2, Q.ONE, Q.ZERO) for j, (n, m) in enumerate(zip(names, g.axes)))})


LIBRARY = {
    "__init__": new_signal, "_slicer": slicer, "crop": crop, "rebin": rebin, "map": mapped, "change_dtype": change_dtype,
    "_get_array_slices": lambda A, s, a, k: array_slices(A, s, *a, **k),
    "_assign_subclass": lambda A, s, a, k: None,
}


def downsampled(A, args, kwargs, s):
    kw = {**dict(zip(("pattern", "factor", "omin", "omax", "dtype_out"), args)), **kwargs}
    g, f = A.grid(kw["pattern"]), A.const(kw["factor"])
    if any(n % f for n in g.axes):
        raise Unsupported("downsampling")
    b = blocks(g, (f, f))
    extra = tuple(A.num(kw[k]) for k in ("omin", "omax"))
    d = kw["dtype_out"]
    cells = tuple(b.cells)
    return Grid(b.axes, [Num.of(Q.atom("rescaled", (c, *extra, *cells[:1]))) for c in b.cells], DType(A.dtype_name(d) or "unknown"))


Q.EVAL["rescaled"] = lambda c, lo, hi, first: math.sin(float(c)) * 0.3 + 1.7 * float(lo) - 0.9 * float(hi) + 0.21 * float(first)


# ---------------------------------------------------------------- crystal map
def crystal_map(points, y=True, x=True):
    return Obj(None, MAP, {"points": tuple(points), "_y": Opaque("y") if y else None, "_x": Opaque("x") if x else None})


def coords(o):
    pts = o.attrs["points"]
    rs, cs = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
    return rs, cs, o.attrs["_y"] is not None, o.attrs["_x"] is not None


def map_shape(o):
    rs, cs, y, x = coords(o)
    return tuple(n for n, k in ((len(rs), y), (len(cs), x)) if k) or (1,)


def part_of_map(A, o, i):
    pts = o.attrs["points"]
    v = A.deref(i)
    if isinstance(v, Grid):
        if tuple(v.axes) != (len(pts),):
            raise PyError("boolean index of another size")
        if any(c.value is None for c in v.cells):
            raise Unsupported("mask")
        keep = tuple(p for p, c in zip(pts, v.cells) if c.value != 0)
    else:
        parts = list(v) if isinstance(v, (tuple, list)) else [v]
        rs, cs, y, x = coords(o)
        dims = [(k, d) for k, d, has in ((0, rs, y), (1, cs, x)) if has]
        if len(parts) > len(dims):
            raise PyError("too many indices")
        ok = [set(rs), set(cs)]
        for (k, d), p in zip(dims, parts):
            if isinstance(p, Slice):
                r = A.slice_range(p, len(d))
                if r is None:
                    raise Unsupported("slice")
                ok[k] = {d[j] for j in r}
            else:
                c = A.const(p)
                if not isinstance(c, int):
                    raise Unsupported("index")
                if not -len(d) <= c < len(d):
                    raise PyError("index out of range")
                ok[k] = {d[c]}
        keep = tuple(p for p in pts if p[0] in ok[0] and p[1] in ok[1])
    if not keep:
        raise PyError("no points")
    new = Obj(None, MAP, dict(o.attrs))
    new.attrs["points"] = keep
    return new


XMAP = {
    "shape": lambda A, o: tuple(N(n) for n in map_shape(o)),
    "size": lambda A, o: N(len(o.attrs["points"])),
    "ndim": lambda A, o: N(len(map_shape(o))),
    "deepcopy": lambda A, o: Fn("deepcopy", lambda A, a, k: Obj(None, MAP, dict(o.attrs))),
}

# ------------------------------------------------------------------- signals
SIG = (4, 6)
GEOMETRY = ("px_size", "tilt", "azimuthal", "twist", "sample_tilt")


class World:
    """A signal with everything told apart."""

    def __init__(self, proj, nav, pcs="each", background=True, with_map=True, sig=SIG, dtype=U8):
        self.A = A = Engine(proj)
        self.nav, self.sig = nav, sig
        rows = nav[0] if len(nav) == 2 else 1
        cols = nav[-1] if nav else 1
        self.points = [(r, c) for r in range(rows) for c in range(cols)]
        names = ("y", "x")[2 - len(nav):]
        axes = [axis(n, k, True) for n, k in zip(names, nav)] + [axis(n, k, False) for n, k in zip(("dy", "dx"), sig)]
        shape = (*nav, *sig)
        self.data = [sym("p" + " ".join(map(str, p))) for p in itertools.product(*map(range, shape))]
        self.bg = [sym(f"bg{i} {j}") for i, j in itertools.product(*map(range, sig))]
        self.geometry = {k: sym(k) for k in GEOMETRY}
        cls = next(c for c in proj.classes.values() if c.name == "EBSD")
        det = next(c for c in proj.classes.values() if c.name == "EBSDDetector")
        self.pc = {p: tuple(sym(f"pc{k} {p if pcs == 'each' else ''}") for k in "xyz") for p in self.points}
        self.each = pcs == "each" and bool(nav)
        if self.each:
            pc = Grid((*nav, 3), [v for p in self.points for v in self.pc[p]], F64)
        else:
            pc = Grid((1, 3), list(self.pc[self.points[0]]), F64)
        d = A.construct(det, [], {"shape": tuple(N(n) for n in sig), "pc": pc, "binning": N(2), **self.geometry})
        xmap = crystal_map(self.points, y=len(nav) == 2) if with_map and nav else None
        self.s = Obj(cls, SIGNAL, {
            "_lazy": False, "data": Grid(shape, list(self.data), dtype), "axes_manager": manager(axes), "metadata": meta("metadata"),
            "original_metadata": meta("original metadata"), "_detector": d, "_xmap": xmap, "_signal_type": "EBSD",
            "_static_background": Grid(sig, list(self.bg), dtype) if background else None})
        self.background = background
        self.scales = {a.attrs["name"]: a.attrs["scale"] for a in axes}
        self.offsets = {a.attrs["name"]: a.attrs["offset"] for a in axes}

    def call(self, name, *args, **kw):
        return self.A.call(self.A.attr(self.s, name, None), list(args), kw, None)


def meta(name):
    return Obj(None, name, {"as_dictionary": Fn("as_dictionary", lambda A, a, k: Dict({name: Opaque(name)}))})


def pick(ns, p):
    """What Python's index takes of a list."""
    if isinstance(p, int):
        return [ns[p]]
    return ns[p]


def the_slice(p):
    if isinstance(p, int):
        return N(p)
    return Slice(*(None if x is None else N(x) for x in (p.start, p.stop, p.step)))


def shown(p):
    if isinstance(p, int):
        return str(p)
    a, b, c = ("" if x is None else str(x) for x in (p.start, p.stop, p.step))
    return f"{a}:{b}" + (f":{c}" if c else "")


S = slice
NAV_CUTS = {
    (3, 4): (((S(1, 3),), ), ((S(None), S(1, None))), (S(1, 3), S(0, 2)), (2,), (S(None), 1), (1, 2), (-1,), (S(None, None, 2),),
             (S(1, 2), S(1, 2)), (S(1, -1), S(-2, None)), (S(None), -1), (S(-3, 3), 0), (0, S(1, 3))),
    (5,): ((S(1, 4),), (2,), (S(None, None, 2),), (S(-2, None),), (S(2, 3),)),
}
NAV_CUTS[(3, 4)] = ((S(1, 3),),) + NAV_CUTS[(3, 4)][1:]
SIG_CUTS = ((S(1, 5),), (S(None), S(1, 3)), (S(1, 5), S(0, 2)), (S(-3, None),), (S(None, -1),), (S(None), S(-2, None)),
            (S(None), S(None, -1)), (S(2, 6), S(1, 4)), (S(1, 4), S(None)))
STEPS = ((S(None, None, 2),), (S(None), S(None, None, 2)))


def part(w, res, fields, what, where, new, points, nav, rows, cols, xmap=True):
    """The attributes of what is left: patterns of these points, in an array
    of this shape, with these rows and columns of pixels."""
    A = w.A
    if not isinstance(new, Obj) or new.name != SIGNAL:
        res.undecided.append(f"{what}: {new!r}"[:200])
        return
    if "xmap" in fields and xmap:
        res.count("obligations")
        m = new.attrs.get("_xmap")
        if m is None:
            res.add("unadapted", f"{what}: xmap", "the crystal map is lost", where)
        elif not isinstance(m, Obj) or m.name != MAP:
            res.undecided.append(f"{what}: crystal map {m!r}"[:200])
        elif list(m.attrs["points"]) != list(points):
            res.add("unadapted", f"{what}: xmap", f"the crystal map has the points {list(m.attrs['points'])[:12]}, the signal the patterns of {points[:12]}", where)
        elif map_shape(m) != (tuple(nav) or (1,)):
            res.add("unadapted", f"{what}: xmap", f"the crystal map has shape {map_shape(m)}, the signal's map {tuple(nav)}", where)
        else:
            res.count("proved_equal")
    bg = new.attrs.get("_static_background")
    if "static_background" in fields and w.background:
        want = [w.bg[i * w.sig[1] + j] for i in rows for j in cols]
        if bg is None:
            res.count("obligations")
            res.add("unadapted", f"{what}: static_background", "the static background is lost", where)
        else:
            compare(res, "unadapted", f"{what}: static_background", A.deref(bg), (len(rows), len(cols)), want, where)
    if "detector" not in fields:
        return
    d = detector(w, res, what, where, new, (len(rows), len(cols)), N(2))
    if d is None:
        return
    regular = rows == list(range(rows[0], rows[-1] + 1)) and cols == list(range(cols[0], cols[-1] + 1))
    if not regular:
        return                # pixels are no rectangle: there is no projection center
    ny, nx = w.sig
    n, m = len(rows), len(cols)
    want = []
    for p in points if w.each else w.points[:1]:
        x, y, z = w.pc[p]
        want += [x.mul(N(nx)).sub(N(cols[0])).div(N(m)), y.mul(N(ny)).sub(N(rows[0])).div(N(n)), z.mul(N(ny)).div(N(n))]
    shape = ((tuple(nav) or (1,)) if w.each else (1,)) + (3,)
    compare(res, "unadapted", f"{what}: detector.pc", A.deref(A.attr(d, "pc", None)), shape, want, where)


def detector(w, res, what, where, new, shape, binning):
    """The detector's shape, binning and geometry."""
    A = w.A
    d = new.attrs.get("_detector")
    if not isinstance(d, Obj):
        res.undecided.append(f"{what}: detector {d!r}"[:200])
        return None
    told(res, "unadapted", f"{what}: detector.shape", A, A.attr(d, "shape", None), tuple(shape), where)
    if binning is not None:
        told(res, "unadapted", f"{what}: detector.binning", A, A.attr(d, "binning", None), binning.value, where)
    for k, v in w.geometry.items():
        res.count("obligations")
        got = A.attr(d, k, None)
        if not isinstance(got, Num):
            res.undecided.append(f"{what}: detector.{k} {got!r}"[:200])
        elif not got.eq(v):
            res.add("unadapted", f"{what}: detector.{k}", f"it is {got!r}, not that of the signal", where)
        else:
            res.count("proved_equal")
    return d


def untouched(w, res, what, where, before):
    pass


def scan(proj, res: Result, fields=("xmap", "static_background", "detector")):
    cls = next((c for c in proj.classes.values() if c.name == "EBSD"), None)
    if cls is None or not any(c.name == "EBSDDetector" for c in proj.classes.values()):
        return
    seen: set = set()

    def ask(name, what, one):
        f = proj.lookup(cls, name)
        if f is None:
            return
        described(res, "unadapted", f"{cls.name}.{what}", lambda: one(f"{cls.name}.{what}", f.where), f.where)
        res.count("cases")

    # --- slices of the map
    for nav, cuts in NAV_CUTS.items():
        for cut, pcs in itertools.product(cuts, ("each", "one")):
            if pcs == "one" and len(cut) > 1:
                continue
            def one(what, where, nav=nav, cut=cut, pcs=pcs):
                w = World(proj, nav, pcs)
                new = w.call("_slicer", tuple(the_slice(p) for p in cut), True)
                full = list(cut) + [S(None)] * (len(nav) - len(cut))
                along = full[::-1]                       # rows first
                left = tuple(len(pick(list(range(n)), p)) for n, p in zip(nav, along) if isinstance(p, slice))
                sel = [pick(list(range(n)), p) for n, p in zip(nav, along)]
                pts = [(r, c) for r in (sel[0] if len(nav) == 2 else [0]) for c in sel[-1]]
                part(w, res, fields, what, where, new, pts, left, list(range(SIG[0])), list(range(SIG[1])))
                seen.update(w.A.functions)
            ask("_slicer", f"inav[{', '.join(map(shown, cut))}] of a map {nav}, {'a PC per pattern' if pcs == 'each' else 'one PC'}", one)

    # --- slices of the patterns
    for cut in SIG_CUTS + STEPS:
        for nav, pcs in (((2, 3), "each"), ((2, 3), "one"), ((3,), "each"), ((), "one")):
            if nav == () and cut not in SIG_CUTS[2:4] or nav == (3,) and cut not in SIG_CUTS[:3] or cut in STEPS and pcs == "each":
                continue
            def one(what, where, cut=cut, nav=nav, pcs=pcs):
                w = World(proj, nav, pcs)
                new = w.call("_slicer", tuple(the_slice(p) for p in cut), False)
                full = (list(cut) + [S(None)] * (2 - len(cut)))[::-1]
                rows, cols = (pick(list(range(n)), p) for n, p in zip(SIG, full))
                part(w, res, fields, what, where, new, w.points, nav, rows, cols, xmap=bool(nav))
                seen.update(w.A.functions)
            ask("_slicer", f"isig[{', '.join(map(shown, cut))}] of a map {nav}, {'a PC per pattern' if pcs == 'each' else 'one PC'}", one)
    if "static_background" in fields:
        def one(what, where):
            w = World(proj, (2, 3), background=False)
            new = w.call("_slicer", (the_slice(S(1, 5)),), False)
            part(w, res, fields, what, where, new, w.points, (2, 3), list(range(SIG[0])), list(range(1, 5)))
        ask("_slicer", "isig[1:5] without a background", one)

    # --- crop
    for nav, ax, start, end in [((3, 4), 0, 1, 3), ((3, 4), 1, 1, None), ((3, 4), 2, 2, 5), ((3, 4), 3, 1, 3), ((3, 4), "dx", None, -1),
                                ((3, 4), "dy", 2, None), ((3, 4), "x", None, -1), ((3, 4), "y", None, 2), ((5,), 0, 1, 4), ((5,), 1, 1, 5),
                                ((5,), 2, None, 2), ((), 0, 1, 5), ((), 1, 1, None), ((3, 4), 2, None, None)]:
        for pcs in ("each", "one") if nav else ("one",):
            for kw in (False, True):
                if kw and (pcs == "one" or ax not in (0, "dx")):
                    continue
                def one(what, where, nav=nav, ax=ax, start=start, end=end, pcs=pcs, kw=kw):
                    w = World(proj, nav, pcs)
                    a = manager_axis(w.A, w.s.attrs["axes_manager"], ax if isinstance(ax, str) else N(ax))
                    name = a.attrs["name"]
                    val = [None if x is None else N(x) for x in (start, end)]
                    first = ax if isinstance(ax, str) else N(ax)
                    if kw:
                        w.call("crop", first, end=val[1], start=val[0])
                    else:
                        w.call("crop", first, *val)
                    size = {"y": nav[0] if len(nav) == 2 else 1, "x": nav[-1] if nav else 1, "dy": SIG[0], "dx": SIG[1]}
                    sel = {k: list(range(n)) for k, n in size.items()}
                    sel[name] = sel[name][start:end]
                    left = tuple(len(sel[k]) for k in ("y", "x")[2 - len(nav):])
                    pts = [(r, c) for r in sel["y"] for c in sel["x"]]
                    part(w, res, fields, what, where, w.s, pts, left, sel["dy"], sel["dx"], xmap=bool(nav))
                    seen.update(w.A.functions)
                ask("crop", f"crop({ax!r}, {'start=' if kw else ''}{start}, {'end=' if kw else ''}{end}) of a map {nav}, "
                            f"{'a PC per pattern' if pcs == 'each' else 'one PC'}", one)

    # --- rebin
    for nav, how, vals in [((2, 3), "scale", (1, 1, 2, 2)), ((2, 3), "scale", (1, 1, 3, 2)), ((2, 3), "scale", (1, 1, 1, 2)),
                           ((2, 3), "new_shape", (3, 2, 3, 2)), ((2, 3), "new_shape", (3, 2, 6, 2)), ((2, 4), "scale", (2, 1, 1, 1)),
                           ((2, 4), "new_shape", (4, 1, 6, 4)), ((4,), "scale", (1, 2, 2)), ((4,), "new_shape", (2, 6, 4)),
                           ((), "scale", (2, 2)), ((2, 4), "scale", (2, 2, 2, 2)), ((2, 3), "scale", (1, 1, 1, 1))]:
        for pcs in ("each", "one") if nav else ("one",):
            def one(what, where, nav=nav, how=how, vals=vals, pcs=pcs):
                w = World(proj, nav, pcs, dtype=F64)
                new = w.call("rebin", **{how: [N(v) for v in vals]})
                full = (*nav[::-1], *SIG[::-1])
                f = [v if how == "scale" else n // v for n, v in zip(full, vals)]
                fx, fy = f[-2:]
                shape = (SIG[0] // fy, SIG[1] // fx)
                if not isinstance(new, Obj) or new.name != SIGNAL:
                    res.undecided.append(f"{what}: {new!r}"[:200])
                    return
                whole = all(x == 1 for x in f[:-2])
                if whole:
                    if "xmap" in fields and nav:
                        res.count("obligations")
                        m = new.attrs.get("_xmap")
                        if not isinstance(m, Obj) or list(m.attrs["points"]) != w.points or map_shape(m) != nav:
                            res.add("unadapted", f"{what}: xmap", "the crystal map is not that of the patterns", where)
                        else:
                            res.count("proved_equal")
                    if "static_background" in fields:
                        bg = new.attrs.get("_static_background")
                        if bg is None:
                            res.count("obligations")
                            res.add("unadapted", f"{what}: static_background", "the static background is lost", where)
                        else:
                            compare(res, "unadapted", f"{what}: static_background", w.A.deref(bg), shape, blocks(
                                Grid(SIG, w.bg, F64), (fy, fx)).cells, where)
                elif "xmap" in fields:
                    res.count("obligations")
                    m = new.attrs.get("_xmap")
                    left = tuple(n // k for n, k in zip(nav, f[:-2][::-1]))
                    if isinstance(m, Obj) and map_shape(m) != left:
                        res.add("unadapted", f"{what}: xmap", f"the crystal map has shape {map_shape(m)}, the signal's map {left}", where)
                    else:
                        res.count("proved_equal")
                if "detector" in fields:
                    d = detector(w, res, what, where, new, shape, N(2 * fx) if fx == fy else None)
                    if d is not None:
                        pc = w.A.deref(w.A.attr(d, "pc", None))
                        left = tuple(n // k for n, k in zip(nav, f[:-2][::-1]))
                        if whole:
                            pts = w.points if w.each else w.points[:1]
                            compare(res, "unadapted", f"{what}: detector.pc", pc, ((nav or (1,)) if w.each else (1,)) + (3,),
                                    [v for p in pts for v in w.pc[p]], where)
                        elif isinstance(pc, Grid):
                            res.count("obligations")
                            if tuple(pc.axes) not in (left + (3,), (1, 3)):
                                res.add("unadapted", f"{what}: detector.pc", f"projection centers of shape {pc.axes[:-1]} for a map {left}", where)
                            else:
                                res.count("proved_equal")
                seen.update(w.A.functions)
            ask("rebin", f"rebin({how}={vals}) of a map {nav}, {'a PC per pattern' if pcs == 'each' else 'one PC'}", one)

    # --- downsample
    for nav, inplace, bg, pcs in [((2, 3), True, True, "each"), ((2, 3), False, True, "each"), ((2, 3), False, False, "one"),
                                  ((3,), True, True, "one"), ((), False, True, "one")]:
        def one(what, where, nav=nav, inplace=inplace, bg=bg, pcs=pcs):
            w = World(proj, nav, pcs, background=bg)
            new = w.call("downsample", N(2), inplace=inplace)
            new = w.s if inplace else new
            shape = (SIG[0] // 2, SIG[1] // 2)
            if not isinstance(new, Obj) or new.name != SIGNAL:
                res.undecided.append(f"{what}: {new!r}"[:200])
                return
            if "xmap" in fields and nav:
                res.count("obligations")
                m = new.attrs.get("_xmap")
                if not isinstance(m, Obj) or list(m.attrs["points"]) != w.points or map_shape(m) != nav:
                    res.add("unadapted", f"{what}: xmap", "the crystal map is not that of the patterns", where)
                else:
                    res.count("proved_equal")
            if "static_background" in fields and bg:
                got = new.attrs.get("_static_background")
                res.count("obligations")
                if got is None or isinstance(got, Grid) and tuple(got.axes) != shape:
                    res.add("unadapted", f"{what}: static_background", "the static background does not have the patterns' shape", where)
                else:
                    res.count("proved_equal")
            if "detector" in fields:
                d = detector(w, res, what, where, new, shape, N(4))
                if d is not None:
                    pts = w.points if w.each else w.points[:1]
                    compare(res, "unadapted", f"{what}: detector.pc", w.A.deref(w.A.attr(d, "pc", None)),
                            ((nav or (1,)) if w.each else (1,)) + (3,), [v for p in pts for v in w.pc[p]], where)
            seen.update(w.A.functions)
        ask("downsample", f"downsample(2, inplace={inplace}) of a map {nav}, {'a' if bg else 'no'} background, "
                          f"{'a PC per pattern' if pcs == 'each' else 'one PC'}", one)

    # --- grids
    for nav, grid in (((3, 4), (2, 2)), ((5, 7), (3, 2)), ((4, 5), (1, 3)), ((7,), (3,)), ((6, 6), (2, 5)), ((9, 9), (3, 3)), ((3, 4), (4, 3)), ((5,), (5,)), ((8,), (5,)), ((5,), (1,))):
        for pcs in ("each", "one"):
            def one(what, where, nav=nav, grid=grid, pcs=pcs):
                w = World(proj, nav, pcs, sig=(2, 2))
                got = w.call("extract_grid", tuple(N(n) for n in grid), return_indices=True)
                if not isinstance(got, tuple) or len(got) != 2:
                    res.undecided.append(f"{what}: {got!r}"[:200])
                    return
                new, idx = got
                idx = w.A.grid(idx)
                left = grid[::-1]
                n = math.prod(left)
                told_shape = tuple(idx.axes) == (len(nav), *left)
                res.count("obligations")
                if not told_shape or any(c.value is None for c in idx.cells):
                    res.add("unadapted", f"{what}: indices", f"indices of shape {tuple(idx.axes)}", where) if not told_shape else res.undecided.append(
                        f"{what}: indices")
                    return
                res.count("proved_equal")
                ix = [int(c.value) for c in idx.cells]
                pts = [(ix[k], ix[n + k]) if len(nav) == 2 else (0, ix[k]) for k in range(n)]
                rows, cols = [0, 1], [0, 1]
                g = w.A.deref(new.attrs.get("data"))
                if "xmap" in fields:
                    compare(res, "unadapted", f"{what}: patterns", g, (*left, 2, 2), [
                        sym("p" + " ".join(map(str, (*(p if len(nav) == 2 else p[1:]), i, j)))) for p in pts for i in rows for j in cols], where)
                    axs = {a.attrs["name"]: a for a in new.attrs["axes_manager"].attrs["axes"]}
                    for k, name in enumerate(("y", "x")[2 - len(nav):]):
                        gap = {b - a for a, b in zip(*(sorted({p[k + 2 - len(nav)] for p in pts})[j:] for j in (0, 1)))}
                        res.count("obligations")
                        a = axs.get(name)
                        if a is None or size_of(a) != left[k]:
                            res.add("unadapted", f"{what}: axis {name}", f"it has {a.attrs['size'] if a else 'no'} points, not {left[k]}", where)
                        elif len(gap) == 1 and not a.attrs["scale"].eq(w.scales[name].mul(N(min(gap)))):
                            res.add("unadapted", f"{what}: axis {name}", f"its scale is {a.attrs['scale']!r} for points {min(gap)} steps apart", where)
                        else:
                            res.count("proved_equal")
                part_of(w, res, fields, what, where, new, pts, left)
                seen.update(w.A.functions)
            ask("extract_grid", f"extract_grid({grid}) of a map {nav}, {'a PC per pattern' if pcs == 'each' else 'one PC'}", one)

    if "static_background" in fields:
        for to in ("float32", "uint16"):
            def one(what, where, to=to):
                w = World(proj, (2, 2), sig=(2, 2))
                w.call("change_dtype", to)
                bg = w.A.deref(w.s.attrs.get("_static_background"))
                res.count("obligations")
                if bg is None:
                    res.add("unadapted", f"{what}: static_background", "the static background is lost", where)
                elif not isinstance(bg, Grid) or w.A.dtype_name(bg.dtype) is None:
                    res.undecided.append(f"{what}: background {bg!r}"[:200])
                elif w.A.dtype_name(bg.dtype) != to:
                    res.add("unadapted", f"{what}: static_background", f"the static background has the type {w.A.dtype_name(bg.dtype)}, patterns {to}", where)
                else:
                    res.count("proved_equal")
            ask("change_dtype", f"change_dtype({to!r})", one)
    res.coverage["cut_functions_described"] = len(seen)


def part_of(w, res, fields, what, where, new, pts, left):
    """As part(), for points that are no rectangle."""
    rows, cols = list(range(w.sig[0])), list(range(w.sig[1]))
    part(w, res, fields, what, where, new, sorted(pts), left, rows, cols)


EXTENTS = ((1, 3, 2, 5), (0, 4, 0, 6), (-2, 3, 1, 9), (2, 9, -1, 4), (3, 4, 5, 6), (0, 2, 0, 6), (1, 4, 0, 6))


def detectors(proj, res: Result):
    """Detectors cropped and copied."""
    cls = next((c for c in proj.classes.values() if c.name == "EBSDDetector"), None)
    if cls is None or not any(c.name == "EBSD" for c in proj.classes.values()):
        return
    for name, nav, pcs, args in [("crop", nav, pcs, e) for e in EXTENTS for nav, pcs in (((2, 3), "each"), ((3,), "each"), ((), "one"))] + [
            ("deepcopy", (2, 3), "each", None), ("deepcopy", (), "one", None)]:
        f = proj.lookup(cls, name)
        if f is None:
            continue
        what = f"EBSDDetector.{name}({args or ''}), PCs of shape {nav or (1,)}"

        def one(name=name, nav=nav, pcs=pcs, args=args, f=f, what=what):
            w = World(proj, nav, pcs)
            d = w.s.attrs["_detector"]
            new = w.A.call(w.A.attr(d, name, None), [tuple(N(x) for x in args)] if args else [], {}, None)
            if not isinstance(new, Obj):
                res.undecided.append(f"{what}: {new!r}"[:200])
                return
            t, b, l, r = (max(args[0], 0), min(args[1], SIG[0]), max(args[2], 0), min(args[3], SIG[1])) if args else (0, SIG[0], 0, SIG[1])
            o = Obj(w.s.cls, SIGNAL, {**w.s.attrs, "_detector": new})
            part(w, res, ("detector",), what, f.where, o, w.points, nav, list(range(t, b)), list(range(l, r)))
        described(res, "unadapted", what, one, f.where)
        res.count("cases")
