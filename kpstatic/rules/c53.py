"""C53: master patterns are looked up by direction, energy and hemisphere, and
converted from the stereographic to the square Lambert projection.

The conversion and the lookups are interpreted for small master patterns with
every pixel told apart; the projections' formulas are compared with their
definitions at every point of the small grids and for symbolic directions.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction

from .. import poly as Q
from ..alg import Alg, Arr, Dict, Fn, Obj, Opaque, PyError, Raises, Unsupported
from ..algtools import judge
from ..grid import Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from . import cut
from .c09 import run_one
from .c10 import functions
from .c43 import described
from .c50 import compare
from .cut import F64, N, SIGNAL, axis, manager, meta

ENERGIES = (12, Fraction(25, 2), 20)
CLASSES = ("EBSDMasterPattern", "ECPMasterPattern")

Q.EVAL["interp"] = lambda y, x, *cells: sum(float(c) * math.cos(k + 1 + 3 * float(y) + 1.7 * float(x)) for k, c in enumerate(cells))


def interp(y, x, cells):
    """The pattern with these pixels between pixels; places as fractions of
    the side, rows first."""
    return Num.of(Q.atom("interp", (N(Fraction(round(y, 9)).limit_denominator(10**9)),
                                    N(Fraction(round(x, 9)).limit_denominator(10**9)), *cells)))


def lambert_vector(x, y):
    """Direction in the upper hemisphere of a point of the square from -1 to
    1 (Rosca 2010)."""
    x, y = x * math.sqrt(math.pi / 2), y * math.sqrt(math.pi / 2)
    if x == y == 0:
        return 0.0, 0.0, 1.0
    if abs(x) <= abs(y):
        q = 2 * y / math.pi * math.sqrt(math.pi - y * y)
        return q * math.sin(math.pi * x / 4 / y), q * math.cos(math.pi * x / 4 / y), 1 - 2 * y * y / math.pi
    q = 2 * x / math.pi * math.sqrt(math.pi - x * x)
    return q * math.cos(math.pi * y / 4 / x), q * math.sin(math.pi * y / 4 / x), 1 - 2 * x * x / math.pi


def lambert_point(x, y, z):
    """Point of the square, from -sqrt(pi/2) to sqrt(pi/2), of a direction."""
    n = math.sqrt(x * x + y * y + z * z)
    x, y, z = x / n, y / n, z / n
    if abs(z) == 1:
        return 0.0, 0.0
    s = math.sqrt(2 * (1 - abs(z)))
    if abs(y) <= abs(x):
        s = math.copysign(s, x)
        return s * math.sqrt(math.pi) / 2, s * 2 / math.sqrt(math.pi) * math.atan(y / x)
    s = math.copysign(s, y)
    return s * 2 / math.sqrt(math.pi) * math.atan(x / y), s * math.sqrt(math.pi) / 2


def value(x):
    """Value of a number without symbols."""
    if isinstance(x, Num):
        if x.value is not None:
            return float(x.value)
        v = Q.value_of(x)
        if v is not None:
            return v
    raise Unsupported("number")


class Engine(cut.Engine):
    MAX_LOOP = 400

    def __init__(self, proj):
        super().__init__(proj)
        self.hooks.update({
            "orix.vector.Vector3d": vector, "orix.projections.StereographicProjection": stereographic,
            "scipy.interpolate.interpn": interpn, "orix.crystal_map.Phase": lambda A, a, k, s: phase("another phase"),
        })

    def num(self, v):
        if isinstance(v, Obj) and v.name == "float":
            return v.attrs["v"]
        return super().num(v)

    def attr(self, o, a, fr):
        o = self.deref(o)
        if isinstance(o, Obj) and o.name == SIGNAL and a == "inav":
            return Obj(None, "inav", {"of": o})
        return super().attr(o, a, fr)

    def index(self, o, i):
        o = self.deref(o)
        if isinstance(o, Obj) and o.name == "inav":
            s = o.attrs["of"]
            parts = list(i) if isinstance(i, tuple) else [i]
            axs = cut.ax_of(s.attrs["axes_manager"], True)[::-1]
            if len(parts) > len(axs):
                raise PyError("too many indices")
            for k, p in enumerate(parts):
                p = self.deref(p)
                if isinstance(p, Obj) and p.name == "float":
                    vals = [value(self.num(x.attrs["v"])) for x in axs[k].attrs["axis"]] if "axis" in axs[k].attrs else None
                    if vals is None:
                        raise Unsupported("value of an axis")
                    v = value(self.num(p.attrs["v"]))
                    parts[k] = N(min(range(len(vals)), key=lambda j: abs(vals[j] - v)))
            return cut.slicer(self, s, [tuple(parts), True], {})
        return super().index(o, i)

    def external(self, d, args, kwargs, fr):
        x = self.deref(args[0]) if args else None
        if d == "dict" and (not args or isinstance(x, Dict)):
            return Dict({**(x or {}), **kwargs})
        if d in ("float", "numpy.float64") and args:
            return x if isinstance(x, Obj) and x.name == "float" else Obj(None, "float", {"v": self.num(x)})
        if d in ("int", "round") and isinstance(x, Obj) and x.name == "float":
            return N(int(value(self.num(x.attrs["v"]))))
        if d in ("min", "max", "numpy.min", "numpy.max", "numpy.amax", "numpy.amin") and isinstance(x, list) and x and all(
                isinstance(v, Obj) and v.name == "float" for v in x):
            f = min if "min" in d else max
            return f(x, key=lambda v: value(self.num(v.attrs["v"])))
        return super().external(d, args, kwargs, fr)


def phase(name):
    return Obj(None, name, {"deepcopy": Fn("deepcopy", lambda A, a, k: phase(name)), "name": Opaque("name of " + name),
                            "point_group": Opaque("point group of " + name)})


def vector(A, args, kwargs, s):
    g = A.grid(args[0])
    if g.axes[-1] != 3:
        raise PyError("vectors have three components")
    part = {c: Grid(g.axes[:-1], g.cells[k::3], F64) for k, c in enumerate("xyz")}
    return Obj(None, "vector", {**part, "data": g})


def stereographic(A, args, kwargs, s):
    pole = args[0] if args else kwargs.get("pole", N(-1))
    o = Obj(None, "stereographic projection", {"pole": pole})

    def xy(A, args, kwargs):
        v = A.deref(args[0])
        if not isinstance(v, Obj) or v.name != "vector":
            raise Unsupported("vector")
        p = value(A.num(o.attrs["pole"]))
        out = []
        for c in "xy":
            out.append(Grid(v.attrs[c].axes, [Num.const(Fraction(value(a) * -p / (value(z) - p)))
                                              for a, z in zip(v.attrs[c].cells, v.attrs["z"].cells)], F64))
        return tuple(out)
    o.attrs["vector2xy"] = Fn("vector2xy", xy)
    return o


def interpn(A, args, kwargs, s):
    kw = {**dict(zip(("points", "values", "xi"), args)), **kwargs}
    values = A.grid(kw["values"])
    pts = [A.grid(p) for p in A.items(kw["points"])]
    if len(values.axes) != 2:
        raise Unsupported("interpolation")
    if [tuple(p.axes) for p in pts] != [(n,) for n in values.axes]:
        raise PyError("points and values do not match")
    xi = A.deref(kw["xi"])
    if isinstance(xi, (tuple, list)):
        y, x = (A.grid(c) for c in xi)
    else:
        g = A.grid(xi)
        if g.axes[-1] != 2:
            raise PyError("places of two coordinates")
        y, x = (Grid(g.axes[:-1], g.cells[k::2], F64) for k in range(2))
    at = []
    for p, c in zip(pts, (y, x)):
        p = [value(v) for v in p.cells]
        step = (p[-1] - p[0]) / (len(p) - 1)
        if any(abs(b - a - step) > 1e-9 for a, b in zip(p, p[1:])):
            raise Unsupported("points")
        at.append([(value(v) - p[0]) / (p[-1] - p[0]) for v in c.cells])
    return Grid(y.axes, [interp(a, b, values.cells) for a, b in zip(*at)], F64)


class World:
    def __init__(self, proj, cls, names, n, hemisphere="both", projection="stereographic", engine=None, dtype="float64"):
        self.A = A = engine or Engine(proj)
        size = {"hemisphere": 2, "energy": len(ENERGIES)}
        nav = tuple(size[k] for k in names)
        axes = [axis(k, size[k], True) for k in names] + [axis(k, n, False) for k in ("height", "width")]
        for a in axes:
            if a.attrs["name"] == "energy":
                a.attrs["axis"] = [Obj(None, "float", {"v": N(e)}) for e in ENERGIES]
        shape = (*nav, n, n)
        self.data = Grid(shape, [sym("p" + " ".join(map(str, p))) for p in itertools.product(*map(range, shape))], DType(dtype))
        self.phase = phase("the phase")
        self.nav = nav
        self.s = Obj(cls, SIGNAL, {
            "_lazy": False, "data": self.data.copy(), "axes_manager": manager(axes), "metadata": meta("metadata"),
            "original_metadata": meta("original metadata"), "_hemisphere": hemisphere, "_projection": projection,
            "_phase": self.phase, "_signal_type": cls.name})

    def part(self, *p):
        """Pixels of one pattern."""
        n = self.data.axes[-1]
        k = 0
        for i, m in zip(p, self.nav):
            k = k * m + i
        return self.data.cells[k * n * n:(k + 1) * n * n]


def scan(proj, ctx: Ctx, res: Result):
    seen: set[str] = set()
    v = [sym(n) for n in ("vx", "vy", "vz")]

    # --- the projection's formulas, for directions into every octant
    for f in functions(proj, "_vector2lambert"):
        for signs in itertools.product((1, -1), repeat=3):
            def one(f=f, signs=signs):
                a = Alg(proj)
                s = [x.mul(N(k)) for x, k in zip(v, signs)]
                r = a.call_func(f, [Arr(list(s))], {})
                seen.update(a.functions)
                if not isinstance(r, Arr) or r.comps is None or len(r.comps) != 2:
                    res.undecided.append(f"{f.name}: not described")
                    return
                got = [a.num(c) for c in r.comps]
                what = f"{f.name}: directions of signs {signs}"
                res.count("obligations")
                if not all(g.clean for g in got):
                    res.undecided.append(what)
                    return
                n = 0
                for seed in range(24):
                    p = Q.Point(seed)
                    at = [p.ev(x) for x in s]
                    try:
                        vals = [p.ev(g) for g in got]
                    except (ZeroDivisionError, ValueError, OverflowError):
                        continue
                    n += 1
                    want = lambert_point(*at)
                    if any(abs(x - y) > 1e-9 for x, y in zip(vals, want)):
                        res.add("lambert-point", what, f"the point of direction {[round(x, 4) for x in at]} is "
                                f"{[round(x, 6) for x in vals]} ({got[0]!r}, {got[1]!r}), not {[round(x, 6) for x in want]}"[:600], f.where)
                        return
                if n:
                    res.count("proved_equal")
                else:
                    res.undecided.append(what)
            run_one(res, f.name, one)
        for z in (1, -1):
            def pole(f=f, z=z):
                a = Alg(proj)
                r = a.call_func(f, [Arr([Q.ZERO, Q.ZERO, N(z)])], {})
                if isinstance(r, Arr) and r.comps is not None and len(r.comps) == 2:
                    judge(res, "lambert-point", f"{f.name}: the pole {z}", [a.num(c) for c in r.comps], [Q.ZERO, Q.ZERO], f.where, "xy")
            run_one(res, f.name, pole)
    for f in functions(proj, "_lambert2vector"):
        def one(f=f):
            a = Engine(proj)
            at = [(Fraction(i, 5), Fraction(j, 5)) for i in range(-5, 6) for j in range(-5, 6)]
            got = a.deref(a.call_func(f, [Grid((len(at),), [N(x) for x, _ in at], F64), Grid((len(at),), [N(y) for _, y in at], F64)], {}))
            seen.update(a.functions)
            res.count("obligations")
            if not isinstance(got, Grid):
                res.undecided.append(f"{f.name}: not described")
                return
            if tuple(got.axes) != (len(at), 3):
                res.add("lambert-direction", f.name, f"{len(at)} points give an array of shape {tuple(got.axes)}", f.where)
                return
            for k, (x, y) in enumerate(at):
                vals = [value(c) for c in got.cells[3 * k:3 * k + 3]]
                want = lambert_vector(float(x), float(y))
                if any(abs(p - q) > 1e-9 for p, q in zip(vals, want)):
                    res.add("lambert-direction", f.name, f"the direction of point ({float(x)}, {float(y)}) is "
                            f"{[round(c, 6) for c in vals]}, not {[round(c, 6) for c in want]}", f.where)
                    return
            res.count("values_compared", 3 * len(at))
            res.count("proved_equal")
        described(res, "lambert-direction", f.name, one, f.where)

    for cls in [c for c in proj.classes.values() if c.name in CLASSES]:
        # --- conversion
        f = proj.lookup(cls, "as_lambert")
        if f is not None:
            for names, n, hemisphere in ((("hemisphere", "energy"), 5, "both"), (("energy",), 4, "upper"), (("hemisphere",), 5, "both"),
                                         ((), 5, "lower")):
                what = f"{cls.name}.as_lambert of {n} x {n} patterns, {' and '.join(names) or 'no'} axes"

                def one(cls=cls, f=f, names=names, n=n, hemisphere=hemisphere, what=what):
                    w = World(proj, cls, names, n, hemisphere)
                    A = w.A
                    new = A.deref(A.call(A.attr(w.s, "as_lambert", None), [], {"show_progressbar": False}, None))
                    seen.update(A.functions)
                    if not isinstance(new, Obj) or new.name != SIGNAL:
                        res.undecided.append(f"{what}: {new!r}"[:200])
                        return
                    want = []
                    for p in itertools.product(*map(range, w.nav)):
                        cells = w.part(*p)
                        for r, c in itertools.product(range(n), repeat=2):
                            x, y, z = lambert_vector(2 * c / (n - 1) - 1, 2 * r / (n - 1) - 1)
                            want.append(interp((y / (1 + z) + 1) / 2, (x / (1 + z) + 1) / 2, cells))
                    compare(res, "conversion", what, A.deref(new.attrs["data"]), (*w.nav, n, n), want, f.where)
                    for a, x in (("_hemisphere", hemisphere), ("_projection", "lambert")):
                        res.count("obligations")
                        got = A.deref(new.attrs.get(a))
                        if got == x:
                            res.count("proved_equal")
                        elif isinstance(got, (str, type(None))):
                            res.add("conversion", f"{what}: {a[1:]}", f"the new pattern's {a[1:]} is {got!r}, not {x!r}", f.where)
                        else:
                            res.undecided.append(f"{what}: {a[1:]} {got!r}"[:200])
                    got = A.deref(new.attrs.get("_phase"))
                    res.count("obligations")
                    if isinstance(got, Obj) and got.name == "the phase":
                        res.count("proved_equal")
                    elif isinstance(got, Obj) and got.name == "another phase" or got is None:
                        res.add("conversion", f"{what}: phase", "the new pattern does not get the phase", f.where)
                    else:
                        res.undecided.append(f"{what}: phase {got!r}"[:200])
                described(res, "conversion", what, one, f.where)
                res.count("cases")
        # --- the pattern of an energy, of both hemispheres
        f = proj.lookup(cls, "_get_master_pattern_arrays_from_energy")
        if f is not None:
            for names, hemisphere in ((("hemisphere", "energy"), "both"), (("energy",), "upper"), (("energy",), "lower"),
                                      (("hemisphere",), "both"), ((), "upper")):
                for e in (None, *ENERGIES) if "energy" in names else (None,):
                    what = f"{cls.name}: patterns of energy {e or 'not given'}, {' and '.join(names) or 'no'} axes, hemisphere {hemisphere}"

                    def one(cls=cls, f=f, names=names, hemisphere=hemisphere, e=e, what=what):
                        w = World(proj, cls, names, 2, hemisphere, "lambert")
                        A = w.A
                        r = A.deref(A.call(A.attr(w.s, f.name, None), [], {} if e is None else {"energy": N(e)}, None))
                        seen.update(A.functions)
                        if not isinstance(r, (tuple, list)) or len(r) != 2:
                            res.undecided.append(f"{what}: {r!r}"[:200])
                            return
                        k = {"energy": ENERGIES.index(e) if e else len(ENERGIES) - 1}
                        for i, (side, got) in enumerate(zip(("upper", "lower"), r)):
                            p = [{"hemisphere": i, **k}[m] for m in names]
                            compare(res, "energy", f"{what}: {side}", A.deref(got), (2, 2), w.part(*p), f.where)
                    described(res, "energy", what, one, f.where)
                    res.count("cases")
    patterns(proj, res, seen)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


Q.EVAL["direction"] = lambda pcz, px, k: math.sin(2.1 * float(pcz) + 0.7 * float(px) + 1.3 * float(k))
Q.EVAL["projected"] = lambda *xs: sum(float(x) * math.cos(1.0 + 0.37 * k) for k, x in enumerate(xs))

PROJECTION = ("rotations", "direction_cosines", "master_upper", "master_lower", "npx", "npy", "scale", "dtype_out", "rescale", "out_min",
              "out_max")
BLOCKS = ("chunks", "dtype", "drop_axis", "new_axis", "meta", "name", "token", "enforce_ndim", "concatenate")


def directions(A, args, kwargs, many):
    kw = {**dict(zip(("gnomonic_bounds", "pcz", "nrows", "ncols", "om_detector_to_sample", "signal_mask"), args)), **kwargs}
    z = A.deref(kw["pcz"])
    n = A.const(kw["nrows"]) * A.const(kw["ncols"])
    if isinstance(z, Grid) and len(z.axes) != (1 if many else 0):
        raise PyError("projection centers")
    zs = z.cells if isinstance(z, Grid) else [A.num(z)]
    cells = [Num.of(Q.atom("direction", (c, N(i), N(k)))) for c in zs for i in range(n) for k in range(3)]
    return Grid((len(zs), n, 3) if many else (n, 3), cells, F64)


RANGES = {"uint8": (0, 255), "uint16": (0, 65535), "int16": (-32768, 32767), "float32": (-1, 1), "float64": (-1, 1)}
LIMITS = {f"{n}({d})": x for d, r in RANGES.items() for n, x in zip(("lowest", "highest"), r)}


def limits(x):
    """Ends of the ranges of data types as numbers."""
    return Q.subs(x, lambda a: N(LIMITS[a.args[0]]) if a.fn == "sym" and a.args[0] in LIMITS else None)


def projected(A, f, args, kwargs, many):
    kw = dict(kwargs)
    for p, a in zip([p for p in f.params if p.kind == "pos"], args):
        kw[p.name] = a
    if set(kw) != set(PROJECTION):
        raise PyError(f"{f.name}() called with {sorted(kw)}")
    rot, dc = A.grid(kw["rotations"]), A.grid(kw["direction_cosines"])
    if len(rot.axes) != 2 or rot.axes[1] != 4 or len(dc.axes) != (3 if many else 2):
        raise PyError(f"{f.name}() called with rotations of shape {rot.axes} and directions of shape {dc.axes}")
    n, m = rot.axes[0], dc.axes[-2]
    if many and dc.axes[0] != n:
        raise PyError(f"{n} rotations, directions of {dc.axes[0]} projection centers")
    up, low = A.grid(kw["master_upper"]), A.grid(kw["master_lower"])
    rescale = A.truth(kw["rescale"])
    place = tuple(N(Fraction(value(A.num(kw[k])))) for k in ("npx", "npy", "scale"))
    out = tuple(limits(A.num(kw[k])) if rescale else Q.ZERO for k in ("out_min", "out_max"))
    cells = []
    for i in range(n):
        for j in range(m):
            d = dc.cells[(i * m + j) * 3 if many else j * 3:][:3]
            cells.append(pixel(rot.cells[i * 4:i * 4 + 4], d, up.cells[0], low.cells[0], place, rescale, out))
    return Grid((n, m), cells, DType(A.dtype_name(kw["dtype_out"]) or "unknown"))


def pixel(rot, d, up, low, place, rescale, out):
    return Num.of(Q.atom("projected", (*rot, *d, up, low, *place, N(int(rescale)), *out)))


def map_blocks(A, args, kwargs, s):
    return A.call(args[0], list(args[1:]), {k: v for k, v in kwargs.items() if k not in BLOCKS}, None)


def from_delayed(A, args, kwargs, s):
    g = A.grid(args[0])
    shape = tuple(A.const(x) for x in A.items(args[1] if len(args) > 1 else kwargs["shape"]))
    if shape != tuple(g.axes):
        raise PyError(f"an array of shape {tuple(g.axes)} said to have shape {shape}")
    return g


class Patterns(Engine):
    """Interpretation of the projection of patterns."""

    def __init__(self, proj):
        super().__init__(proj)
        for many, kind in ((False, "fixed"), (True, "varying")):
            self.hooks[f"_get_direction_cosines_for_{kind}_pc"] = lambda A, a, k, s, many=many: directions(A, a, k, many)
            for f in functions(proj, f"_project_patterns_from_master_pattern_with_{kind}_pc"):
                self.hooks[f.name] = lambda A, a, k, s, many=many, f=f: projected(A, f, a, k, many)
        self.hooks.update({
            "_is_suitable_for_projection": lambda A, a, k, s: True,
            "get_chunking": lambda A, a, k, s: (("chunks",), ("pixels",)),
            "gnomonic_bounds": lambda A, a, k, s: Opaque("bounds"),
            "sample_to_detector": lambda A, a, k, s: Opaque("rotation"),
            "dask.delayed": lambda A, a, k, s: a[0], "dask.delayed.delayed": lambda A, a, k, s: a[0],
            "dask.array.from_delayed": from_delayed, "dask.array.map_blocks": map_blocks,
            "orix.crystal_map.CrystalMap": lambda A, a, k, s: Obj(None, cut.MAP, {"kw": Dict(k), "args": list(a)}),
            "orix.crystal_map.PhaseList": lambda A, a, k, s: Obj(None, "phases", {"of": a[0] if a else k.get("phases")}),
            "dask.diagnostics.progress.ProgressBar": lambda A, a, k, s: Obj(None, "bar", {
                n: Fn(n, lambda A, a, k: None) for n in ("register", "unregister")}),
            "dask.diagnostics.ProgressBar": lambda A, a, k, s: Obj(None, "bar", {
                n: Fn(n, lambda A, a, k: None) for n in ("register", "unregister")}),
        })

    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, Grid) and name == "store" and args:
            to = self.deref(args[0])
            if not isinstance(to, Grid) or tuple(to.axes) != tuple(o.axes):
                raise PyError("store")
            to.cells[:] = o.cells
            return None
        if isinstance(o, Grid) and name == "map_blocks" and args:
            return map_blocks(self, [args[0], o, *args[1:]], kwargs, None)
        return super().method(o, name, args, kwargs, fr)


def patterns(proj, res: Result, seen):
    """Signals of patterns projected from a master pattern."""
    cls = next((c for c in proj.classes.values() if c.name == "EBSDMasterPattern"), None)
    det = next((c for c in proj.classes.values() if c.name == "EBSDDetector"), None)
    f = cls and proj.lookup(cls, "get_patterns")
    if f is None or det is None:
        return
    sig, n = (2, 3), 5
    for shape, nav, dtype, compute, energy, of in (
            ((3,), (), "float32", False, None, "float64"), ((3,), (3,), "uint8", False, ENERGIES[1], "float64"),
            ((2, 3), (2, 3), "float64", True, None, "float64"), ((2, 3), (), "uint8", True, 12, "uint16"),
            ((3,), (1, 1), "float32", False, None, "uint8"), ((1,), (), "float64", False, 20, "float64"),
            ((2, 1), (2, 1), "uint16", False, None, "uint8"), ((3,), (2,), "float32", False, None, "float64"),
            ((3,), (1, 4), "float32", False, None, "float64"), ((2, 3), (3, 2), "float32", True, None, "float32"),
            ((2, 3), (6,), "float32", True, None, "float32"), ((1, 3), (1, 3), "uint8", False, None, "uint8"),
            ((1, 3), (), "float32", True, ENERGIES[1], "float32"), ((2,), (), "float64", False, None, "float32"),
            ((2,), (2,), "uint16", True, ENERGIES[1], "uint16"), ((2,), (), "uint8", False, 20, "float32"),
            ((2,), (2,), "int16", False, 20, "uint16")):
        what = (f"EBSDMasterPattern.get_patterns: rotations of shape {shape}, projection centers of shape {nav or (1,)}, "
                f"dtype_out={dtype!r}, compute={compute}, energy={energy}, master pattern of {of}")

        def one(shape=shape, nav=nav, dtype=dtype, compute=compute, energy=energy, of=of, what=what):
            w = World(proj, cls, ("hemisphere", "energy"), n, "both", "lambert", Patterns(proj), of)
            A = w.A
            pts = list(itertools.product(*map(range, nav)))
            pcs = [[sym(f"pc{c} {' '.join(map(str, p))}") for c in "xyz"] for p in pts]
            d = A.construct(det, [], {"shape": tuple(N(k) for k in sig), "pc": Grid((*(nav or (1,)), 3), [v for p in pcs for v in p], F64)})
            ix = list(itertools.product(*map(range, shape)))
            q = [[sym(f"q{c} {' '.join(map(str, p))}") for c in "abcd"] for p in ix]
            rot = Obj(None, "rotations", {"shape": tuple(N(k) for k in shape), "ndim": N(len(shape)), "size": N(len(ix)),
                                          "data": Grid((*shape, 4), [v for p in q for v in p], F64)})
            args = {"rotations": rot, "detector": d, "dtype_out": dtype, "compute": compute, "show_progressbar": False}
            if energy is not None:
                args["energy"] = N(energy)
            many = len(pts) > 1
            fits = not many or nav == shape
            try:
                new = A.deref(A.call(A.attr(w.s, "get_patterns", None), [], args, None))
            except Raises:
                res.count("obligations")
                if fits:
                    res.add("patterns", what, "the call is refused", f.where)
                else:
                    res.count("proved_equal")
                return
            except PyError:
                if fits:
                    raise
                res.count("obligations")
                res.add("patterns", what, "projection centers that do not fit the rotations are not refused", f.where)
                return
            finally:
                seen.update(A.functions)
            if not fits:
                res.count("obligations")
                res.add("patterns", what, "projection centers that do not fit the rotations are not refused", f.where)
                return
            if not isinstance(new, Obj) or new.name != SIGNAL:
                res.undecided.append(f"{what}: {new!r}"[:200])
                return
            k = ENERGIES.index(energy) if energy else len(ENERGIES) - 1
            up, low = (w.part(i, k)[0] for i in range(2))
            rescale = dtype != of
            out = RANGES[dtype] if rescale else (0, 0)
            want = []
            for i, r in enumerate(q):
                z = pcs[i if many else 0][2]
                for j in range(sig[0] * sig[1]):
                    dirs = [Num.of(Q.atom("direction", (z, N(j), N(c)))) for c in range(3)]
                    want.append(pixel(r, dirs, up, low, (N(n), N(n), N((n - 1) // 2)), rescale, tuple(N(x) for x in out)))
            got = A.deref(new.attrs["data"])
            compare(res, "patterns", what, got, (*shape, *sig), want, f.where)
            if isinstance(got, Grid):
                res.count("obligations")
                if A.dtype_name(got.dtype) == dtype:
                    res.count("proved_equal")
                elif A.dtype_name(got.dtype) is not None:
                    res.add("patterns", f"{what}: data type", f"the patterns have the type {A.dtype_name(got.dtype)}", f.where)
            res.count("obligations")
            lazy = new.cls.name.startswith("Lazy")
            if lazy == compute:
                res.add("patterns", f"{what}: kind", f"a {new.cls.name} is returned", f.where)
            else:
                res.count("proved_equal")
            names = [a.attrs["name"] for a in new.attrs["axes_manager"].attrs["axes"]]
            res.count("obligations")
            if names == ["y", "x", "dy", "dx"][2 - len(shape):]:
                res.count("proved_equal")
            elif all(isinstance(x, str) for x in names):
                res.add("patterns", f"{what}: axes", f"the axes are {names}", f.where)
            xmap = new.attrs.get("_xmap")
            res.count("obligations", 2)
            if not isinstance(xmap, Obj) or xmap.name != cut.MAP:
                res.add("patterns", f"{what}: map", "the patterns have no crystal map", f.where) if xmap is None else res.undecided.append(
                    f"{what}: map {xmap!r}"[:200])
            else:
                kw = {**dict(zip(("rotations", "phase_id", "x", "y", "phase_list"), xmap.attrs["args"])), **xmap.attrs["kw"]}
                r = A.deref(kw.get("rotations"))
                p = A.deref(kw.get("phase_list"))
                p = A.deref(p.attrs["of"]) if isinstance(p, Obj) and p.name == "phases" else p
                for v, x, name in ((r, "rotations", "rotations"), (p, "the phase", "phase")):
                    if isinstance(v, Obj) and v.name == x:
                        res.count("proved_equal")
                    elif v is None or isinstance(v, Obj):
                        res.add("patterns", f"{what}: map", f"the crystal map does not hold the {name}", f.where)
                    else:
                        res.undecided.append(f"{what}: {name} {v!r}"[:200])
            nd = A.deref(new.attrs.get("_detector"))
            if isinstance(nd, Obj):
                compare(res, "patterns", f"{what}: projection centers", A.deref(A.attr(nd, "pc", None)), (*(nav or (1,)), 3),
                        [v for p in pcs for v in p], f.where)
        described(res, "patterns", what, one, f.where)
        res.count("cases")


SELFTEST = {"m.py": '''
import numpy as np
from hyperspy.signals import Signal2D


def _vector2lambert(v):
    return v[:, :2]


def _lambert2vector(x, y):
    out = np.zeros((x.size, 3))
    for i in range(x.size):
        out[i] = [x[i], y[i], 1 - x[i] ** 2]
    return out


class EBSDMasterPattern(Signal2D):
    _signal_type = "EBSDMasterPattern"
    _custom_attributes = ["hemisphere", "phase", "projection"]

    def _get_custom_attributes(self):
        return {}

    @property
    def hemisphere(self):
        return self._hemisphere

    def _get_master_pattern_arrays_from_energy(self, energy=None):
        if energy is None or len(self.axes_manager.navigation_shape) == 0:
            d = self.data
        else:
            d = self.inav[int(energy == 12)].data
        if self.hemisphere == "both":
            return d[1], d[0]
        return d, d
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C53",
        explanation=(
            "interprocedural interpretation of the conversion from the stereographic to the square Lambert projection and of the "
            "lookup of patterns by energy and hemisphere, for small master patterns in which every pixel is told apart; every value "
            "of the result is compared with the definition; the projection's formulas are value-numbered and compared for "
            "directions of every octant"
        ),
        assumptions=[
            "orix's stereographic projection and SciPy's interpolation do as documented; rounding is not considered",
            "the formulas of _vector2lambert and _lambert2vector are compared at sample points of each of their regions",
        ],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C53")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    want = ("lambert-point:", "lambert-direction:", "energy:EBSDMasterPattern: patterns of energy not given, hemisphere axes",
            "energy:EBSDMasterPattern: patterns of energy 20, energy axes")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}; {r.undecided})")
    quiet = ("no axes", "conversion")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
