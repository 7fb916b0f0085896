"""C48: Kikuchi lines and zone axes are where diffraction puts them.

The simulations are interpreted for crystals of low symmetry, directions of
all kinds (in front of and behind the detector, along and near its plane) and
maps of points; lattices, rotations and directions are numbers, projection
centers symbols.  What is found for each direction is compared with the plane
or axis it is the trace of.
"""

from __future__ import annotations

import itertools
import math
from fractions import Fraction as F

from .. import poly as Q
from ..alg import Class, Dict, Fn, Obj, Opaque, PyError, Unsupported
from ..grid import NAN, BOOL, GAlg, Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from .c43 import described

N = Num.const
F64 = DType("float64")
NANS = Q.ATOMS[next(iter(NAN.all_atoms()))].args[0]


def is_nan(c):
    return any(Q.ATOMS[x].fn == "sym" and Q.ATOMS[x].args[0] == NANS for x in c.all_atoms())


class Engine(GAlg):
    MAX_LOOP = 400

    def __init__(self, proj, hooks=None):
        super().__init__(proj, {
            "orix.vector.Vector3d": lambda A, a, k, s: vectors(A, A.grid(a[0] if a else k["data"])),
            "dask.diagnostics.ProgressBar": lambda A, a, k, s: Opaque("bar"), "print": lambda A, a, k, s: None,
            "dask.compute": lambda A, a, k, s: tuple(a), "dask.array.compute": lambda A, a, k, s: tuple(a),
            "builtins.print": lambda A, a, k, s: None, **(hooks or {})})

    def external(self, d, args, kwargs, fr):
        short = d.split(".")[-1]
        if d.startswith(("numpy.", "dask.array.")):
            o = self.deref(args[0]) if args else None
            if short == "isnan" and isinstance(o, (Grid, Num)):
                g = self.grid(o)
                r = g.like([N(int(is_nan(c))) for c in g.cells], BOOL)
                return r if isinstance(o, Grid) else is_nan(o)
            if short == "isfinite" and isinstance(o, (Grid, Num)):
                g = self.grid(o)
                r = g.like([N(int(not is_nan(c))) for c in g.cells], BOOL)
                return r if isinstance(o, Grid) else not is_nan(o)
            if short == "hypot" and len(args) == 2:
                return self.each(lambda x, y: Q.f_sqrt(x.mul(x).add(y.mul(y))), *args) if self.mine(*args) else Q.f_sqrt(
                    self.num(args[0]).mul(self.num(args[0])).add(self.num(args[1]).mul(self.num(args[1]))))
            if short == "expand_dims" and isinstance(self.deref(kwargs.get("axis", args[-1])), (tuple, list)):
                g, ks = self.grid(o), [self.const(k) for k in self.items(kwargs.get("axis", args[-1]))]
                n = len(g.axes) + len(ks)
                ks, it = {k % n for k in ks}, iter(g.axes)
                return Grid(tuple(1 if k in ks else next(it) for k in range(n)), g.cells, g.dtype)
            if short == "matmul":
                return self.product(self.grid(args[0]), self.grid(args[1]))
            if short in ("round", "around") and isinstance(o, Grid) and all(c.value is not None for c in o.cells):
                n = self.const(kwargs.get("decimals", args[1] if len(args) > 1 else Q.ZERO))
                return o.like([N(round(F(c.value), n)) for c in o.cells])
            if short == "cross" and len(args) == 2 and not kwargs:
                g, h = self.grid(args[0]), self.grid(args[1])
                sh = self.join([g, h])
                u, v = self.spread(g, sh), self.spread(h, sh)
                return Grid(sh, [c for i in range(0, len(u), 3) for c in (
                    u[i + 1].mul(v[i + 2]).sub(u[i + 2].mul(v[i + 1])), u[i + 2].mul(v[i]).sub(u[i].mul(v[i + 2])),
                    u[i].mul(v[i + 1]).sub(u[i + 1].mul(v[i])))], F64)
            if short == "unique" and len(args) == 1 and kwargs.keys() == {"axis"} and self.const(kwargs["axis"]) == 0:
                g = self.grid(o)
                n = math.prod(g.axes[1:])
                rows = sorted({tuple(c.value for c in q) for q in block(g, n)} if all(c.value is not None for c in g.cells) else self.unknown("unique"))
                return Grid((len(rows), *g.axes[1:]), [N(x) for q in rows for x in q], F64)
            if short == "isclose" and len(args) == 2:
                g = self.grid(self.binop(__import__("ast").Sub(), args[0], args[1]))
                vs = [Q.value_of(c) for c in g.cells]
                if any(v is None for v in vs):
                    raise Unsupported("isclose() of unknown values")
                return g.like([N(int(abs(v) < 1e-8)) for v in vs], BOOL)
            if short in ("greater", "less", "greater_equal", "less_equal") and len(args) == 2:
                a = __import__("ast")
                return self.compare({"greater": a.Gt, "less": a.Lt, "greater_equal": a.GtE, "less_equal": a.LtE}[short](), args[0], args[1])
            if short in ("float64", "float32") and isinstance(o, Num):
                return o
        return super().external(d, args, kwargs, fr)

    def product(self, a, b):
        """a @ b, also for stacks of matrices."""
        if len(a.axes) < 2 or len(b.axes) < 2:
            raise Unsupported("product")
        n, m = a.axes[-2:]
        m2, k = b.axes[-2:]
        if m != m2:
            raise PyError(f"matrix product of shapes {a.axes} and {b.axes}")
        la, lb = a.axes[:-2], b.axes[:-2]
        lead = self.join([Grid(la, [Q.ZERO] * math.prod(la)), Grid(lb, [Q.ZERO] * math.prod(lb))])
        out = []
        for ix in itertools.product(*map(range, lead)):
            def at(l):
                p = 0
                for i, d in zip(ix[len(lead) - len(l):], l):
                    p = p * d + (i if d > 1 else 0)
                return p
            p, q = at(la) * n * m, at(lb) * m * k
            for i in range(n):
                for j in range(k):
                    t = Q.ZERO
                    for r in range(m):
                        t = t.add(a.cells[p + i * m + r].mul(b.cells[q + r * k + j]))
                    out.append(t)
        return Grid((*lead, n, k), out, F64)

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if type(op).__name__ in ("Lt", "LtE", "Gt", "GtE", "Eq") and isinstance(a, Grid) and isinstance(b, (Grid, Num)):
            g, h = a, self.grid(b)
            r = super().compare(op, a, b)
            no = self.each(lambda x, y: N(int(is_nan(x) or is_nan(y))), g, h)
            if isinstance(r, Grid) and no.axes == r.axes:
                return r.like([Q.ZERO if n.value else c for n, c in zip(no.cells, r.cells)], BOOL)
            return r
        return super().compare(op, a, b)

    def binop(self, op, a, b):
        if type(op).__name__ == "MatMult":
            return self.product(self.grid(a), self.grid(b))
        return super().binop(op, a, b)


def vectors(A, g):
    """orix' Vector3d."""
    n = math.prod(g.axes[:-1])
    part = lambda k: Grid(g.axes[:-1], [g.cells[3 * i + k] for i in range(n)], F64)  # noqa: E731
    x, y, z = part(0), part(1), part(2)
    each = lambda f: Grid(g.axes[:-1], [f(*v) for v in zip(x.cells, y.cells, z.cells)], F64)  # noqa: E731

    def azimuth(a, b, c):
        t = Q.FUNCS["arctan2"](b, a)
        v = Q.value_of(t)
        return t.add(Q.PI.mul(N(2))) if v is not None and v < 0 else t
    return Obj(None, "Vector3d", {
        "data": g, "x": x, "y": y, "z": z, "azimuth": each(azimuth), "xyz": (x, y, z), "shape": tuple(N(k) for k in g.axes[:-1]),
        "size": N(n), "ndim": N(len(g.axes) - 1),
        "polar": each(lambda a, b, c: Q.FUNCS["arctan2"](Q.f_sqrt(a.mul(a).add(b.mul(b))), c)),
        "radial": each(lambda a, b, c: Q.f_sqrt(a.mul(a).add(b.mul(b)).add(c.mul(c))))})


def num(c):
    """Value of a cell, nan where there is none, None if not known."""
    if is_nan(c):
        return math.nan
    return Q.value_of(c)


#: directions relative to the detector: (x, y, z), z away from the sample
DIRECTIONS = ((3, 4, 5), (-3, 4, 2), (1, -2, 7), (-2, -1, 30), (5, 12, 1), (3, -1, -4), (-1, -5, -2), (40, 9, 3), (0, 3, 2), (2, 0, 1),
              (-7, 0, 3), (0, -2, 9), (1, 1, 50), (60, -11, 4), (-3, 2, 1))


def trace_of(v, r):
    """Whether the line of a plane with normal v is within the radius, None at the limits."""
    x, y, z = map(float, v)
    p = math.hypot(x, y)
    if p == 0 or abs(z) < 1e-3 or abs(abs(z) / p - r) < 1e-6:
        return None
    return z > 0 and z / p < r


def check_lines(res, rule, what, cells, dirs, r, where, keep=None):
    """Endpoints (x1, y1, x2, y2) for each direction."""
    res.count("obligations")
    for v, four in zip(dirs, cells):
        vals = [num(c) for c in four]
        if any(x is None for x in vals):
            res.undecided.append(f"{what}: end points not described")
            return
        x, y, z = map(float, v)
        want = trace_of(v, r) if keep is None else keep(v)
        there = not any(math.isnan(t) for t in vals)
        if want is None:
            continue
        if want != there:
            res.add(rule, what, f"the line of the plane with normal {v} is {'drawn' if there else 'not drawn'} within the radius {r}", where)
            return
        if not there:
            continue
        p, q = vals[:2], vals[2:]
        for e in (p, q):
            if abs(math.hypot(*e) - r) > 1e-6 * r:
                res.add(rule, what, f"the line of the plane with normal {v} ends in {e}, not at the radius {r}", where)
                return
            if abs(x * e[0] + y * e[1] + z) > 1e-6 * (abs(x) + abs(y) + abs(z)) * r:
                res.add(rule, what, f"the line of the plane with normal {v} ends in {e}, outside the plane", where)
                return
        if math.dist(p, q) < 1e-6 * r:
            res.add(rule, what, f"the line of the plane with normal {v} ends where it starts", where)
            return
    res.count("proved_equal")
    res.count("directions", len(dirs))


def check_axes(res, rule, what, cells, dirs, r, where):
    res.count("obligations")
    for v, two in zip(dirs, cells):
        vals = [num(c) for c in two]
        if any(x is None for x in vals):
            res.undecided.append(f"{what}: positions not described")
            return
        x, y, z = map(float, v)
        there = not any(math.isnan(t) for t in vals)
        if abs(z) < 1e-3 or abs(math.hypot(x, y) / abs(z) - r) < 1e-6:
            continue
        want = z > 0 and math.hypot(x, y) / z < r
        if want != there:
            res.add(rule, what, f"the zone axis along {v} is {'given' if there else 'left out'} for the radius {r}", where)
            return
        if there and max(abs(vals[0] - x / z), abs(vals[1] - y / z)) > 1e-9 * max(1, r):
            res.add(rule, what, f"the zone axis along {v} is in {vals}, not [{x / z:g}, {y / z:g}]", where)
            return
    res.count("proved_equal")
    res.count("directions", len(dirs))


def block(g, k):
    cells = g if isinstance(g, list) else g.cells
    return [cells[i:i + k] for i in range(0, len(cells), k)]


def cls_named(proj, name):
    return next((c for c in proj.classes.values() if c.name == name), None)


def where_of(proj, c):
    f = proj.lookup(c, "__init__")
    return f.where if f is not None else c.where


def directions_grid(lead, dirs):
    return Grid((*lead, len(dirs), 3), [N(x) for _ in range(math.prod(lead)) for v in dirs for x in v], F64)


def turned(dirs, k):
    """Other directions for the k-th point of a map."""
    for _ in range(k):
        dirs = [(-y, x, z if i % 2 else -z) for i, (x, y, z) in enumerate(dirs)]
    return dirs


def features(proj, res, seen):
    for name, what in (("KikuchiPatternLine", "lines"), ("KikuchiPatternZoneAxis", "axes")):
        c = cls_named(proj, name)
        if c is None:
            continue
        wh = where_of(proj, c)
        for lead in ((), (1,), (3,), (2, 2)):
            for r in (F(7, 5), 10):
                tag = f"{name} of {'a pattern' if not lead else f'patterns of shape {lead}'}, radius {r}"

                def one(lead=lead, r=r, tag=tag):
                    A = Engine(proj)
                    pts = math.prod(lead)
                    dirs = [turned(list(DIRECTIONS), k) for k in range(pts)]
                    g = Grid((*lead, len(DIRECTIONS), 3), [N(x) for ds in dirs for v in ds for x in v], F64)
                    up = Grid((*lead, len(DIRECTIONS)), [N(int(v[2] > 0)) for ds in dirs for v in ds], BOOL)
                    mil = Obj(None, "Miller", {"ndim": N(2 if lead else 1)})
                    o = A.construct(c, [mil, vectors(A, g), up, N(r)], {})
                    flat = [v for ds in dirs for v in ds]
                    if what == "lines":
                        t = A.grid(A.attr(o, "plane_trace_coordinates", None))
                        if t.axes[-1] != 4 or len(t.cells) != 4 * len(flat):
                            res.count("obligations")
                            res.add("trace", tag, f"end points have shape {t.axes}", wh)
                            return
                        check_lines(res, "trace", tag, block(t, 4), flat, r, wh)
                    else:
                        t = A.grid(A.attr(o, "_xy_within_r_gnomonic", None))
                        if t.axes[-1] != 2 or len(t.cells) != 2 * len(flat):
                            res.count("obligations")
                            res.add("axes", tag, f"positions have shape {t.axes}", wh)
                            return
                        check_axes(res, "axes", tag, block(t, 2), flat, r, wh)
                    seen.update(A.functions)
                described(res, "features", tag, one, wh)


# ------------------------------------------------------- crystals and detectors

def frac(rows):
    return [[F(x) for x in r] for r in rows]


def mat(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def inverse(m):
    (a, b, c), (d, e, f), (g, h, i) = m
    t = a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)
    return [[x / t for x in r] for r in ((e * i - f * h, c * h - b * i, b * f - c * e), (f * g - d * i, a * i - c * g, c * d - a * f),
                                         (d * h - e * g, b * g - a * h, a * e - b * d))]


def rotation(a, b, c, d):
    """Matrix of the rotation by a quaternion of whole numbers."""
    n = F(a * a + b * b + c * c + d * d)
    return [[x / n for x in r] for r in (
        (a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)),
        (2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)),
        (2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d))]


#: rows are the lattice vectors of a triclinic crystal
BASE = frac(((5, F(1, 2), F(-3, 4)), (F(1, 3), 7, 1), (-1, F(1, 4), 4)))
RECBASE = inverse(BASE)                      # columns are the reciprocal lattice vectors
TRICLINIC, ORTHORHOMBIC = BASE, frac(((4, 0, 0), (0, 5, 0), (0, 0, 7)))


def crystal(shape):
    """The crystal used with a detector."""
    global BASE, RECBASE
    BASE = ORTHORHOMBIC if shape == (8, 5) else TRICLINIC
    RECBASE = inverse(BASE)

HKL = ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (-1, 1, 0), (1, 0, -1), (0, 1, 1), (1, 1, 1), (2, 0, 0), (1, -2, 1), (0, 0, -1), (-1, -1, 2))
ROTATIONS = ((1, 2, 0, -1), (3, -1, 2, 5), (2, 7, 1, 1), (5, -2, -3, 1))
TO_DETECTOR = rotation(3, 1, -1, 4)
PCS = ((F(2, 5), F(11, 20), F(1, 2)), (F(3, 10), F(1, 5), F(13, 20)), (F(11, 20), F(9, 10), F(3, 5)), (F(1, 2), F(2, 5), F(4, 5)))


def flat(x):
    return [c for y in x for c in flat(y)] if isinstance(x, (list, tuple)) else [N(x)]


def array(x, lead=None):
    sh, y = [], x
    while isinstance(y, (list, tuple)):
        sh.append(len(y))
        y = y[0]
    return Grid(tuple(sh) if lead is None else lead, flat(x), F64)


def cells_of(g):
    return [Q.value_of(c) for c in g.cells]


def primitive(v):
    k = 0
    for x in v:
        k = math.gcd(k, int(x))
    return tuple(int(x) // k for x in v) if k else (0, 0, 0)


def crossed(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


class Mill(Obj):
    """orix' Miller and diffsims' ReciprocalLatticeVector: whole indices of a lattice."""

    def __init__(self, idx, shape, kind, scale=True):
        super().__init__(None, "Miller", {})
        self.idx, self.shape_, self.kind, self.primitive = list(idx), tuple(shape), kind, scale


def mill_attr(A, m, a):
    g = lambda cells, k: Grid((*m.shape_, k), [N(c) for c in cells], F64)  # noqa: E731
    flatn = [c for v in m.idx for c in v]
    if a in ("hkl", "uvw", "coordinates"):
        if a in ("hkl", "uvw") and a != m.kind:
            raise Unsupported(f"{a} of {m.kind}")
        return g(flatn, 3)
    if a == "data":
        b = [list(r) for r in zip(*RECBASE)] if m.kind == "hkl" else BASE
        return g([c for v in m.idx for c in mat([v], b)[0]], 3)
    if a == "shape":
        return tuple(N(k) for k in m.shape_)
    if a == "ndim":
        return N(len(m.shape_))
    if a == "size":
        return N(math.prod(m.shape_))
    if a == "phase":
        return phase()
    if a in MILL:
        return Fn(a, lambda _A, args, kw, _s=None: MILL[a](A, m, args, kw))
    return NotImplemented


def phase():
    lat = Obj(None, "Lattice", {"base": array(BASE), "recbase": array(RECBASE)})
    return Obj(None, "Phase", {"structure": Obj(None, "Structure", {"lattice": lat}), "name": "p"})


def m_reshape(A, m, args, kw):
    sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
    sh = [A.const(k) for k in sh]
    if -1 in sh:
        sh[sh.index(-1)] = len(m.idx) // abs(math.prod(sh))
    if math.prod(sh) != len(m.idx):
        raise PyError("reshape")
    return Mill(m.idx, sh, m.kind, m.primitive)


def m_cross(A, m, args, kw):
    o = A.deref(args[0])
    sh = A.join([Grid(m.shape_, [Q.ZERO] * len(m.idx)), Grid(o.shape_, [Q.ZERO] * len(o.idx))])
    xs = A.spread(Grid(m.shape_, [N(i) for i in range(len(m.idx))]), sh)
    ys = A.spread(Grid(o.shape_, [N(i) for i in range(len(o.idx))]), sh)
    return Mill([crossed(m.idx[int(x.value)], o.idx[int(y.value)]) for x, y in zip(xs, ys)], sh,
                {"hkl": "uvw", "uvw": "hkl"}[m.kind], False)


def m_round(A, m, args, kw):
    return Mill([primitive(v) for v in m.idx], m.shape_, m.kind)


def m_unique(A, m, args, kw):
    vs = sorted(set(m.idx))
    return Mill(vs, (len(vs),), m.kind, m.primitive)


MILL = {
    "reshape": m_reshape, "cross": m_cross, "round": m_round, "unique": m_unique,
    "transpose": lambda A, m, args, kw: Mill(
        [m.idx[i * m.shape_[1] + j] for j in range(m.shape_[1]) for i in range(m.shape_[0])], m.shape_[::-1], m.kind, m.primitive),
    "flatten": lambda A, m, args, kw: Mill(m.idx, (len(m.idx),), m.kind, m.primitive),
    "deepcopy": lambda A, m, args, kw: Mill(m.idx, m.shape_, m.kind, m.primitive),
}


def m_getitem(A, m, i):
    """Chosen vectors: a mask over the axes, or one dimension only."""
    k = Grid(m.shape_, [N(j) for j in range(len(m.idx))], DType("int64"))
    r = A.grid(A.index(k, i))
    return Mill([m.idx[int(c.value)] for c in r.cells], r.axes, m.kind, m.primitive)


class Projection(Engine):
    def __init__(self, proj, hooks=None):
        super().__init__(proj, {"numpy.ndindex": ndindex, "numpy.empty": empty, **DRAWN, **(hooks or {})})

    def attr(self, o, a, fr):
        o2 = self.deref(o)
        if isinstance(o2, Mill):
            r = mill_attr(self, o2, a)
            if r is not NotImplemented:
                return r
        if isinstance(o2, Obj) and o2.cls is not None and o2.cls.name == "EBSDDetector" and a == "sample_to_detector":
            return turns([TO_DETECTOR], (1,))
        return super().attr(o, a, fr)

    def method(self, o, name, args, kwargs, fr):
        o2 = self.deref(o)
        if isinstance(o2, Mill) and name in MILL:
            return MILL[name](self, o2, args, kwargs)
        return super().method(o, name, args, kwargs, fr)

    def index(self, o, i):
        o2 = self.deref(o)
        if isinstance(o2, Mill):
            return m_getitem(self, o2, i)
        if isinstance(o2, Cells):
            return o2.at[o2.key(self, i)]
        return super().index(o, i)

    def store(self, o, i, v):
        o2 = self.deref(o)
        if isinstance(o2, Cells):
            o2.at[o2.key(self, i)] = self.copyv(v)
            return None
        return super().store(o, i, v)

    def copyv(self, v):
        v2 = self.deref(v)
        if isinstance(v2, Mill):
            return Mill(v2.idx, v2.shape_, v2.kind, v2.primitive)
        return super().copyv(v)


class Cells(Obj):
    """An array of anything, e.g. of arrays of several lengths."""

    def __init__(self, shape):
        super().__init__(None, "Cells", {"shape": tuple(N(k) for k in shape), "ndim": N(len(shape)), "size": N(math.prod(shape))})
        self.at = {}

    def key(self, A, i):
        i = A.deref(i)
        i = tuple(A.const(x) for x in (i if isinstance(i, tuple) else A.items(i) if isinstance(i, Grid) else (i,)))
        if any(not isinstance(x, int) for x in i) or len(i) != len(self.attrs["shape"]):
            raise Unsupported(f"place {i}")
        return i


def drawn(kind, names):
    def made(A, args, kwargs, s):
        kw = {**dict(zip(names, args)), **kwargs}
        return Obj(None, "Drawn", {"kind": kind, **{k: kw[k] for k in names if k in kw}})
    return made


MARK = "hyperspy.api.plot.markers."
DRAWN = {
    MARK + "Lines": drawn("lines", ("segments",)), MARK + "Points": drawn("points", ("offsets",)),
    MARK + "Texts": drawn("texts", ("offsets", "texts")), MARK + "Markers": drawn("pc", ("offsets",)),
    "matplotlib.collections.LineCollection": drawn("lines", ("segments",)),
    "matplotlib.collections.PathCollection": drawn("points", ("paths",)),
    "matplotlib.path.Path.circle": drawn("circle", ("center", "radius")),
    "matplotlib.collections.StarPolygonCollection": drawn("star", ()),
}


def empty(A, args, kwargs, s):
    dt = kwargs.get("dtype", args[1] if len(args) > 1 else None)
    sh = A.items(args[0] if args else kwargs["shape"])
    if getattr(dt, "dotted", getattr(dt, "name", dt)) in ("object", "builtins.object"):
        return Cells([A.const(k) for k in sh])
    return Grid([A.const(k) for k in sh], [sym("whatever")] * math.prod(A.const(k) for k in sh), F64)


def ndindex(A, args, kwargs, s):
    sh = A.items(args[0]) if len(args) == 1 and not isinstance(A.deref(args[0]), Num) else args
    return [tuple(N(k) for k in ix) for ix in itertools.product(*(range(A.const(n)) for n in sh))]


def turns(ms, shape):
    g = array([ms[k] for k in range(math.prod(shape))], (*shape, 3, 3))
    return Obj(None, "Rotation", {"to_matrix": Fn("to_matrix", lambda _A, args, kw, _s=None: g.copy()), "shape": tuple(N(k) for k in shape),
                                  "ndim": N(len(shape)), "size": N(math.prod(shape))})


def detector(A, proj, shape, nav):
    """A detector, or its projection centers at each point."""
    c = cls_named(proj, "EBSDDetector")
    k = math.prod(nav)
    pc = array(PCS[:k], (*nav, 3))
    return A.construct(c, [], {"shape": tuple(N(n) for n in shape), "pc": pc})


def geometry(shape, pc):
    ny, nx = shape
    px, py, pz = pc
    ar = F(nx, ny)
    b = (-ar * px / pz, ar * (1 - px) / pz, -(1 - py) / pz, py / pz)
    sx, sy = (b[1] - b[0]) / max(nx - 1, 1), (b[3] - b[2]) / max(ny - 1, 1)
    r = max(x * x + y * y for x in b[:2] for y in b[2:])
    return b, sx, sy, math.sqrt(r)


def pixel(shape, pc, x, y):
    b, sx, sy, _ = geometry(shape, pc)
    return (x - float(b[0])) / float(sx), (float(b[3]) - y) / float(sy)


def on_screen(shape, pc, v):
    """Gnomonic coordinates, and whether within a pixel of the detector (None near the limit)."""
    x, y, z = v
    if z <= 0:
        return None, False
    b, sx, sy, _ = geometry(shape, pc)
    p = (x / z, y / z)
    d = min(p[0] - (b[0] - sx), b[1] + sx - p[0], p[1] - (b[2] - sy), b[3] + sy - p[1])
    return p, (None if abs(d) < F(1, 10 ** 9) else d > 0)


def cases():
    for shape in ((6, 9), (8, 5), (1, 4)):
        for nav in ((1,), (3,), (2, 2)):
            for det in dict.fromkeys(((1,), nav)):
                yield shape, nav, det


def towards(rot, uvw=None, hkl=None):
    """Direction relative to the detector."""
    row = mat([uvw], BASE) if uvw is not None else mat([hkl], [list(r) for r in zip(*RECBASE)])
    return tuple(mat(mat(row, rot), [list(r) for r in zip(*TO_DETECTOR)])[0])


def near(p, q, tol=1e-6):
    return len(p) == len(q) and all(abs(a - b) <= tol * max(1, abs(b)) for a, b in zip(p, q))


def rows_of(A, g, k, tag):
    g = A.grid(g)
    if g.axes[-1] != k or len(g.axes) != 2:
        return None
    return [[num(c) for c in four] for four in block(g, k)]


def simulations(proj, res, seen):
    sim = next((c for c in proj.classes.values() if c.name == "KikuchiPatternSimulator"), None)
    if sim is None:
        return
    m = proj.lookup(sim, "on_detector")
    wh = m.where if m else sim.where
    for shape, nav, det in cases():
        tag = f"map of shape {nav}, projection centers of shape {det}, detector of shape {shape}"

        def one(shape=shape, nav=nav, det=det, tag=tag):
            A = Projection(proj)
            crystal(shape)
            k = math.prod(nav)
            rots = [rotation(*ROTATIONS[i]) for i in range(k)]
            pcs = [PCS[i if det != (1,) else 0] for i in range(k)]
            d = detector(A, proj, shape, det)
            ref = Mill(HKL, (len(HKL),), "hkl")
            o = A.construct(sim, [ref], {})
            r = A.call(A.attr(o, "on_detector", None), [d, turns(rots, nav)], {}, None)
            seen.update(A.functions)
            rmax = max(geometry(shape, PCS[i])[3] for i in range(math.prod(det)))
            visible = [h for h in HKL if any(towards(R, hkl=h)[2] > 0 for R in rots)]
            axes = sorted({primitive(crossed(a, b)) for a in visible for b in visible} - {(0, 0, 0)})
            got = A.deref(A.attr(r, "reflectors", None))
            res.count("obligations")
            if not isinstance(got, Mill):
                raise Unsupported(f"reflectors are {got!r}"[:200])
            if sorted(got.idx) != sorted(visible):
                res.add("visible", tag, f"reflectors of the simulation are {got.idx}, visible are {visible}", wh)
            else:
                res.count("proved_equal")
            for i, ix in enumerate(itertools.product(*map(range, nav))):
                at = tuple(N(j) for j in ix)
                lines(A, res, r, tag, at if k > 1 else None, shape, pcs[i], rots[i], visible, rmax, wh)
                spots(A, res, r, tag, at if k > 1 else None, shape, pcs[i], rots[i], axes, rmax, wh)
            if shape == (6, 9):
                drawings(A, res, r, tag, shape, pcs if det == nav else [PCS[0]], nav, det, wh)
        described(res, "simulation", tag, one, wh)


def overlay(proj, res, seen):
    """The simulation drawn on one pattern of a detector."""
    fn = next((f for f in proj.funcs.values() if f.name == "_get_geometrical_simulation"), None)
    if fn is None:
        return
    for shape in ((6, 9), (8, 5), (1, 4)):
        for i, pc in enumerate(PCS):
            for c in ("pixel", "gnomonic"):
                tag = f"{fn.name}: detector of shape {shape}, projection center {tuple(map(str, pc))}, {c} coordinates"

                def one(shape=shape, i=i, pc=pc, c=c, tag=tag):
                    A = Projection(proj)
                    crystal(shape)
                    rot = rotation(*ROTATIONS[i])
                    d = A.construct(cls_named(proj, "EBSDDetector"), [], {"shape": tuple(N(n) for n in shape), "pc": array([pc])})
                    ref = Mill(HKL, (len(HKL),), "hkl")
                    r = A.items(A.call_func(fn, [ref, d, turns([rot], (1,))], {"coords_fmt": c}))
                    seen.update(A.functions)
                    bands, axes = [rows_of(A, g, n, tag) for g, n in zip(r, (4, 2))]
                    rmax = geometry(shape, pc)[3]
                    res.count("obligations")
                    want = [(h, tuple(map(float, towards(rot, hkl=h)))) for h in HKL if trace_of(towards(rot, hkl=h), rmax)]
                    if bands is None or axes is None or any(x is None for q in bands + axes for x in q):
                        raise Unsupported("coordinates not described")
                    if len(bands) != len(want):
                        res.add("overlay", tag, f"{len(bands)} lines, expected {len(want)}", fn.where)
                        return
                    for (h, v), q in zip(want, bands):
                        if c == "pixel":
                            b, sx, sy, _ = geometry(shape, pc)
                            q = [q[0] * float(sx) + float(b[0]), float(b[3]) - q[1] * float(sy),
                                 q[2] * float(sx) + float(b[0]), float(b[3]) - q[3] * float(sy)]
                        for e in (q[:2], q[2:]):
                            if abs(math.hypot(*e) - rmax) > 1e-6 * rmax or abs(v[0] * e[0] + v[1] * e[1] + v[2]) > 1e-6 * sum(map(abs, v)) * rmax:
                                res.add("overlay", tag, f"the line of {h} ends in {e}, not on the trace of the plane at the radius {rmax:g}", fn.where)
                                return
                        if math.dist(q[:2], q[2:]) < 1e-9:
                            res.add("overlay", tag, f"the line of {h} ends where it starts", fn.where)
                            return
                    must, may = [], []
                    for u in sorted({primitive(crossed(a, b)) for a in HKL for b in HKL} - {(0, 0, 0)}):
                        p, there = on_screen(shape, pc, towards(rot, uvw=u))
                        if p is None:
                            continue
                        f = tuple(map(float, p))
                        g = pixel(shape, pc, *f) if c == "pixel" else f
                        if there is None or abs(math.hypot(*f) - rmax) < 1e-9:
                            may.append(g)
                        elif there and math.hypot(*f) < rmax:
                            must.append((u, g))
                    for u, g in must:
                        if not any(near(q, g) for q in axes):
                            res.add("overlay", tag, f"the zone axis {u} is missing in {list(g)}", fn.where)
                            return
                    for q in axes:
                        if not any(near(q, g) for g in [g for u, g in must] + may):
                            res.add("overlay", tag, f"a zone axis is given in {q}, where none of those between the bands is", fn.where)
                            return
                    res.count("proved_equal")
                    res.count("zone_axes", len(axes))
                described(res, "overlay", tag, one, fn.where)


def values(g):
    return [num(c) for c in g.cells]


def without_nan(rows):
    return [q for q in rows if not any(map(math.isnan, q))]


def drawings(A, res, r, tag, shape, pcs, nav, det, wh):
    """What is drawn on a pattern, or on those of a map, is what the coordinates are."""
    k = math.prod(nav)
    points = [tuple(N(j) for j in ix) for ix in itertools.product(*map(range, nav))]

    def coords(name, n, at, c):
        kw = {} if at is None else {"index": at}
        return without_nan(rows_of(A, ask(A, r, name, coordinates=c, exclude_nan=False, **kw), n, tag))
    for at in ([None] if k == 1 else points):
        for c in ("pixel", "gnomonic"):
            what = f"{tag}, collections in {c} coordinates" + ("" if at is None else f", point {tuple(int(x.value) for x in at)}")
            res.count("obligations")
            kw = {} if at is None else {"index": at}
            out = [A.deref(x) for x in A.items(ask(A, r, "as_collections", coordinates=c, lines=True, zone_axes=True, **kw))]
            got = {o.attrs["kind"]: o for o in out if isinstance(o, Obj) and "kind" in o.attrs}
            if sorted(got) != ["lines", "points"] or len(out) != 2:
                raise Unsupported(f"collections {out}")
            seg = A.grid(got["lines"].attrs["segments"])
            if block(values(seg), 4) != coords("lines_coordinates", 4, at, c) or seg.axes[1:] != (2, 2):
                res.add("drawn", what, "the lines drawn are not the lines of the pattern", wh)
                continue
            mid = [[num(A.num(x)) for x in A.items(A.deref(o).attrs["center"])] for o in A.items(got["points"].attrs["paths"])]
            if mid != coords("zone_axes_coordinates", 2, at, c):
                res.add("drawn", what, "the circles drawn are not at the zone axes of the pattern", wh)
                continue
            res.count("proved_equal")
    # markers of a map
    what = f"{tag}, markers"
    res.count("obligations")
    out = [A.deref(x) for x in A.items(ask(A, r, "as_markers", lines=True, zone_axes=True, pc=True))]
    got = {o.attrs["kind"]: o for o in out if isinstance(o, Obj) and "kind" in o.attrs}
    if sorted(got) != ["lines", "pc", "points"] or len(out) != 3:
        raise Unsupported(f"markers {out}")
    for kind, arg, name, n in (("lines", "segments", "lines_coordinates", 4), ("points", "offsets", "zone_axes_coordinates", 2)):
        o = A.deref(got[kind].attrs[arg])
        if isinstance(o, Cells):
            if tuple(A.const(x) for x in o.attrs["shape"]) != nav[::-1]:
                res.add("drawn", what, f"markers of {kind} are of shape {o.attrs['shape']}, expected (columns, rows)", wh)
                return
            for at in points:
                g = A.grid(o.at[tuple(int(x.value) for x in at)[::-1]])
                if without_nan(block(values(g), n)) != coords(name, n, at, "pixel"):
                    res.add("drawn", what, f"markers of {kind} in the map's point {tuple(int(x.value) for x in at)} are not those of the pattern", wh)
                    return
        elif k == 1:
            if without_nan(block(values(A.grid(o)), n)) != coords(name, n, None, "pixel"):
                res.add("drawn", what, f"markers of {kind} are not those of the pattern", wh)
                return
        else:
            raise Unsupported(f"markers of {kind}")
    ny, nx = shape
    o = A.deref(got["pc"].attrs["offsets"])
    place = lambda pc: [float(pc[0] * (nx - 1)), float(pc[1] * (ny - 1))]  # noqa: E731
    if isinstance(o, Cells):
        for at, pc in zip(points, pcs if len(pcs) == k else pcs * k):
            if not near(values(A.grid(o.at[tuple(int(x.value) for x in at)[::-1]])), place(pc)):
                res.add("drawn", what, f"the projection center of point {tuple(int(x.value) for x in at)} is not drawn where it is", wh)
                return
    elif len(pcs) == 1:
        if not near(values(A.grid(o)), place(pcs[0])):
            res.add("drawn", what, "the projection center is not drawn where it is", wh)
            return
    else:
        res.add("drawn", what, "one projection center is drawn for a map with several", wh)
        return
    res.count("proved_equal")


def ask(A, r, name, **kw):
    return A.call(A.attr(r, name, None), [], dict(kw), None)


def lines(A, res, r, tag, at, shape, pc, rot, hkl, rmax, wh):
    pos = "" if at is None else f", point {tuple(int(x.value) for x in at)}"
    kw = {} if at is None else {"index": at}
    for every in (False, True):
        both = []
        for c in ("gnomonic", "pixel"):
            g = ask(A, r, "lines_coordinates", coordinates=c, exclude_nan=not every, **kw)
            both.append(rows_of(A, g, 4, tag))
        res.count("obligations")
        where_, what = wh, f"{tag}{pos}"
        if any(b is None for b in both) or any(x is None for b in both for q in b for x in q):
            res.undecided.append(f"{what}: lines not described")
            return
        want = []
        for h in hkl:
            v = towards(rot, hkl=h)
            t = trace_of(v, rmax)
            want.append((h, tuple(map(float, v)), t))
        if not every:
            want = [w for w in want if w[2]]
        if any(w[2] is None for w in want):
            res.undecided.append(f"{what}: a line at the limit")
            return
        if len(both[0]) != len(want) or len(both[1]) != len(want):
            res.add("lines", what, f"{len(both[0])} and {len(both[1])} lines in gnomonic and pixel coordinates, expected {len(want)}", where_)
            return
        for (h, v, t), gn, px in zip(want, *both):
            if not t:
                if not all(map(math.isnan, gn + px)):
                    res.add("lines", what, f"the line of {h} is drawn, but not within the detector's radius", where_)
                    return
                continue
            ok = not any(map(math.isnan, gn + px))
            for e in (gn[:2], gn[2:]):
                ok = ok and abs(math.hypot(*e) - rmax) < 1e-6 * rmax
                ok = ok and abs(v[0] * e[0] + v[1] * e[1] + v[2]) < 1e-6 * (sum(map(abs, v))) * rmax
            if not ok or math.dist(gn[:2], gn[2:]) < 1e-9:
                res.add("lines", what, f"the line of {h} goes from {gn[:2]} to {gn[2:]}, which is not the trace of the plane", where_)
                return
            to = (*pixel(shape, pc, *gn[:2]), *pixel(shape, pc, *gn[2:]))
            if not near(px, to):
                res.add("pixels", what, f"the line of {h} is in {px} on the detector, not {list(to)}", where_)
                return
        res.count("proved_equal")


def spots(A, res, r, tag, at, shape, pc, rot, axes, rmax, wh):
    pos = "" if at is None else f", point {tuple(int(x.value) for x in at)}"
    kw = {} if at is None else {"index": at}
    what = f"{tag}{pos}"
    got = {}
    for c in ("gnomonic", "pixel"):
        for every in (False, True):
            g = ask(A, r, "zone_axes_coordinates", coordinates=c, exclude_nan=not every, **kw)
            b = rows_of(A, g, 2, tag)
            if b is None or any(x is None for q in b for x in q):
                res.count("obligations")
                res.undecided.append(f"{what}: zone axes not described")
                return
            got[c, every] = b
    res.count("obligations")
    for c in ("gnomonic", "pixel"):
        kept = [q for q in got[c, True] if not any(map(math.isnan, q))]
        if kept != got[c, False]:
            res.add("axes", what, f"zone axes in {c} coordinates are others with exclude_nan", wh)
            return
    if len(got["gnomonic", True]) != len(got["pixel", True]):
        res.add("axes", what, "numbers of zone axes in gnomonic and pixel coordinates differ", wh)
        return
    must, may = [], []
    for u in axes:
        v = towards(rot, uvw=u)
        p, there = on_screen(shape, pc, v)
        if p is None or float(v[2]) < 1e-9:
            continue
        f = tuple(map(float, p))
        edge = there is None or abs(math.hypot(*f) - rmax) < 1e-9
        if math.hypot(*f) < rmax and there:
            must.append((u, f))
        elif edge:
            may.append((u, f))
    shown = got["pixel", False]
    for u, f in must:
        if not any(near(q, pixel(shape, pc, *f)) for q in shown):
            res.add("axes", what, f"the zone axis {u} is missing in {list(pixel(shape, pc, *f))} on the detector", wh)
            return
        if not any(near(q, f) for q in got["gnomonic", False]):
            res.add("axes", what, f"the zone axis {u} is missing in {list(f)} in gnomonic coordinates", wh)
            return
    for q in shown:
        if not any(near(q, pixel(shape, pc, *f)) for u, f in must + may):
            res.add("axes", what, f"a zone axis is given in {q} on the detector, where none of those between the bands is", wh)
            return
    every = [tuple(float(x / v[2]) for x in v[:2]) for v in (towards(rot, uvw=u) for u in axes) if v[2] > 0]
    for q in got["gnomonic", False]:
        if not any(near(q, f) for f in every):
            res.add("axes", what, f"a zone axis is given in {q} in gnomonic coordinates, where none of those between the bands is", wh)
            return
    res.count("proved_equal")


def scan(proj, res: Result, deep=False):
    seen = set()
    features(proj, res, seen)
    simulations(proj, res, seen)
    overlay(proj, res, seen)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"kikuchipy/features.py": '''
import numpy as np


class KikuchiPatternLine:
    def __init__(self, hkl, hkl_detector, in_pattern, max_r_gnomonic=10.0):
        v = hkl_detector
        p = np.sqrt(v.x ** 2 + v.y ** 2)
        d = np.atleast_2d(v.z / p)
        inside = (d > 0) & (d < max_r_gnomonic)
        d[~inside] = np.nan
        half = np.sqrt(max_r_gnomonic ** 2 - d ** 2)
        ux, uy = np.atleast_2d(v.x / p), np.atleast_2d(v.y / p)
        ends = np.stack((-d * ux - half * uy, -d * uy + half * ux, -d * ux + half * uy, -d * uy - half * ux), axis=-1)
        self.plane_trace_coordinates = ends


class KikuchiPatternZoneAxis:
    def __init__(self, uvw, uvw_detector, in_pattern, max_r_gnomonic=10.0):
        v = uvw_detector
        xy = np.stack((np.atleast_2d(v.x / v.z), np.atleast_2d(v.y / v.z)), axis=-1)
        xy[np.sqrt(xy[..., 0] ** 2 + xy[..., 1] ** 2) >= max_r_gnomonic] = np.nan
        self._xy_within_r_gnomonic = xy
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C48",
        explanation=(
            "abstract interpretation of the simulator's projection of reflectors onto a detector, the lines and zone axes of "
            "patterns, their coordinates, collections and markers, and of the overlay drawn on a detector, for a triclinic "
            "and an orthorhombic crystal, maps of three shapes with one or as many projection centers and detectors of three shapes: every line "
            "must run between two points of the plane's trace at the radius of the detector, every zone axis be the axis "
            "common to two planes, none be missing or added, and pixels follow from the gnomonic coordinates"
        ),
        assumptions=[
            "orix' and diffsims' vectors, rotations and lattices by their contract",
            "directions of 15 kinds, 12 reflectors of two crystals, 4 orientations and projection centers stand for any",
            "a plane facing away from the sample (normal along -z) is drawn by its opposite, where that is among the reflectors",
        ],
    )
    scan(ctx.proj, res, ctx.tier == "thorough")
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "simulations of Kikuchi patterns not found")
    r = Result("C48")
    scan(project_from(dict(SELFTEST)), r, None)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    res.require("axes:KikuchiPatternZoneAxis of a pattern" in txt, f"self-test: zone axes behind the detector not reported ({txt[:300]}) ({r.undecided[:3]})")
    res.require("KikuchiPatternLine" not in txt, f"self-test: false report ({txt[:300]})")
    res.require(not r.undecided, f"self-test: undecided ({r.undecided[:3]})")
    res.count("selftest_cases", 2)
    return res
