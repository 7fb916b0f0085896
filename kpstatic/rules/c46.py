"""C46: merged crystal maps take, in each point, the phase of best mean score
and everything else from that phase's map.

Scores, rotations and indices are arrays of a generic point with a known number
of columns.  Which map is best in the point is one unknown number, once the
values it was chosen by have been compared with the mean of the best scores;
what is merged is then decided for each value it can have, and for the point
being or not being in each map's data and indexed there.
"""

from __future__ import annotations

import ast
import itertools
import math
import random

from .. import poly as Q
from ..alg import ELLIPSIS, Arr, Class, Dict, External, Fn, LoopVar, Obj, Opaque, PyError, Slice, Unsupported, View
from ..poly import Num, Point, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import Axis, DType, TAlg, Ten, array
from .c43 import described, length

NY, NX = Q.axis("Ry", 3), Q.axis("Rx", 4)
NAV = (NY, NX)
NAN = sym("nan")
WINNER = sym("winner", "int")


def _nanmean(*xs):
    xs = [x for x in xs if not math.isnan(x)]
    return sum(xs) / len(xs) if xs else math.nan


def _sorted(j, n, *kv):
    n, j = int(n), int(j)
    ks, vs = kv[:n], kv[n:]
    order = sorted(range(n), key=lambda i: (math.isnan(ks[i]), ks[i] if not math.isnan(ks[i]) else 0))
    return vs[order[j]]


def _nan(f):
    def g(*xs):
        ok = [x for x in xs if not math.isnan(x)]
        return f(ok) if ok else math.nan
    return g


Q.EVAL.update({"nanmean": _nanmean, "sorted": _sorted, "isnan": lambda x: math.isnan(x), "nanextreme": _nan(max),
               "nanleast": _nan(min), "nansum": lambda *xs: sum(x for x in xs if not math.isnan(x)),
               "mean": lambda *xs: sum(xs) / len(xs)})


class State(Point):
    """Values in one case: which map is best, in which the point is."""

    def __init__(self, seed, fixed):
        super().__init__(seed)
        self.seed, self.fixed = seed, fixed

    def sym(self, a):
        n = a.args[0]
        if n == "nan":
            return math.nan
        if n in self.fixed:
            return self.fixed[n]
        k = self.where(a)
        if k not in self.val:   # the same in each case
            rng = random.Random(f"{self.seed} {n} {k}")
            self.val[k] = rng.randint(2, 97) if a.sort in ("int", "sint") else rng.randint(0, 1) if a.sort == "bool" else (
                rng.uniform(-1, 1) if n.startswith("score ") else rng.random())
        return self.val[k]


class Level(State):
    """The same simulation indices in all points, all of them in all maps."""

    def __init__(self, fixed, levels, extremes):
        super().__init__(0, fixed)
        self.levels, self.extremes = levels, extremes

    def sym(self, a):
        n = a.args[0]
        if n in self.levels:
            return self.levels[n]
        if n in self.extremes:
            f, cells = self.extremes[n]
            return f(self.ev(c) for c in cells)
        if n == "nan" or n in self.fixed:
            return super().sym(a)
        raise KeyError(n)


class Grid:
    """An array with axes along the points and axes of known length, given by
    the cells of the latter in C order."""

    def __init__(self, axes, cells, dtype=None):
        self.axes, self.cells, self.dtype = tuple(axes), list(cells), dtype

    @property
    def lengths(self):
        return [a for a in self.axes if isinstance(a, int)]

    def structure(self):
        return ("grid", tuple(a if isinstance(a, int) else a.structure() for a in self.axes), tuple(self.cells))

    def copy(self):
        return Grid(self.axes, self.cells, self.dtype)

    def __repr__(self):
        return f"Grid{list(self.axes)}"


class Rots(Opaque):
    """Rotations with the given components."""

    def __init__(self, data):
        super().__init__("rotations")
        self.data = data


class Phases:
    def __init__(self, d=None):
        self.d = dict(d or {})


class Positions:
    """What sorts an array along its last axis."""

    def __init__(self, grid, reverse=False):
        self.grid, self.reverse = grid, reverse


class Engine(TAlg):
    MAX_STEPS = 200000

    def __init__(self, proj, states, identity):
        self.states = states              # the cases that may occur
        self.identity = identity
        super().__init__(proj, {
            "math.copysign": lambda A, a, k, s: Num.const(1 if A.const(a[1]) >= 0 else -1) if A.const(a[0]) in (1, 1.0) else None,
            "orix.crystal_map.CrystalMap": crystal_map, "orix.crystal_map.PhaseList": lambda A, a, k, s: Phases(),
            "orix.quaternion.Rotation": lambda A, a, k, s: Rots(a[0]), "_equal_phase": equal_phase,
            "orix.crystal_map.create_coordinate_arrays": coordinates, "warnings.warn": lambda A, a, k, s: None,
            "numpy.logical_and.reduce": lambda A, a, k, s: A.reduce_int("and", A.grid(a[0]), 0),
            "numpy.logical_or.reduce": lambda A, a, k, s: A.reduce_int("or", A.grid(a[0]), 0),
        })
        self.chosen = []
        self.single = False              # whether the map has one point only
        self.extremes = {}               # greatest and least values over all points, by name
        self.extents = 0

    # ---------------------------------------------------------------- cases
    def agree(self, a, b):
        """Equal in every case."""
        if a.eq(b):
            return True
        for st in self.states:
            p = State(0, st)
            try:
                x, y = p.ev(a), p.ev(b)
            except (ZeroDivisionError, ValueError, OverflowError, KeyError):
                raise Unsupported("condition") from None
            if x != y:
                return False
        return True

    def exists(self, c):
        c = self.num(c)
        if c.value is not None:
            return c.value != 0
        names = {Q.ATOMS[x].args[0] for x in c.all_atoms() if Q.ATOMS[x].fn == "sym"}
        if not c.clean or not names <= set().union(*self.states):
            raise Unsupported(f"whether {c!r} anywhere")
        return any(State(0, st).ev(c) for st in self.states)

    def grid(self, v):
        v = self.deref(v)
        if isinstance(v, Grid):
            return v
        if isinstance(v, Ten):
            return Grid([a if a.names else 1 for a in v.axes], [v.elem], v.dtype)
        if isinstance(v, (Num, bool, LoopVar)):
            return Grid((), [self.num(v)])
        if isinstance(v, Arr) and v.comps is not None and not v.lead:
            return Grid((len(v.comps),), [self.num(c) for c in v.comps])
        if isinstance(v, (list, tuple)) and all(isinstance(self.deref(x), (Num, bool)) for x in v):
            return Grid((len(v),), [self.num(x) for x in v])
        raise Unsupported(f"array expected, got {type(v).__name__}")

    def back(self, g: Grid):
        if g.lengths:
            return g
        return Ten(g.axes, g.cells[0], g.dtype) if g.axes else g.cells[0]

    # ------------------------------------------------------------ selection
    def select(self, axes, parts):
        """Axes of what is selected, cells in order, and where."""
        parts = [self.deref(p) for p in (parts if isinstance(parts, tuple) else (parts,))]
        if not any(p is ELLIPSIS for p in parts):
            parts.append(ELLIPSIS)
        used = sum(1 for p in parts if p is not None and p is not ELLIPSIS)
        if used > len(axes):
            raise PyError("too many indices")
        new, picks, cond, k = [], [], None, 0
        for p in parts:
            if p is ELLIPSIS:
                for _ in range(len(axes) - used):
                    new.append(axes[k])
                    picks.append(None if isinstance(axes[k], Axis) else list(range(axes[k])))
                    k += 1
                continue
            if p is None:
                new.append(1)
                continue
            a = axes[k]
            k += 1
            if isinstance(p, (Ten, Grid)):
                m = self.grid(p)
                if not m.lengths and len(m.axes) == 1 and isinstance(a, Axis) and m.axes[0].names != a.names and sorted(
                        map(repr, m.axes[0].names)) == sorted(map(repr, a.names)):
                    raise PyError("boolean index in another order than the points")
                if m.lengths or len(m.axes) != 1 or not isinstance(a, Axis) or m.axes[0].names != a.names:
                    raise PyError("boolean index of another shape") if isinstance(a, int) else Unsupported("index")
                if m.dtype is not None and self.dtype_name(m.dtype) not in ("bool", "bool_"):
                    raise Unsupported("index")
                old = Q.ONE if a.mask is None else a.mask
                other = Q.ONE if m.axes[0].mask is None else m.axes[0].mask
                if not self.agree(old, other):
                    raise PyError("boolean index over other points")
                c = m.cells[0]
                cond = c if cond is None else cond.mul(c)
                new.append(Axis(*a.names, mask=old.mul(c)))
                picks.append(None)
            elif isinstance(p, Slice):
                if isinstance(a, Axis):
                    if not p.full():
                        raise Unsupported("part of the points")
                    new.append(a)
                    picks.append(None)
                else:
                    r = self.slice_range(p, a)
                    if r is None:
                        raise Unsupported("slice")
                    r = list(r)
                    new.append(len(r))
                    picks.append(r)
            else:
                c = self.const(p)
                if not isinstance(c, int) or isinstance(a, Axis):
                    raise Unsupported("index")
                if not -a <= c < a:
                    raise PyError("index out of range")
                picks.append([c % a])
        dims = [a for a in axes if isinstance(a, int)]
        strides = [math.prod(dims[i + 1:]) for i in range(len(dims))]
        lists = [x for x in picks if x is not None]
        cells = [sum(i * s for i, s in zip(ix, strides)) for ix in itertools.product(*lists)]
        return new, cells, cond

    def index(self, o, i):
        o = self.deref(o)
        if isinstance(o, Phases):
            k = self.const(i)
            if k in o.d:
                return o.d[k]
            for p in o.d.values():
                if p.attrs["name"] == k:
                    return p
            raise PyError(f"no phase {k}")
        if isinstance(o, Rots):
            return Rots(self.index(o.data, i))
        if isinstance(o, (Grid, Ten)):
            g = self.grid(o)
            axes, cells, _ = self.select(g.axes, i)
            return self.back(Grid(axes, [g.cells[c] for c in cells], g.dtype))
        return super().index(o, i)

    def store(self, o, i, v):
        o = self.deref(o)
        if not isinstance(o, (Grid, Ten)):
            return super().store(o, i, v)
        g = self.grid(o)
        axes, cells, cond = self.select(g.axes, i)
        val = self.spread(self.grid(v), axes)
        for c, x in zip(cells, val):
            g.cells[c] = x if cond is None else self.gate(cond, x, g.cells[c])
        if isinstance(o, Ten):
            o.elem = g.cells[0]
        return None

    def spread(self, g, axes):
        """Cells of a value broadcast to axes."""
        if len(g.axes) > len(axes):
            extra = g.axes[: len(g.axes) - len(axes)]
            if any(a != 1 for a in extra):
                raise PyError("shapes")
            g = Grid(g.axes[len(extra):], g.cells, g.dtype)
        pad = len(axes) - len(g.axes)
        mine = [1] * pad + list(g.axes)
        for a, b in zip(mine, axes):
            self.one_axis(a, b)
        dims = [a for a in mine if isinstance(a, int)]
        out = []
        # places of the value's cells for each cell of the target
        tlists = [range(b) for b in axes if isinstance(b, int)]
        for ix in itertools.product(*tlists):
            it = iter(ix)
            at, k = 0, 0
            for a, b in zip(mine, axes):
                j = next(it) if isinstance(b, int) else 0
                if isinstance(a, int):
                    at += (j if a > 1 else 0) * math.prod(dims[k + 1:])
                    k += 1
            out.append(g.cells[at])
        return out

    def one_axis(self, a, b):
        """a fits b"""
        if a == 1 or isinstance(a, int) and a == b:
            return
        if isinstance(a, Axis) and isinstance(b, Axis):
            if a.names == b.names:
                x, y = (Q.ONE if z.mask is None else z.mask for z in (a, b))
                if self.agree(x, y):
                    return
                raise PyError(f"values of the points where {x!r} put where {y!r}")
        raise PyError(f"shapes {a!r} and {b!r}")

    def join(self, gs):
        n = max(len(g.axes) for g in gs)
        out = []
        for i in range(n):
            cur = 1
            for g in gs:
                j = i - (n - len(g.axes))
                if j < 0 or g.axes[j] == 1:
                    continue
                if cur == 1:
                    cur = g.axes[j]
                else:
                    self.one_axis(g.axes[j], cur)
            out.append(cur)
        return out

    # ----------------------------------------------------------- arithmetic
    def mine(self, *vs):
        return any(isinstance(v, Grid) or isinstance(v, Ten) for v in vs)

    def each(self, f, *vs):
        gs = [self.grid(v) for v in vs]
        axes = self.join(gs)
        cols = [self.spread(g, axes) for g in gs]
        return self.back(Grid(axes, [f(*c) for c in zip(*cols)]))

    def zipmap(self, f, *vs):
        if any(isinstance(v, Grid) for v in vs):
            return self.each(f, *vs)
        return super().zipmap(f, *vs)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if self.mine(a, b):
            if any(isinstance(x, (Opaque, Dict, str)) for x in (a, b)):
                raise Unsupported("array with an unknown value")
            if isinstance(op, (ast.BitAnd, ast.BitOr)):
                r = self.each(lambda x, y: x.mul(y) if isinstance(op, ast.BitAnd) else x.add(y).sub(x.mul(y)), a, b)
                return self.boolean(r)
            return self.each(lambda x, y: TAlg.binop(self, op, x, y), a, b)
        return super().binop(op, a, b)

    def boolean(self, r):
        if isinstance(r, (Ten, Grid)):
            r.dtype = DType("bool")
        return r

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None) != (b is None):
            o = b if a is None else a
            if isinstance(o, (Grid, Ten, Phases)):
                return isinstance(op, ast.IsNot)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (Grid, Ten)):
            r = self.each(lambda x, y: self.cond(TAlg.compare(self, ast.Eq(), x, y)), a, b)
            return any(self.exists(c) for c in self.grid(r).cells) != isinstance(op, ast.NotIn)
        if self.mine(a, b) and not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            return self.boolean(self.each(lambda x, y: self.cond(TAlg.compare(self, op, x, y)), a, b))
        return super().compare(op, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.deref(self.ev(e.operand, fr))
        if isinstance(v, (Grid, Ten)):
            g = self.grid(v)
            if isinstance(e.op, ast.USub):
                return self.back(Grid(g.axes, [c.neg() for c in g.cells], g.dtype))
            if isinstance(e.op, (ast.Invert,)):
                return self.back(Grid(g.axes, [Q.ONE.sub(c) for c in g.cells], g.dtype))
            if isinstance(e.op, ast.Not):
                raise Unsupported("not of an array")
        return super().e_UnaryOp(e, fr)

    def augassign(self, s, fr):
        if isinstance(s.target, ast.Name) and isinstance(fr.env.get(s.target.id), Grid):
            g = fr.env[s.target.id]
            r = self.grid(self.binop(s.op, g, self.ev(s.value, fr)))
            g.cells = self.spread(r, g.axes)
            return
        if isinstance(s.target, ast.Subscript):
            o = self.deref(self.ev(s.target.value, fr))
            if isinstance(o, Grid):
                i = self.ev_index(s.target.slice, fr)
                self.store(o, i, self.binop(s.op, self.index(o, i), self.ev(s.value, fr)))
                return
        super().augassign(s, fr)

    def copyv(self, v):
        return v.copy() if isinstance(v, Grid) else super().copyv(v)

    def isinst(self, v, c):
        if isinstance(v, Grid):
            cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
            return any(getattr(x, "dotted", "").endswith("ndarray") for x in cs)
        return super().isinst(v, c)

    # -------------------------------------------------------------- reading
    def attr(self, o, a, fr):
        if isinstance(o, External) and f"{o.dotted}.{a}" in ("numpy.nan", "math.nan", "numpy.NaN"):
            return NAN
        if isinstance(o, Grid):
            if a == "shape":
                return tuple(Num.const(x) if isinstance(x, int) else x.length for x in o.axes)
            if a == "ndim":
                return Num.const(len(o.axes))
            if a == "dtype":
                return o.dtype or DType("float64")
            if a == "size":
                n = Num.const(math.prod(o.lengths))
                for x in o.axes:
                    n = n.mul(x.length) if isinstance(x, Axis) else n
                return n
            if a == "T":
                raise Unsupported("transpose")
        if isinstance(o, Rots) and a == "data":
            return o.data
        if isinstance(o, Rots) and a == "shape":
            return self.attr(o.data, "shape", fr)[:-1]
        if isinstance(o, Phases):
            if a == "names":
                return [p.attrs["name"] for p in o.d.values()]
            if a == "ids":
                return [Num.const(k) for k in o.d]
            if a == "size":
                return Num.const(len(o.d))
        if isinstance(o, Obj) and "ident" in o.attrs and a == "deepcopy":
            return Fn(a, lambda A, args, kw: Obj(None, "phase", dict(o.attrs)))
        if isinstance(o, Obj) and o.name == "xmap":
            if a == "_data_slices_from_coordinates":
                return Fn(a, lambda A, args, kw: (Slice(None, None, None), Slice(None, None, None)))
            if a == "deepcopy":
                return Fn(a, lambda A, args, kw: o)
        return super().attr(o, a, fr)

    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, Phases):
            if name == "add":
                p = args[0]
                if p.attrs["name"] in [x.attrs["name"] for x in o.d.values()]:
                    raise PyError(f"phase {p.attrs['name']} is in the list already")
                o.d[max(list(o.d) + [-1]) + 1] = p
                return None
            if name == "add_not_indexed":
                o.d = {-1: Obj(None, "phase", {"name": "not_indexed", "ident": "not indexed"}), **o.d}
                return None
            if name == "id_from_name":
                for k, p in o.d.items():
                    if p.attrs["name"] == args[0]:
                        return Num.const(k)
                raise PyError(f"no phase {args[0]}")
            if name == "deepcopy":
                return Phases({k: Obj(None, "phase", dict(p.attrs)) for k, p in o.d.items()})
            raise Unsupported(f"phases.{name}")
        if isinstance(o, Ten) and len(o.axes) > 1 and name in ("ravel", "reshape", "flatten", "sum"):
            return super().method(o, name, args, kwargs, fr)
        if isinstance(o, Ten) and name == "reshape":
            return super().method(o, name, args, kwargs, fr)
        if isinstance(o, (Grid, Ten)):
            if name == "astype":
                return self.back(Grid(self.grid(o).axes, self.grid(o).cells, args[0] if args else kwargs.get("dtype")))
            if name in ("copy", "compute"):
                return self.back(self.grid(o).copy())
            if name == "reshape":
                return self.reshape(o, args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args))
            return self.external("numpy." + name, [o] + list(args), kwargs, fr)
        if isinstance(o, Positions):
            raise Unsupported("positions")
        return super().method(o, name, args, kwargs, fr)

    def reshape(self, o, shape):
        if not isinstance(o, Grid):
            return super().reshape(o, shape)
        want = [self.num(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        ints = math.prod(o.lengths)
        names = [a for a in o.axes if isinstance(a, Axis)]
        lead = next((i for i, a in enumerate(o.axes) if isinstance(a, Axis)), 0)
        if any(a != 1 for a in o.axes[:lead]) or len(names) != 1 or not want:
            raise Unsupported("reshape")
        if not (want[0].eq(names[0].length) or want[0].value == -1):
            raise Unsupported("reshape")
        rest = [self.const(x) for x in want[1:]]
        if not all(isinstance(x, int) for x in rest):
            raise Unsupported("reshape")
        if -1 in rest and want[0].value != -1:
            rest[rest.index(-1)] = ints // max(1, -math.prod(rest))
        if math.prod(rest) != ints:
            raise PyError("reshape")
        return self.back(Grid([names[0]] + rest, o.cells, o.dtype))

    # ------------------------------------------------------------ functions
    def int_axis(self, g, ax):
        k = self.const(ax)
        if not isinstance(k, int):
            raise Unsupported("axis")
        if not -len(g.axes) <= k < len(g.axes):
            raise PyError(f"axis {k} of an array with axes {list(g.axes)}")
        k %= len(g.axes)
        if not isinstance(g.axes[k], int):
            raise PyError("reduced over the points")
        return k

    def groups(self, g, k):
        """For each cell of the other axes, the cells along axis k."""
        dims = g.lengths
        at = sum(1 for a in g.axes[:k] if isinstance(a, int))
        n = dims[at]
        inner = math.prod(dims[at + 1:])
        outer = math.prod(dims[:at])
        return [[g.cells[(a * n + j) * inner + b] for j in range(n)] for a in range(outer) for b in range(inner)]

    def reduce_int(self, fn, g, ax):
        k = self.int_axis(g, Num.const(ax) if isinstance(ax, int) else ax)
        rest = g.axes[:k] + g.axes[k + 1:]
        out = []
        for cs in self.groups(g, k):
            if fn in ("and", "or"):
                t = Q.ONE
                for c in cs:
                    t = t.mul(c if fn == "and" else Q.ONE.sub(c))
                out.append(t if fn == "and" else Q.ONE.sub(t))
            else:
                out.append(Num.of(Q.atom(fn, tuple(cs))))
        return self.back(Grid(rest, out, DType("bool") if fn in ("and", "or") else None))

    def external(self, d, args, kwargs, fr):
        if d in self.hooks:
            return self.hooks[d](self, args, kwargs, None)
        args = [self.deref(a) for a in args]
        short = d.split(".")[-1]
        np_ = d.startswith("numpy.") or d in ("abs", "any", "all", "len", "sum", "min", "max")
        o = args[0] if args else None
        if np_ and short in ("zeros", "ones", "full", "empty") and (args or "shape" in kwargs):
            axes = self.axes_of(args[0] if args else kwargs["shape"])
            if axes is not None:
                v = {"zeros": Q.ZERO, "ones": Q.ONE, "empty": sym("whatever")}.get(short)
                if short == "full":
                    v = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
                n = self.dtype_name(kwargs.get("dtype", args[1] if len(args) > 1 and short != "full" else None)) or ""
                n = {"bool_": "bool"}.get(n, n)
                return self.back(Grid(axes, [v] * math.prod(x for x in axes if isinstance(x, int)), DType(n) if n else None))
        if d == "numpy.diff" and isinstance(o, (list, tuple)):
            rows = [self.items(x) if isinstance(x, (list, tuple)) else [x] for x in o]
            if len({len(r) for r in rows}) != 1:
                raise PyError("shapes")
            return Arr([self.num(y).sub(self.num(x)) for p, q in zip(rows, rows[1:]) for x, y in zip(p, q)])
        if short == "dstack" and isinstance(o, (list, tuple)) and np_:
            gs = [self.grid(x) for x in o]
            if not all(len(g.axes) == len(gs[0].axes) for g in gs) or len(gs[0].axes) > 2:
                raise Unsupported("stack")
            for g in gs[1:]:
                for a, b in zip(g.axes, gs[0].axes):
                    self.one_axis(a, b)
            axes = ([1] if len(gs[0].axes) == 1 else []) + list(gs[0].axes) + [len(gs)]
            return Grid(axes, [g.cells[j] for j in range(len(gs[0].cells)) for g in gs])
        if short == "stack" and isinstance(o, (list, tuple)) and np_ and self.const(kwargs.get("axis", Q.ZERO)) == -1:
            gs = [self.grid(x) for x in o]
            return Grid(list(gs[0].axes) + [len(gs)], [g.cells[j] for j in range(len(gs[0].cells)) for g in gs])
        if not self.mine(*args, *kwargs.values()) and not any(isinstance(x, Positions) for x in args):
            return super().external(d, args, kwargs, fr)
        if d == "isinstance":
            return self.isinst(args[0], args[1])
        ax = kwargs.get("axis", args[1] if len(args) > 1 and short not in ("take_along_axis", "where", "full_like", "reshape") else None)
        if np_ and short in ("any", "all") and ax is None:
            cs = self.grid(o).cells
            return any(self.exists(c) for c in cs) if short == "any" else not any(self.exists(Q.ONE.sub(c)) for c in cs)
        if np_ and short in ("any", "all", "logical_and", "logical_or", "min", "max") and ax is not None and len(args) < 2 + ("axis" not in kwargs) and (
                short in ("any", "all")):
            return self.reduce_int("and" if short == "all" else "or", self.grid(o), ax)
        if np_ and short in ("mean", "nanmean", "nansum", "nanmax", "nanmin", "average") and ax is not None and self.grid(o).lengths:
            return self.reduce_int({"mean": "mean", "average": "mean", "nanmax": "nanextreme", "nanmin": "nanleast"}.get(short, short),
                                   self.grid(o), ax)
        if np_ and short in ("nanmax", "nanmin", "max", "min", "amax", "amin") and ax is None:
            cells = self.grid(o).cells
            x = sym(f"{short} of {Q.atom('?all', (tuple(cells),)).id}")
            self.extremes[x.single().args[0]] = (max if "max" in short else min, list(cells))
            return x
        if np_ and short in ("nanargmax", "argmax", "nanargmin", "argmin") and ax is not None:
            g = self.grid(o)
            k = self.int_axis(g, ax)
            gr = self.groups(g, k)
            if len(gr) != 1:
                if self.single and not any(isinstance(a, Axis) for a in g.axes):
                    raise PyError("the axis of the points is gone where there is one point")
                raise Unsupported("several best")
            self.chosen.append((short, gr[0]))
            rest = g.axes[:k] + g.axes[k + 1:]
            return self.back(Grid(rest, [WINNER], DType("int64")))
        if np_ and short == "argsort":
            g = self.grid(o)
            if self.int_axis(g, ax if ax is not None else Num.const(-1)) != len(g.axes) - 1:
                raise Unsupported("argsort")
            return Positions(g)
        if np_ and short == "take_along_axis" and isinstance(args[1], Positions):
            return taken(self, self.grid(o), args[1], kwargs.get("axis", args[2] if len(args) > 2 else None))
        if np_ and short == "sort":
            g = self.grid(o)
            return taken(self, g, Positions(g), ax if ax is not None else Num.const(-1))
        if np_ and short == "squeeze":
            g = self.grid(o)
            if ax is not None:
                k = [self.const(x) for x in (self.items(ax) if isinstance(ax, (tuple, list)) else [ax])]
                if any(not isinstance(x, int) or not -len(g.axes) <= x < len(g.axes) or g.axes[x] != 1
                       and not (self.single and isinstance(g.axes[x], Axis)) for x in k):
                    raise PyError("squeeze of an axis that may be longer than 1")
                k = [x % len(g.axes) for x in k]
                return self.back(Grid([a for i, a in enumerate(g.axes) if i not in k], g.cells, g.dtype))
            return self.back(Grid([a for a in g.axes if a != 1 and not (self.single and isinstance(a, Axis))], g.cells, g.dtype))
        if np_ and short == "reshape":
            return self.reshape(o, args[1] if len(args) > 1 else kwargs["shape"])
        if np_ and short == "isnan":
            return self.boolean(self.each(lambda x: Num.of(Q.atom("isnan", (x,), "bool")), o))
        if np_ and short in ("where",) and len(args) == 3:
            return self.each(self.gate, *args)
        if np_ and short in ("logical_and", "logical_or") and len(args) == 2:
            return self.binop(ast.BitAnd() if short == "logical_and" else ast.BitOr(), *args)
        if np_ and short in ("equal", "not_equal", "less", "greater", "less_equal", "greater_equal") and len(args) == 2:
            return self.compare({"equal": ast.Eq, "not_equal": ast.NotEq, "less": ast.Lt, "greater": ast.Gt, "less_equal": ast.LtE,
                                 "greater_equal": ast.GtE}[short](), *args)
        if np_ and short in ("logical_not", "invert"):
            return self.boolean(self.each(lambda x: Q.ONE.sub(x), o))
        if np_ and short in ("asarray", "array", "copy", "ascontiguousarray"):
            return self.back(self.grid(o).copy())
        if np_ and short in ("zeros_like", "ones_like", "full_like", "empty_like"):
            g = self.grid(o)
            v = {"zeros_like": Q.ZERO, "ones_like": Q.ONE, "empty_like": sym("whatever")}.get(short)
            if short == "full_like":
                v = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
            n = self.dtype_name(kwargs["dtype"]) if kwargs.get("dtype") is not None else None
            return self.back(Grid(g.axes, [v] * len(g.cells), DType({"bool_": "bool"}.get(n, n)) if n else g.dtype))
        if d == "len":
            return self.attr(o, "shape", fr)[0]
        if np_ and short in ("sum", "count_nonzero") and ax is None and isinstance(o, Ten):
            return TAlg.external(self, "numpy.sum", [o], {}, fr)
        if np_ and short in ("abs", "absolute", "negative"):
            return self.each(Q.f_abs if short != "negative" else Num.neg, o)
        if isinstance(o, Ten):
            return super().external(d, args, kwargs, fr)
        raise Unsupported(f"{d} of an array")

    def axes_of(self, sh):
        sh = [self.deref(x) for x in (sh if isinstance(sh, (tuple, list)) else (sh,))]
        out = []
        for x in sh:
            c = self.const(x)
            if isinstance(c, int):
                out.append(c)
            elif isinstance(x, Num) and x.eq(length(NY).mul(length(NX))):
                out.append(Axis(*NAV))
            elif isinstance(x, Num) and Q.axis_of(x):
                out.append(Axis(Q.axis_of(x)))
            else:
                return None
        return out


def taken(A, v: Grid, pos: Positions, ax):
    g = pos.grid
    if A.int_axis(v, ax) != len(v.axes) - 1 or g.lengths != v.lengths or len(v.lengths) != 1:
        raise Unsupported("take")
    n = Num.const(len(v.cells))
    return A.back(Grid(v.axes, [Num.of(Q.atom("sorted", (Num.const(j), n, *g.cells, *v.cells))) for j in range(len(v.cells))],
                       v.dtype))


def crystal_map(A, args, kwargs, s):
    names = ("rotations", "phase_id", "x", "y", "phase_list", "prop", "scan_unit", "is_in_data")
    o = Obj(None, "merged", {**dict(zip(names, args)), **kwargs})
    return o


def coordinates(A, args, kwargs, s):
    kw = {**dict(zip(("shape", "step_sizes"), args)), **kwargs}
    A.coords = kw
    return (Dict({"x": Opaque("x coordinates"), "y": Opaque("y coordinates")}), Opaque("size"))


def equal_phase(A, args, kwargs, s):
    a, b = list(args) + list(kwargs.values())
    return (a.attrs["ident"] == b.attrs["ident"], "lattice")


# ----------------------------------------------------------------- the maps
def in_data(i):
    return Q.array_sym(f"in map {i}", NAV, "bool")


def unindexed(i):
    return Q.array_sym(f"not indexed in map {i}", NAV, "bool")


def score(i, j):
    return Q.array_sym(f"score {j} of map {i}", NAV)


def simulation(i, j):
    return Q.array_sym(f"simulation {j} of map {i}", NAV)


def component(i, j, c):
    return Q.array_sym(f"rotation {j}.{c} of map {i}", NAV)


class Case:
    """How the maps that are merged look."""

    def __init__(self, names, n=1, masks="none", best=1, greater=None, sims=False, indexed=True, wins=None, flat=False, single=False):
        self.names, self.n, self.masks, self.best, self.greater, self.sims = names, n, masks, best, greater, sims
        self.indexed, self.wins = indexed, tuple(range(len(names))) if wins is None else wins
        self.flat, self.single = flat, single

    def partial(self, i):
        return self.masks == "all" or self.masks == "outside" or self.masks == "first" and i == 0

    def __repr__(self):
        g = "" if self.greater is None else f", greater_is_better={self.greater}"
        return (f"{len(self.names)} {'1D ' if self.flat else ''}maps {'with one point ' if self.single else ''}of phases {', '.join(a + ('' if a == b else ' (' + b + ')') for a, b in self.names)}"
                f"{'' if len(self.wins) == len(self.names) else f' best in map {self.wins} only'}, {self.n} scores per point, "
                f"masks: {self.masks}, mean_n_best={self.best}{g}, {'simulation indices, ' if self.sims else ''}"
                f"{'all points indexed' if self.indexed else 'some points not indexed'}")

    @property
    def sign(self):
        return (1 if self.best > 0 else -1) if self.greater is None else 1 if self.greater else -1

    def states(self):
        m = len(self.names)
        out = []
        for w in self.wins:
            for ins in itertools.product(*[(0, 1) if self.partial(i) and i != w else (1,) for i in range(m)]):
                for nis in itertools.product(*[(0, 1) if not self.indexed else (0,) for i in range(m)]):
                    st = {"winner": w}
                    st.update({f"in map {i}": v for i, v in enumerate(ins)})
                    st.update({f"not indexed in map {i}": v for i, v in enumerate(nis)})
                    out.append(st)
        return out


def xmap(case, i):
    rows = Axis(*NAV, mask=in_data(i)) if case.partial(i) else Axis(*NAV)
    n = case.n

    def columns(f):
        if n == 1:
            return Ten((rows,), f(i, 0), DType("float64"))
        return Grid((rows, n), [f(i, j) for j in range(n)], DType("float64"))
    rot = Grid((rows, n, 4) if n > 1 else (rows, 4), [component(i, j, c) for j in range(n) for c in range(4)])
    name, ident = case.names[i]
    d = {} if case.indexed else {-1: Obj(None, "phase", {"name": "not_indexed", "ident": "not indexed"})}
    d[0] = Obj(None, "phase", {"name": name, "ident": ident})
    prop = Dict({"scores": columns(score)})
    if case.sims:
        prop["simulation_indices"] = columns(simulation)
    ids = Num.of(Q.atom("ite", (unindexed(i), Num.const(-1), Q.ZERO))) if not case.indexed else Q.ZERO
    whole = in_data(i) if case.masks == "outside" else Q.ONE
    return Obj(None, "xmap", {
        "shape": (length(NY), length(NX)) if case.masks != "all" and not case.flat else (rows.length,), "size": rows.length,
        "rotations_per_point": Num.const(n),
        "prop": prop, "rotations": Rots(rot), "phase_id": Ten((rows,), ids, DType("int64")),
        "phases_in_data": Phases(d), "phases": Phases(d), "dx": sym("dx"), "dy": sym("dy"), "scan_unit": "um",
        "is_indexed": Ten((rows,), Q.ONE.sub(unindexed(i)) if not case.indexed else Q.ONE, DType("bool")),
        "is_in_data": Ten((Axis(*NAV),), whole if case.masks != "first" or i else Q.ONE, DType("bool")),
        "_original_shape": (length(NY), length(NX)), **prop})


CASES = [
    Case((("a", "a"), ("b", "b"))),
    Case((("a", "a"), ("b", "b")), best=-1),
    Case((("a", "a"), ("b", "b")), best=1, greater=False),
    Case((("a", "a"), ("b", "b")), n=3),
    Case((("a", "a"), ("b", "b"), ("c", "c")), n=3, best=2),
    Case((("a", "a"), ("b", "b")), n=3, best=-2),
    Case((("a", "a"), ("b", "b")), n=3, best=2, greater=False),
    Case((("a", "a"), ("b", "b")), n=3, best=3, greater=True, sims=True),
    Case((("a", "a"), ("b", "b"), ("c", "c")), n=2, best=1, sims=True),
    Case((("a", "a"), ("b", "b")), sims=True),
    Case((("a", "a"), ("b", "b"), ("c", "c"), ("d", "d")), n=2, sims=True),
    Case((("a", "a"), ("b", "b")), n=2, flat=True),
    Case((("a", "a"), ("b", "b")), n=2, flat=True, single=True),
    Case((("a", "a"), ("b", "b"), ("c", "c")), n=3, best=2, single=True, sims=True),
    Case((("a", "a"), ("b", "b")), masks="first"),
    Case((("a", "a"), ("b", "b")), masks="all"),
    Case((("a", "a"), ("b", "b")), masks="outside"),
    Case((("a", "a"), ("b", "b")), n=3, masks="first", best=2, sims=True),
    Case((("a", "a"), ("b", "b"), ("c", "c")), n=2, masks="all", best=-2, sims=True),
    Case((("a", "a"), ("b", "b"), ("c", "c")), n=2, masks="outside", best=2),
    Case((("a", "a"), ("a", "a"))),
    Case((("a", "a"), ("a", "a2"))),
    Case((("a", "a"), ("a", "a"), ("b", "b"))),
    Case((("a", "a"), ("a", "a2"), ("a", "a3"))),
    Case((("a", "a"), ("b", "b"), ("b", "b2"))),
    Case((("a", "a"), ("b", "b"), ("b", "b"), ("b", "b2"))),
    Case((("a", "a"), ("b", "b"), ("a", "a"))),
    Case((("a", "a"), ("b", "b"), ("b", "b"))),
    Case((("a", "a"), ("b", "b"), ("b", "b")), wins=(1, 2)),
    Case((("a", "a"), ("b", "b"), ("c", "c")), wins=(1, 2)),
    Case((("a", "a"), ("b", "b"), ("c", "c")), wins=(0, 2)),
    Case((("a", "a"), ("b", "b2"), ("b", "b")), n=2, wins=(1, 2)),
    Case((("a", "a"), ("b", "b")), indexed=False),
    Case((("a", "a"), ("b", "b"), ("b", "b")), indexed=False, wins=(1, 2)),
    Case((("a", "a"), ("b", "b"), ("c", "c")), indexed=False, wins=(1, 2)),
    Case((("a", "a"), ("b", "b")), indexed=False, masks="first"),
    Case((("a", "a"), ("b", "b")), indexed=False, masks="outside", n=2),
    Case((("a", "a"), ("a", "a")), indexed=False, n=2, best=2),
]


def value(st, seed, x):
    try:
        return float(State(seed, st).ev(x))
    except (ZeroDivisionError, ValueError, OverflowError):
        return None


def near(x, y):
    if x is None or y is None:
        return True
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    return abs(x - y) <= 1e-7 * max(1, abs(x), abs(y))


def told(st):
    return ", ".join(f"{k}: {v}" if k != "winner" else f"map {v} best" for k, v in st.items())


def merge(proj, fn, case, res: Result, seen):
    A = Engine(proj, case.states(), None)
    A.coords = None
    A.single = case.single
    m = len(case.names)
    what = f"merge_crystal_maps({case!r})"
    maps = [xmap(case, i) for i in range(m)]
    kw = {"mean_n_best": Num.const(case.best)}
    if case.greater is not None:
        kw["greater_is_better"] = case.greater
    if case.sims:
        kw["simulation_indices_prop"] = "simulation_indices"
    if case.masks in ("first", "all"):
        kw["navigation_masks"] = [Ten(NAV, Q.ONE.sub(in_data(i)), DType("bool")) if case.partial(i) else None for i in range(m)]
    r = A.call_func(fn, [maps], kw)
    seen.update(A.functions)
    if not (isinstance(r, Obj) and r.name == "merged"):
        res.undecided.append(f"{what}: result not described")
        return
    # which map is best
    res.count("obligations")
    if len(A.chosen) != 1:
        res.undecided.append(f"{what}: choice not described")
        return
    short, cells = A.chosen[0]
    bad = None
    if len(cells) != m:
        bad = f"the best of {len(cells)} values is taken for {m} maps"
    for seed in range(60):
        if bad:
            break
        st = {k: v for k, v in case.states()[seed % len(case.states())].items() if not k.startswith("winner")}
        p = State(seed, st)
        means = [_nanmean(*[p.ev(score(i, j)) for j in range(min(abs(case.best), case.n))]) * case.sign
                 if not case.partial(i) or p.ev(in_data(i)) else -math.inf for i in range(m)]
        want = max(range(m), key=lambda i: means[i])
        got = [p.ev(c) for c in cells]
        got = [(-math.inf if math.isnan(x) and short.startswith("nan") else x * (1 if short.endswith("max") else -1)) for x in got]
        if any(math.isnan(x) for x in got):
            bad = f"{short}() of values with NaN where a point is in one map only"
        elif max(range(m), key=lambda i: got[i]) != want:
            bad = f"the map chosen is that of {short} of {cells!r}"[:400]
    if bad:
        res.add("best", what, f"{bad}, not that of the best mean of the {min(abs(case.best), case.n)} best scores", fn.where)
        return
    res.count("proved_equal")
    prop = r.attrs.get("prop")
    if not isinstance(prop, Dict):
        res.undecided.append(f"{what}: properties not described")
        return
    rows = Axis(*NAV)

    def each(kind, got, pick, width):
        """A cell in each case against the best map's."""
        res.count("obligations")
        if got is None:
            res.add("merged", what, f"no {kind} in the merged map", fn.where)
            return
        got = got.data if isinstance(got, Rots) else got
        if not isinstance(got, (Ten, Grid)):
            res.undecided.append(f"{what}: {kind} not described")
            return
        g = A.grid(got)
        axes = [a for a in g.axes if a != 1]
        if not axes or not isinstance(axes[0], Axis) or not axes[0].same(rows) or math.prod(g.lengths) != width:
            res.add("merged", what, f"{kind} has axes {list(g.axes)}", fn.where)
            return
        for st in A.states:
            if not case.indexed:
                here = [st[f"not indexed in map {i}"] for i in range(m) if st[f"in map {i}"]]
                if any(here):
                    continue
            for seed in range(4):
                for k, c in enumerate(g.cells):
                    x, y = value(st, seed, c), value(st, seed, pick(st, k))
                    if not near(x, y):
                        res.add("merged", what, f"{kind}[{k}] is {c!r}, in a point with {told(st)} not {pick(st, k)!r}"[:500], fn.where)
                        return
        res.count("proved_equal")
    n = case.n
    each("rotations", r.attrs.get("rotations"), lambda st, k: component(st["winner"], k // 4, k % 4), 4 * n)
    each("scores", prop.get("scores"), lambda st, k: score(st["winner"], k), n)
    if case.sims:
        each("simulation indices", prop.get("simulation_indices"), lambda st, k: simulation(st["winner"], k), n)

    # all scores, best first
    def here(i, x):
        return Num.of(Q.atom("ite", (in_data(i), x, NAN))) if case.partial(i) else x
    keys = [(here(i, score(i, j)), i, j) for j in range(n) for i in range(m)]
    order = [x.mul(Num.const(-case.sign)) for x, _, _ in keys]

    def nth(k, values):
        return Num.of(Q.atom("sorted", (Num.const(k), Num.const(len(keys)), *order, *values)))
    each("merged scores", prop.get("merged_scores"), lambda st, k: nth(k, [x for x, _, _ in keys]), m * n)
    if case.sims:
        each_index(A, res, what, fn, case, prop.get("merged_simulation_indices"), nth, keys, here)
    phases(A, res, what, fn, case, r)
    res.count("obligations")
    c = A.coords or {}
    sh, st = (A.items(c[k]) if isinstance(c.get(k), (tuple, list)) else None for k in ("shape", "step_sizes"))
    if sh is None or st is None or not all(isinstance(A.deref(x), Num) for x in [*sh, *st]):
        res.undecided.append(f"{what}: coordinates not described")
        return
    sh, st = [A.deref(x) for x in sh], [A.deref(x) for x in st]
    want = [length(NY).mul(length(NX))] if case.flat else [length(NY), length(NX)]
    steps = [sym("dx")] if case.flat else [sym("dy"), sym("dx")]
    if len(sh) != len(want) or not all(x.eq(y) for x, y in zip(sh, want)):
        res.add("points", what, f"the merged map has shape {sh!r}", fn.where)
    elif len(st) != len(steps) or not all(x.eq(y) for x, y in zip(st, steps)):
        res.add("points", what, f"the merged map of shape {sh!r} has step sizes {st!r}, not {steps!r}", fn.where)
    else:
        res.count("proved_equal")


def each_index(A, res, what, fn, case, got, nth, keys, here):
    """Indices follow their scores; what is added to them is one number for
    each map."""
    res.count("obligations")
    g = A.grid(got) if isinstance(got, (Ten, Grid)) else None
    if g is None or len(g.cells) != len(keys):
        res.undecided.append(f"{what}: merged indices not described")
        return
    offsets = {}
    for k, c in enumerate(g.cells):
        a = c.single()
        if a is None or a.fn != "sorted":
            res.undecided.append(f"{what}: merged indices not described")
            return
        vals = a.args[2 + len(keys):]
        for (_, i, j), v in zip(keys, vals):
            for st in A.states:
                if not st[f"in map {i}"]:
                    continue
                x, y = value(st, 1, v), value(st, 1, here(i, simulation(i, j)))
                if x is None or y is None:
                    continue
                old = offsets.setdefault(i, x - y)
                if not near(old, x - y):
                    res.add("merged", what, f"index {j} of map {i} becomes {v!r}"[:400], fn.where)
                    return
        for st in A.states:
            for seed in range(4):
                wanted = nth(k, [here(i, simulation(i, j)).add(Num.const(1000 * i)) for _, i, j in keys])
                mine = nth_of(a, [here(i, simulation(i, j)).add(Num.const(1000 * i)) for _, i, j in keys])
                if not near(value(st, seed, wanted), value(st, seed, mine)):
                    res.add("merged", what, f"merged simulation index {k} is not that of merged score {k}", fn.where)
                    return
    res.count("proved_equal")
    distinct(A, res, what, fn, case, got, keys)


def distinct(A, res, what, fn, case, got, keys):
    """Simulations of different maps have different numbers, whatever the
    numbers in the maps are."""
    res.count("obligations")
    a = A.grid(got).cells[0].single()
    vals = a.args[2 + len(keys):]
    st = next((s for s in A.states if all(s[f"in map {i}"] for i in range(len(case.names)))), None)
    if st is None:
        return
    for seed in range(24):
        rng = random.Random(seed)
        base = [3] * 4 if seed == 0 else [rng.randint(0, 9) for _ in range(4)]
        levels = {f"simulation {j} of map {i}": base[i] + (rng.randint(0, 3) if seed > 5 else 0) for _, i, j in keys}
        p = Level(st, levels, A.extremes)
        try:
            out = {(i, j): p.ev(v) for (_, i, j), v in zip(keys, vals)}
        except (KeyError, ZeroDivisionError, ValueError, OverflowError):
            res.undecided.append(f"{what}: numbers of the merged indices not described")
            return
        for (i, j), (k, m) in itertools.combinations(out, 2):
            if i != k and out[i, j] == out[k, m]:
                x, y = levels[f"simulation {j} of map {i}"], levels[f"simulation {m} of map {k}"]
                res.add("merged", what, f"simulations {x} of map {i} and {y} of map {k} both become {out[i, j]:g}", fn.where)
                return
    res.count("proved_equal")


def nth_of(a, values):
    n = len(values)
    return Num.of(Q.atom("sorted", (*a.args[:2 + n], *values)))


def phases(A, res, what, fn, case, r):
    """The phase named in each point is the best map's."""
    res.count("obligations")
    ids, pl = r.attrs.get("phase_id"), r.attrs.get("phase_list")
    if not isinstance(ids, Ten) or not isinstance(pl, Phases):
        res.undecided.append(f"{what}: phases not described")
        return
    m = len(case.names)
    vals = []
    for st in A.states:
        v = value(st, 0, ids.elem)
        if v is None or v != int(v):
            res.undecided.append(f"{what}: phase not described")
            return
        vals.append(int(v))
    used = sorted(set(vals) - {-1})
    listed = dict(pl.d)
    n = len(listed) - len(used)
    if n > 0:       # CrystalMap() leaves out phases of the list without points
        for i in sorted(listed)[::-1]:
            if i not in used:
                del listed[i]
                n -= 1
            if n == 0:
                break
    elif n < 0:     # and adds unnamed ones
        listed = {i: listed.get(i) or Obj(None, "phase", {"name": "", "ident": "an unnamed phase"}) for i in used}
    name = dict(zip(used, [listed[k] for k in sorted(listed)]))
    one = {}
    for st, v in zip(A.states, vals):
        ident = case.names[st["winner"]][1]
        if v != -1 and one.setdefault(ident, v) != v:
            res.add("phase", what, f"a point with {told(st)} gets phase ID {v}, points of the same phase in another map {one[ident]}", fn.where)
            return
    for st, v in zip(A.states, vals):
        here = [i for i in range(m) if st[f"in map {i}"]]
        nis = [st[f"not indexed in map {i}"] for i in here]
        got = "not indexed" if v == -1 else name[v].attrs["ident"]
        if all(nis):
            want = "not indexed"
        elif any(nis):
            continue
        else:
            want = case.names[st["winner"]][1]
        if got != want:
            res.add("phase", what, f"a point with {told(st)} gets phase ID {v}, {got!r} in the phase list, not {want!r}", fn.where)
            return
    res.count("proved_equal")


def scan(proj, res: Result):
    seen = set()
    fns = [f for f in proj.funcs.values() if f.name == "merge_crystal_maps" and f.cls is None and f.parent is None]
    for fn in fns[:1]:
        for case in CASES:
            def one(case=case, fn=fn):
                merge(proj, fn, case, res, seen)
            described(res, "merged", f"merge_crystal_maps({case!r})", one, fn.where)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import numpy as np
from orix.crystal_map import CrystalMap, PhaseList, create_coordinate_arrays
from orix.quaternion import Rotation


def merge_crystal_maps(crystal_maps, mean_n_best=1, greater_is_better=None, scores_prop="scores",
                       simulation_indices_prop=None, navigation_masks=None):
    shape = crystal_maps[0].shape
    size = int(np.prod(shape))
    sign = 1 if mean_n_best > 0 else -1
    n_best = abs(mean_n_best)
    if crystal_maps[0].rotations_per_point > 1:
        scores = np.stack([x.prop[scores_prop] for x in crystal_maps], axis=-1)
        best = np.mean(scores[:, :n_best], axis=1)
    else:
        scores = np.zeros((size, len(crystal_maps)))
        for i, xmap in enumerate(crystal_maps):
            scores[:, i] = xmap.prop[scores_prop]
        best = scores
    winner = np.argmax(sign * best, axis=1)
    phases = PhaseList()
    rot = np.zeros(scores.shape[:-1] + (4,))
    new = np.zeros(scores.shape[:-1])
    for i, xmap in enumerate(crystal_maps):
        here = np.equal(winner, i)
        if not np.any(here):
            continue
        phase = xmap.phases_in_data[0]
        if phase.name not in phases.names:
            phases.add(phase)
        rot[here] = xmap.rotations[here].data
        new[here] = xmap.prop[scores_prop][here]
    merged = -np.sort(-scores.reshape((size, -1)), axis=1)
    kw, _ = create_coordinate_arrays(shape, (crystal_maps[0].dy, crystal_maps[0].dx)[-len(shape):])
    return CrystalMap(rotations=Rotation(rot), phase_id=winner, phase_list=phases,
                      prop={scores_prop: new, f"merged_{scores_prop}": merged}, **kw)
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C46",
        explanation=(
            "value numbering of merge_crystal_maps for a generic point of maps with 1-3 columns of scores: each array is the "
            "value of its generic element, assignments with a boolean index are conditional values, sorting along an axis is a "
            "function of its keys. Which map is best is one unknown once the compared values have been shown to be the means "
            "of the best scores; for each value it can have, and each way the point can be in the maps' data and indexed there, "
            "rotations, scores, simulation indices and the phase named by ID and phase list (as orix pairs them) must be the "
            "best map's, the merged scores the sorted scores with their indices beside them, the map's shape and steps those of "
            "the maps. Maps share phases, have equal names for different phases, are best nowhere, in various orders"
        ),
        assumptions=["NumPy's sorting, selection and NaN functions, orix' CrystalMap and PhaseList do as read",
                     "scores in the maps are not NaN, and some map is best in each point (no ties)",
                     f"{len(CASES)} sets of two or three maps stand for other numbers of maps and columns"],
    )
    scan(ctx.proj, res)
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "merge_crystal_maps() not found")
    r = Result("C46")
    scan(project_from(dict(SELFTEST)), r)
    txt = " ".join(f.rule + "|" + f.construct + ";" for f in r.findings)
    want = ("best|merge_crystal_maps(2 maps of phases a, b, 1 scores per point, masks: none, mean_n_best=1, greater_is_better=False",
            "merged|merge_crystal_maps(2 maps of phases a, b, 1 scores per point, masks: none, mean_n_best=-1",  # sorted one way
            "phase|merge_crystal_maps(2 maps of phases a, a,",              # phase IDs beyond the list's
            "phase|merge_crystal_maps(2 maps of phases a, b, 1 scores per point, masks: none, mean_n_best=1, some points not")
    quiet = ("2 maps of phases a, b, 1 scores per point, masks: none, mean_n_best=1, all",
             "2 maps of phases a, b, 3 scores per point, masks: none, mean_n_best=1, all",
             "3 maps of phases a, b, c, 3 scores per point, masks: none, mean_n_best=2, all",
             "2 1D maps of phases a, b, 2 scores per point")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:400]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w}")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
