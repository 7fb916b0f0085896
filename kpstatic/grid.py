"""Arrays with axes of known length beside named ones.

A cell for each place along the axes of known length, each the value of the
generic element along the named axes (tens.py).  Indices, masks and sorted
orders that are constants are applied, so that a program working on a small
map with patterns of any content is described by the values in each point.
"""

from __future__ import annotations

import ast
import itertools
import math

from . import poly as Q
from .alg import ELLIPSIS, Arr, Class, Dict, External, LoopVar, Obj, Opaque, PyError, Slice, Unsupported, View
from .poly import Num, sym
from .tens import FLOATS, Axis, DType, TAlg, Ten

NAN = sym("nan")


class Grid:
    """`axes` of known length (int) or named; `cells` in C order of the
    former."""

    def __init__(self, axes, cells, dtype=None, cls=None, chunks=None):
        self.axes, self.cells, self.dtype, self.cls, self.chunks = tuple(axes), list(cells), dtype, cls, chunks
        self.attrs: dict = {}
        assert len(self.cells) == math.prod(self.lengths), (self.axes, len(self.cells))

    @property
    def lengths(self):
        return [a for a in self.axes if isinstance(a, int)]

    def structure(self):
        return ("grid", tuple(a if isinstance(a, int) else a.structure() for a in self.axes), tuple(self.cells))

    def copy(self):
        g = Grid(self.axes, self.cells, self.dtype, self.cls, self.chunks)
        g.attrs = dict(self.attrs)
        return g

    def like(self, cells, dtype="same"):
        return Grid(self.axes, cells, self.dtype if dtype == "same" else dtype, self.cls, self.chunks)

    def __repr__(self):
        return f"Grid{list(self.axes)}"


BOOL = DType("bool")
INT = DType("int64")


def isnan(c):
    return c.eq(NAN)


class Common(Opaque):
    """The set of values two sequences have in common."""


class GAlg(TAlg):
    MAX_STEPS = 2000000
    MAX_LOOP = 200

    def __init__(self, proj, hooks=None):
        super().__init__(proj, {
            "scipy.ndimage.generic_filter": generic_filter, "dask.array.map_overlap": overlap_hook,
            "dask.array.overlap.map_overlap": overlap_hook, **(hooks or {})})

    # ------------------------------------------------------------- values
    def grid(self, v):
        v = self.deref(v)
        if isinstance(v, Grid):
            return v
        if isinstance(v, Ten):
            return Grid([a if a.names else 1 for a in v.axes], [v.elem], v.dtype)
        if isinstance(v, bool):
            return Grid((), [Num.const(int(v))], BOOL)
        if isinstance(v, (Num, LoopVar, View)):
            return Grid((), [self.num(v)])
        if isinstance(v, Arr) and v.comps is not None:
            return self.stacked([self.grid(c) for c in v.comps])
        if isinstance(v, (list, tuple)):
            return self.stacked([self.grid(x) for x in v]) if v else Grid((0,), [])
        raise Unsupported(f"array expected, got {type(v).__name__}")

    def stacked(self, gs, at=0):
        if any(len(g.axes) != len(gs[0].axes) for g in gs):
            raise PyError("shapes")
        for g in gs[1:]:
            for a, b in zip(g.axes, gs[0].axes):
                if not self.same_axis(a, b):
                    raise PyError("shapes")
        axes = list(gs[0].axes)
        axes.insert(at, len(gs))
        before = math.prod(a for a in axes[:at] if isinstance(a, int))
        after = math.prod(a for a in axes[at + 1:] if isinstance(a, int))
        return Grid(axes, [g.cells[i * after + j] for i in range(before) for g in gs for j in range(after)], gs[0].dtype)

    def joined(self, gs, k):
        """Concatenate along an axis of known length."""
        for g in gs:
            if len(g.axes) != len(gs[0].axes) or not all(
                    self.same_axis(a, b) for j, (a, b) in enumerate(zip(g.axes, gs[0].axes)) if j != k):
                raise PyError("shapes")
            if not isinstance(g.axes[k], int):
                raise Unsupported("joined along a named axis")
        axes = list(gs[0].axes)
        axes[k] = sum(g.axes[k] for g in gs)
        before = math.prod(a for a in axes[:k] if isinstance(a, int))
        cells = []
        for i in range(before):
            for g in gs:
                n = len(g.cells) // before if before else 0
                cells += g.cells[i * n:(i + 1) * n]
        return Grid(axes, cells, gs[0].dtype)

    def same_axis(self, a, b):
        return a == b if isinstance(a, int) and isinstance(b, int) else isinstance(a, Axis) and isinstance(b, Axis) and a.same(b)

    def back(self, g: Grid):
        if not g.axes:
            return g.cells[0]
        return g

    def consts(self, g: Grid):
        out = [self.const(c) for c in g.cells]
        if any(x is None for x in out) or any(isinstance(a, Axis) for a in g.axes):
            raise Unsupported("values not known")
        return out

    # ---------------------------------------------------------- selection
    def select(self, axes, parts):
        """Axes of the selection and the cells in it."""
        parts = [self.deref(p) for p in (parts if isinstance(parts, tuple) else (parts,))]
        flat = []
        for p in parts:
            if isinstance(p, tuple):
                flat += [self.deref(x) for x in p]
            else:
                flat.append(p)
        parts = [self.grid(p) if isinstance(p, (list, Arr, Ten)) else p for p in flat]
        if not any(p is ELLIPSIS for p in parts):
            parts.append(ELLIPSIS)

        def takes(p):
            if p is None or p is ELLIPSIS:
                return 0
            return len(p.axes) if isinstance(p, Grid) and self.is_bool(p) else 1
        used = sum(takes(p) for p in parts)
        if used > len(axes):
            raise PyError("too many indices")
        new, picks, k = [], [], 0       # picks: (positions of the new axes, function from their indices to places)
        fancy = None
        for p in parts:
            if p is ELLIPSIS:
                for _ in range(len(axes) - used):
                    new.append(axes[k])
                    picks.append((len(new) - 1, None))
                    k += 1
            elif p is None:
                new.append(1)
            elif isinstance(p, Grid):
                idx = self.positions(p, axes[k:k + takes(p)])
                shape = idx[0].axes
                if fancy is None:
                    fancy = (len(new), shape)
                    new += list(shape)
                elif shape != fancy[1]:
                    raise Unsupported("index arrays of different shape")
                elif fancy[0] + len(shape) != len(new):
                    raise Unsupported("index arrays apart")
                for g, a in zip(idx, axes[k:]):
                    if not isinstance(a, int):
                        raise Unsupported("index along a named axis")
                    vals = self.consts(g)
                    if any(not -a <= v < a for v in vals):
                        raise PyError(f"index {vals} out of range {a}")
                    picks.append((tuple(range(fancy[0], fancy[0] + len(shape))), [v % a for v in vals]))
                k += takes(p)
            elif isinstance(p, Slice):
                a = axes[k]
                k += 1
                if isinstance(a, Axis):
                    if not p.full():
                        raise Unsupported("part of a named axis")
                    new.append(a)
                    picks.append((len(new) - 1, None))
                else:
                    r = self.slice_range(p, a)
                    if r is None:
                        raise Unsupported("slice")
                    new.append(len(list(r)))
                    picks.append((len(new) - 1, list(r)))
            else:
                c = self.const(p)
                a = axes[k]
                k += 1
                if not isinstance(c, int) or isinstance(a, Axis):
                    raise Unsupported("index")
                if not -a <= c < a:
                    raise PyError("index out of range")
                picks.append(((), [c % a]))
        dims = [a for a in axes if isinstance(a, int)]
        strides = [math.prod(dims[i + 1:]) for i in range(len(dims))]
        ints = [i for i, a in enumerate(new) if isinstance(a, int)]
        cells = []
        for ix in itertools.product(*[range(new[i]) for i in ints]):
            at = dict(zip(ints, ix))
            place, d = 0, 0
            for j, (where, vals) in enumerate(picks):
                if isinstance(axes[j], Axis):
                    continue
                if where == ():
                    v = vals[0]
                elif isinstance(where, tuple):
                    q = 0
                    for w in where:
                        q = q * new[w] + at[w]
                    v = vals[q]
                else:
                    v = at[where] if vals is None else vals[at[where]]
                place += v * strides[d]
                d += 1
            cells.append(place)
        return new, cells

    def is_bool(self, g):
        return g.dtype is not None and self.dtype_name(g.dtype) in ("bool", "bool_")

    def positions(self, g, axes):
        if not self.is_bool(g):
            return [g]
        if not all(self.same_axis(a, b) for a, b in zip(g.axes, axes)):
            raise PyError("boolean index of another shape")
        return self.nonzero(g)

    def nonzero(self, g):
        vals = self.consts(g)
        ix = [i for i, v in zip(itertools.product(*[range(n) for n in g.axes]), vals) if v]
        return tuple(Grid((len(ix),), [Num.const(i[d]) for i in ix], INT) for d in range(len(g.axes)))

    def index(self, o, i):
        o = self.deref(o)
        if isinstance(o, Ten) and isinstance(i, (Grid, tuple)) and any(isinstance(x, Grid) for x in (i if isinstance(i, tuple) else (i,))):
            o = self.grid(o)
        if isinstance(o, Grid):
            axes, cells = self.select(o.axes, i)
            return self.back(Grid(axes, [o.cells[c] for c in cells], o.dtype))
        if isinstance(o, (list, tuple)) and isinstance(self.deref(i), Grid) and not self.deref(i).axes:
            i = self.deref(i).cells[0]
        return super().index(o, i)

    def store(self, o, i, v):
        o = self.deref(o)
        if not isinstance(o, Grid):
            return super().store(o, i, v)
        m = self.deref(i[0] if isinstance(i, tuple) and len(i) == 1 else i)
        if isinstance(m, Grid) and self.is_bool(m) and any(self.const(c) is None for c in m.cells):
            if len(m.axes) != len(o.axes) or not all(self.same_axis(a, b) for a, b in zip(m.axes, o.axes)):
                raise PyError("boolean index of another shape")
            val = self.spread(self.grid(v), ())
            cells = range(len(o.cells))
            for c, t in zip(cells, m.cells):
                o.cells[c] = self.num(TAlg.gate(self, self.cond(t), self.fitted(val[0], o), o.cells[c]))
        else:
            axes, cells = self.select(o.axes, i)
            val = self.spread(self.grid(v), axes)
            for c, x in zip(cells, val):
                o.cells[c] = self.fitted(x, o)
        base = getattr(o, "base", None)
        if base is not None:
            whole, at = base
            for c, k in enumerate(at):
                whole.cells[k] = o.cells[c]
        return None

    def fitted(self, x, o):
        n = self.dtype_name(o.dtype) if o.dtype is not None else None
        return x if n is None or n in FLOATS or n in ("bool", "bool_") or Q.is_int(x) or isnan(x) else Q.f_int(x)

    def e_Subscript(self, e, fr):
        """Basic indexing of an array gives a view into it."""
        o = self.deref(self.ev(e.value, fr)) if not isinstance(e.value, ast.Constant) else None
        if isinstance(o, Grid):
            i = self.ev_index(e.slice, fr)
            axes, cells = self.select(o.axes, i)
            r = Grid(axes, [o.cells[c] for c in cells], o.dtype)
            parts = i if isinstance(i, tuple) else (i,)
            if axes and not any(isinstance(self.deref(p), (Grid, list, tuple, Arr, Ten)) for p in parts):
                base = getattr(o, "base", None)
                r.base = (o, cells) if base is None else (base[0], [base[1][c] for c in cells])
            return self.back(r)
        if isinstance(o, External):
            if o.dotted in ("numpy.ogrid", "numpy.mgrid"):
                r = self.coordinates(self.ev_index(e.slice, fr), o.dotted.endswith("mgrid"))
                if r is not None:
                    return r
            return super().e_Subscript(e, fr)
        return self.index(o, self.ev_index(e.slice, fr))

    def coordinates(self, i, full):
        """numpy.ogrid and numpy.mgrid."""
        ps = [x for p in (i if isinstance(i, tuple) else (i,)) for x in (p if isinstance(p, tuple) else (p,))]
        if not all(isinstance(p, Slice) and p.hi is not None for p in ps):
            return None
        bounds = [[d if x is None else self.const(x) for x, d in ((p.lo, 0), (p.hi, None), (p.step, 1))] for p in ps]
        if not all(isinstance(x, int) for b in bounds for x in b):
            return None
        rs = [range(*b) for b in bounds]
        out = []
        for k, r in enumerate(rs):
            shape = [len(x) if full or j == k else 1 for j, x in enumerate(rs)]
            out.append(Grid(shape, [Num.const(r[ix[k] if full else ix[k]]) for ix in itertools.product(*map(range, shape))], INT))
        return self.stacked(out) if full and len(out) > 1 else out[0] if len(out) == 1 and not isinstance(i, tuple) else list(out)

    # --------------------------------------------------------- arithmetic
    def one_axis(self, a, b):
        if isinstance(a, int) and a == 1 or self.same_axis(a, b):
            return
        raise PyError(f"shapes {a!r} and {b!r}")

    def join(self, gs):
        n = max(len(g.axes) for g in gs)
        out = []
        for i in range(n):
            cur = 1
            for g in gs:
                j = i - (n - len(g.axes))
                if j < 0 or g.axes[j] == 1:
                    continue
                if cur == 1:
                    cur = g.axes[j]
                else:
                    self.one_axis(g.axes[j], cur)
            out.append(cur)
        return out

    def spread(self, g, axes):
        """Cells of a value broadcast to axes."""
        if len(g.axes) > len(axes):
            extra = g.axes[: len(g.axes) - len(axes)]
            if any(a != 1 for a in extra):
                raise PyError("shapes")
            g = Grid(g.axes[len(extra):], g.cells, g.dtype)
        mine = [1] * (len(axes) - len(g.axes)) + list(g.axes)
        for a, b in zip(mine, axes):
            self.one_axis(a, b)
        dims = [a for a in mine if isinstance(a, int)]
        out = []
        for ix in itertools.product(*[range(b) for b in axes if isinstance(b, int)]):
            it = iter(ix)
            at, k = 0, 0
            for a, b in zip(mine, axes):
                j = next(it) if isinstance(b, int) else 0
                if isinstance(a, int):
                    at += (j if a > 1 else 0) * math.prod(dims[k + 1:])
                    k += 1
            out.append(g.cells[at])
        return out

    def each(self, f, *vs):
        gs = [self.grid(v) for v in vs]
        axes = self.join(gs)
        cols = [self.spread(g, axes) for g in gs]
        return self.back(Grid(axes, [f(*c) for c in zip(*cols)]))

    def mine(self, *vs):
        return any(isinstance(self.deref(v), Grid) for v in vs)

    def zipmap(self, f, *vs):
        if self.mine(*vs):
            def g(*xs):
                return NAN if any(isnan(x) for x in xs) else f(*xs)
            return self.each(g, *vs)
        return super().zipmap(f, *vs)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if self.mine(a, b):
            if isinstance(op, ast.MatMult):
                return self.product_of(a, b)
            if any(isinstance(x, (Opaque, Dict, str)) for x in (a, b)):
                raise Unsupported("array with an unknown value")
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                f = {ast.BitAnd: lambda x, y: x.mul(y), ast.BitOr: lambda x, y: x.add(y).sub(x.mul(y)),
                     ast.BitXor: lambda x, y: x.add(y).sub(x.mul(y).mul(Num.const(2)))}[type(op)]
                r = self.each(f, a, b)
                if isinstance(r, Grid):
                    r.dtype = BOOL
                return r
            def both(x, y):
                if isnan(x) or isnan(y):
                    return NAN
                if isinstance(op, ast.Div) and y.value == 0:
                    if x.value == 0:
                        return NAN
                    raise Unsupported("division by zero")
                return TAlg.binop(self, op, x, y)
            r = self.each(both, a, b)
            ds = [x.dtype for x in (a, b) if isinstance(x, Grid)]
            if isinstance(r, Grid) and all(d is not None and self.dtype_name(d) == self.dtype_name(ds[0]) for d in ds) and not (
                    isinstance(op, ast.Div)):
                r.dtype = ds[0]
            return r
        if any(isinstance(x, Num) and isnan(x) for x in (a, b)) and all(isinstance(x, (Num, bool)) for x in (a, b)):
            return NAN
        if isinstance(op, ast.BitAnd) and isinstance(a, list) and isinstance(b, list):
            return common(self, a, b)
        return super().binop(op, a, b)

    def product_of(self, a, b):
        a, b = self.grid(a), self.grid(b)
        if len(a.axes) not in (1, 2) or len(b.axes) not in (1, 2):
            raise Unsupported("matmul")
        x, y = a.axes[-1], b.axes[0]
        if not self.same_axis(x, y):
            raise PyError("matmul shapes")
        rows = a.axes[:-1]
        cols = b.axes[1:]
        out = []
        if isinstance(x, int):
            nr = rows[0] if rows and isinstance(rows[0], int) else 1
            nc = cols[0] if cols and isinstance(cols[0], int) else 1
            for i in range(nr):
                for j in range(nc):
                    t = Q.ZERO
                    for k in range(x):
                        t = t.add(a.cells[i * x + k].mul(b.cells[k * nc + j]))
                    out.append(t)
        else:
            if x.mask is not None:
                raise Unsupported("selections")
            for p in a.cells:
                for q in b.cells:
                    out.append(Q.f_rsum(x.names, p.mul(q)))
        return self.back(Grid(rows + cols, out))

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None) != (b is None):
            if isinstance(b if a is None else a, Grid):
                return isinstance(op, ast.IsNot)
        if self.mine(a, b) and isinstance(op, (ast.In, ast.NotIn)):
            g, neg = self.grid(b), isinstance(op, ast.NotIn)
            x = self.num(a)
            if x.value is not None and all(c.value is not None for c in g.cells):
                return any(x.value == c.value for c in g.cells) != neg
            r = Num.of(Q.atom("among", (x, *sorted(g.cells, key=repr)), "bool"))
            return Q.ONE.sub(r) if neg else r
        if self.mine(a, b) and not isinstance(op, (ast.Is, ast.IsNot)):
            r = self.each(lambda x, y: self.cond(self.decided(op, TAlg.compare(self, op, x, y))), a, b)
            if isinstance(r, Grid):
                r.dtype = BOOL
            return r
        return self.decided(op, super().compare(op, a, b))

    def decided(self, op, r):
        """A comparison of numbers that are not rational, by their value."""
        if isinstance(r, Num) and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and r.value is None:
            a = r.single()
            if a is not None and a.fn in ("lt", "le"):
                x = Q.value_of(a.args[0].sub(a.args[1]))
                if x is not None and abs(x) > 1e-9:
                    return x < 0
        if isinstance(r, Num) and isinstance(op, ast.Eq) and r.value is None:
            a = r.single()
            if a is not None and a.fn == "eq" and all(isinstance(x, Num) for x in a.args[:2]):
                x = Q.value_of(a.args[0].sub(a.args[1]))
                if x is not None and abs(x) > 1e-9:
                    return False
        return r

    def truth(self, v):
        if isinstance(v, Grid):
            if len(v.cells) == 1:
                return super().truth(v.cells[0])
            raise PyError("truth of an array")
        return super().truth(v)

    def num(self, v):
        if isinstance(v, Grid):
            if len(v.cells) == 1 and not any(isinstance(a, Axis) for a in v.axes):
                return v.cells[0]
            raise Unsupported("number expected, got an array")
        return super().num(v)

    def const(self, v):
        if isinstance(v, Grid) and not v.axes:
            return super().const(v.cells[0])
        return super().const(v)

    def to_scalar(self, v):
        return v.cells[0] if isinstance(v, Grid) and not v.axes else super().to_scalar(v)

    def gate(self, c, a, b):
        if self.mine(a, b):
            return self.each(lambda x, y: TAlg.gate(self, c, x, y), a, b)
        return super().gate(c, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.deref(self.ev(e.operand, fr))
        if isinstance(v, Grid):
            if isinstance(e.op, ast.USub):
                return v.like([c if isnan(c) else c.neg() for c in v.cells])
            if isinstance(e.op, ast.Invert):
                return v.like([Q.ONE.sub(c) for c in v.cells])
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            return v
        return super().e_UnaryOp(e, fr)

    def augassign(self, s, fr):
        if isinstance(s.target, (ast.Name, ast.Attribute)):
            load = ast.copy_location(
                ast.Name(s.target.id, ast.Load()) if isinstance(s.target, ast.Name) else
                ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
            g = self.deref(self.ev(load, fr))
            if isinstance(g, Grid):
                r = self.grid(self.binop(s.op, g, self.ev(s.value, fr)))
                self.store(g, ELLIPSIS, r)
                return
        if isinstance(s.target, ast.Subscript):
            o = self.deref(self.ev(s.target.value, fr))
            if isinstance(o, Grid):
                i = self.ev_index(s.target.slice, fr)
                self.store(o, i, self.binop(s.op, self.index(o, i), self.ev(s.value, fr)))
                return
        super().augassign(s, fr)

    def copyv(self, v):
        return v.copy() if isinstance(v, Grid) else super().copyv(v)

    def isinst(self, v, c):
        v = self.deref(v)
        if isinstance(v, Grid):
            cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
            names = {x.dotted.split(".")[-1] if isinstance(x, External) else getattr(x, "name", "?") for x in cs}
            return bool(names & ({"ndarray", "Iterable", v.cls.name if v.cls else "ndarray"} if v.chunks is None else {"Array"}))
        return super().isinst(v, c)

    def items(self, it):
        it = self.deref(it) if isinstance(it, View) else it
        if isinstance(it, Grid):
            if not it.axes or isinstance(it.axes[0], Axis):
                return None
            n = it.axes[0]
            return [self.index(it, Num.const(k)) for k in range(n)]
        if isinstance(it, Opaque) and it.fn == "call" and it.args[0] == "numpy.ndindex":
            sh = it.args[1]
            sh = sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
            c = [self.const(x) for x in sh]
            if all(isinstance(x, int) for x in c):
                return [tuple(Num.const(j) for j in ix) for ix in itertools.product(*[range(x) for x in c])]
        return super().items(it)

    # ------------------------------------------------------------ reading
    def attr(self, o, a, fr):
        o = self.deref(o)
        if isinstance(o, External) and f"{o.dotted}.{a}" in ("numpy.nan", "math.nan", "numpy.NaN"):
            return NAN
        if isinstance(o, Common) and a == "size":
            return o.num()
        if isinstance(o, Grid):
            if a == "shape":
                return tuple(Num.const(x) if isinstance(x, int) else x.length for x in o.axes)
            if a == "ndim":
                return Num.const(len(o.axes))
            if a == "dtype":
                return o.dtype or DType("float64")
            if a == "size":
                n = Q.ONE
                for x in o.axes:
                    n = n.mul(Num.const(x) if isinstance(x, int) else x.length)
                return n
            if a == "T":
                return self.transposed(o, list(range(len(o.axes)))[::-1])
            if a == "chunks" and o.chunks is not None:
                return tuple(tuple(Num.const(n) if isinstance(n, int) else n for n in c) for c in o.chunks)
            if a == "chunksize" and o.chunks is not None:
                return tuple(Num.const(max(c)) if all(isinstance(n, int) for n in c) else c[0] for c in o.chunks)
            if a == "real":
                return o
            if a in o.attrs:
                return o.attrs[a]
            if o.cls is not None:
                p = self.proj.lookup(o.cls, a)
                if p is not None and p.kind == "property":
                    return self.call_func(p, [], {}, self_=o)
                if self.proj.class_attr(o.cls, a) is not None:
                    return super().attr(Obj(o.cls), a, fr)
        return super().attr(o, a, fr)

    def construct(self, c: Class, args, kwargs):
        f = self.proj.lookup(c, "__new__")
        if f is not None and self.proj.lookup(c, "__init__") is None:
            return self.call_func(f, args, kwargs, self_=c)
        return super().construct(c, args, kwargs)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Attribute):
            o = self.deref(self.ev(t.value, fr))
            if isinstance(o, Grid):
                if t.attr == "shape":
                    o.axes = self.reshape(o, v).axes
                else:
                    o.attrs[t.attr] = v
                return
        super().assign(t, v, fr)

    def transposed(self, g, order):
        new = [g.axes[k] for k in order]
        dims = g.lengths
        where = {k: i for i, k in enumerate(i for i, a in enumerate(g.axes) if isinstance(a, int))}
        out = []
        ints = [k for k in order if isinstance(g.axes[k], int)]
        for ix in itertools.product(*[range(g.axes[k]) for k in ints]):
            at = [0] * len(dims)
            for k, i in zip(ints, ix):
                at[where[k]] = i
            p = 0
            for i, d in zip(at, dims):
                p = p * d + i
            out.append(g.cells[p])
        return Grid(new, out, g.dtype)

    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, Ten) and name in ("reshape", "sum", "mean"):
            pass
        if isinstance(o, Grid):
            if name == "astype":
                return self.cast(o, args[0] if args else kwargs.get("dtype"))
            if name in ("copy", "compute", "rechunk", "persist", "view"):
                r = o.copy()
                if name == "view" and len(args) == 1 and isinstance(args[0], Class):
                    r.cls = args[0]
                    base = getattr(o, "base", None)
                    r.base = (o, range(len(o.cells))) if base is None else base
                if name == "compute":
                    r.chunks = None
                return r
            if name in ("ravel", "flatten"):
                return self.reshape_in(o, (Num.const(-1),), args[0] if args else kwargs.get("order"))
            if name == "reshape":
                sh = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args)
                return self.reshape_in(o, sh or kwargs.get("shape"), kwargs.get("order"))
            if name == "item" and not args:
                return self.num(o)
            if name == "tolist" and len(o.axes) == 1:
                return list(o.cells)
            if name == "transpose":
                order = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
                ks = [self.const(k) for k in order] or list(range(len(o.axes)))[::-1]
                return self.transposed(o, ks)
            if name == "map_overlap":
                return map_overlap(self, args[0] if args else kwargs["func"], [o] + list(args[1:]),
                                   {k: v for k, v in kwargs.items() if k != "func"})
            if o.cls is not None:
                m = self.proj.lookup(o.cls, name)
                if m is not None and m.kind == "method":
                    return self.call_func(m, args, kwargs, self_=o)
            return self.external("numpy." + name, [o] + list(args), kwargs, fr)
        if isinstance(o, list) and name in ("intersection",) and args:
            return common(self, o, args[0])
        return super().method(o, name, args, kwargs, fr)

    def cast(self, t, d):
        if isinstance(t, Grid):
            n = self.dtype_name(d)
            if n is None:
                raise Unsupported(f"data type {d!r}")
            if n in FLOATS or n == "complex":
                return t.like(t.cells, DType(n))
            if n in ("bool", "bool_"):
                return t.like([self.cond(TAlg.compare(self, ast.NotEq(), c, Q.ZERO)) for c in t.cells], BOOL)
            out = []
            for c in t.cells:
                if not Q.is_int(c):
                    if isnan(c):
                        raise Unsupported("NaN as integer")
                    c = Q.f_cast(n, c) if c.value is None else Num.const(int(c.value))
                out.append(c)
            return t.like(out, DType(n))
        return super().cast(t, d)

    def reshape_in(self, o, shape, order):
        """Reshape reading and writing in an order of the axes."""
        order = self.deref(order)
        if order in (None, "C"):
            return self.reshape(o, shape)
        if order != "F":
            raise Unsupported("order of axes")
        shape = self.items(shape) if isinstance(shape, (tuple, list, Grid)) else [shape]
        g = self.grid(o)
        r = self.reshape(self.transposed(g, list(range(len(g.axes)))[::-1]), tuple(shape)[::-1])
        r = self.grid(r)
        return self.transposed(r, list(range(len(r.axes)))[::-1])

    def reshape(self, o, shape):
        if not isinstance(o, Grid):
            if isinstance(o, Ten):
                try:
                    return super().reshape(o, shape)
                except Unsupported:
                    return self.reshape(self.grid(o), shape)
            return super().reshape(o, shape)
        shape = self.items(shape) if isinstance(shape, (tuple, list, Grid)) else [shape]
        want = [self.num(x) for x in shape]
        whole = Q.ONE
        for a in o.axes:
            whole = whole.mul(Num.const(a) if isinstance(a, int) else a.length)
        minus = [i for i, w in enumerate(want) if w.value == -1]
        if len(minus) > 1:
            raise PyError("reshape")
        if minus:
            rest = Q.ONE
            for i, w in enumerate(want):
                if i != minus[0]:
                    rest = rest.mul(w)
            if rest.value == 0:
                raise Unsupported("reshape of nothing")
            want[minus[0]] = whole.div(rest)
        total = Q.ONE
        for w in want:
            total = total.mul(w)
        if not total.eq(whole):
            raise PyError(f"cannot reshape {o!r} to {want!r}")
        # runs of axes of known length between named ones
        left = []
        for a in o.axes:
            if isinstance(a, int):
                if left and isinstance(left[-1], int):
                    left[-1] *= a
                else:
                    left.append(a)
            else:
                if a.mask is not None:
                    left.append(a)
                else:
                    left += [Axis(n) for n in a.names]
        out = []
        for w in want:
            if w.value is not None:
                n = int(w.value)
                if n == 1:
                    out.append(1)
                    continue
                while left and left[0] == 1:
                    left.pop(0)
                if not left or not isinstance(left[0], int) or n == 0 and left[0] != 0 or n and left[0] % n:
                    raise Unsupported("reshape")
                out.append(n)
                left[0] = left[0] // n if n else 1
                continue
            have, names, mask = Q.ONE, [], None
            while left and not have.eq(w):
                a = left.pop(0)
                if a == 1:
                    continue
                if isinstance(a, int):
                    raise Unsupported("reshape")
                have = have.mul(a.length)
                names += a.names
                if a.mask is not None:
                    mask = a.mask
            if not have.eq(w) or mask is not None and len(names) > 1:
                raise Unsupported("reshape")
            out.append(Axis(*names, mask=mask))
        if any(a != 1 for a in left):
            raise Unsupported("reshape")
        r = Grid(out, o.cells, o.dtype)
        r.cls = o.cls
        if getattr(o, "base", None) is not None:
            r.base = o.base
        else:
            r.base = (o, list(range(len(o.cells))))
        return r

    # ---------------------------------------------------------- functions
    def reduce(self, short, g, axis, keep):
        ks = list(range(len(g.axes))) if axis is None else [
            self.const(x) for x in (self.items(axis) if isinstance(axis, (tuple, list)) else [axis])]
        if any(not isinstance(k, int) for k in ks):
            raise Unsupported("axis")
        if any(not -len(g.axes) <= k < len(g.axes) for k in ks):
            raise PyError("axis out of range")
        ks = sorted(k % len(g.axes) for k in ks)
        names = [n for k in ks if isinstance(g.axes[k], Axis) for n in g.axes[k].names]
        if any(isinstance(g.axes[k], Axis) and g.axes[k].mask is not None for k in ks):
            raise Unsupported("selections")
        rest = [k for k in range(len(g.axes)) if k not in ks]
        t = self.transposed(g, rest + ks)
        inner = math.prod(g.axes[k] for k in ks if isinstance(g.axes[k], int))
        n_names = Q.ONE
        for n in names:
            n_names = n_names.mul(sym(n, "int"))
        out = []
        for i in range(0, len(t.cells), inner) if inner else [None] * math.prod(g.axes[k] for k in rest if isinstance(g.axes[k], int)):
            out.append(self.total(short, t.cells[i:i + inner] if inner else [], names, n_names))
        axes = [(1 if k in ks else a) for k, a in enumerate(g.axes) if keep or k not in ks]
        return self.back(Grid(axes, out, BOOL if short in ("any", "all") else None))

    def total(self, short, cs, names, n_names):
        skip = short.startswith("nan")
        short = short[3:] if skip else short
        short = {"amin": "min", "amax": "max", "average": "mean"}.get(short, short)
        if skip:
            cs = [c for c in cs if not isnan(c)]
        elif any(isnan(c) for c in cs):
            return NAN
        if short == "median" and not names and cs:
            return cs[0] if len(cs) == 1 else Num.of(Q.atom("median", tuple(sorted(cs, key=repr))))
        if short in ("any", "all", "count_nonzero"):
            if names:
                raise Unsupported(short)
            ts = [TAlg.truth(self, c) for c in cs]
            if any(t is None for t in ts):
                raise Unsupported(short)
            return Num.const(sum(ts) if short == "count_nonzero" else int(any(ts) if short == "any" else all(ts)))
        if short in ("sum", "mean", "std", "var", "norm"):
            def add(xs):
                t = Q.ZERO
                for x in xs:
                    t = t.add(Q.f_rsum(names, x) if names else x)
                return t
            n = Num.const(len(cs)).mul(n_names)
            if short == "sum":
                return add(cs)
            if short == "norm":
                return Q.f_sqrt(add([c.mul(c) for c in cs]))
            if not cs:
                return NAN
            m = add(cs).div(n)
            if short == "mean":
                return m
            v = add([c.sub(m).pow(2) for c in cs]).div(n)
            return v if short == "var" else Q.f_sqrt(v)
        if short in ("min", "max"):
            f = Q.f_rmin if short == "min" else Q.f_rmax
            g = Q.f_min if short == "min" else Q.f_max
            if not cs:
                return NAN if skip else self.fail("extreme of nothing")
            t = None
            for c in cs:
                c = f(names, c) if names else c
                t = c if t is None else g(t, c)
            return t
        if short == "prod" and not names:
            t = Q.ONE
            for c in cs:
                t = t.mul(c)
            return t
        if short in ("argmin", "argmax") and not names:
            vs = [self.const(c) for c in cs]
            if all(v is not None for v in vs):
                return Num.const(vs.index(min(vs) if short == "argmin" else max(vs)))
        raise Unsupported(short)

    def unknown(self, what):
        raise Unsupported(what)

    def fail(self, why):
        raise PyError(why)

    REDUCE = ("sum", "mean", "average", "std", "var", "min", "max", "amin", "amax", "any", "all", "prod", "argmin", "argmax",
              "median", "nanmedian", "nansum", "nanmean", "nanmin", "nanmax", "nanstd", "nanvar", "count_nonzero")

    def external(self, d, args, kwargs, fr):
        if d in self.hooks:
            return self.hooks[d](self, args, kwargs, None)
        args = [self.deref(a) for a in args]
        short = d.split(".")[-1]
        np_ = d.startswith(("numpy.", "dask.array.")) or d in ("abs", "any", "all", "len", "sum", "min", "max")
        o = args[0] if args else None
        has = self.mine(*args, *kwargs.values()) or any(
            isinstance(a, (list, tuple)) and self.mine(*a) for a in list(args) + list(kwargs.values()))
        if d.startswith("numpy.") and short in self.REDUCE and isinstance(o, Arr) and o.comps is not None and not has and all(
                isinstance(self.deref(x), Num) for x in o.comps):
            has = True
            o = args[0] = self.grid(o)
        if d.startswith("numpy.") and short in self.REDUCE and isinstance(o, (list, tuple)) and not has and all(
                isinstance(self.deref(x), (Num, bool)) for x in o) and not any(isinstance(self.deref(x), Grid) for x in o):
            has = True
        num_ = np_ and d.startswith(("numpy.", "dask.array."))
        if num_ and short in ("atleast_1d", "atleast_2d", "atleast_3d") and len(args) == 1:
            try:
                g = self.grid(o)
            except (Unsupported, AttributeError, TypeError):
                g = None
            if g is not None:
                n = int(short[8])
                if len(g.axes) >= n or len(g.axes) == 2:
                    return g if len(g.axes) >= n else Grid((*g.axes, 1), g.cells, g.dtype)
                return Grid((1,) * (n - len(g.axes)) + tuple(g.axes), g.cells, g.dtype) if n < 3 or not g.axes else Grid(
                    (1, *g.axes, 1), g.cells, g.dtype)
        if num_ and short == "indices" and args:
            sh = [self.const(x) for x in self.items(args[0])]
            if all(isinstance(x, int) for x in sh):
                return self.coordinates(tuple(Slice(None, Num.const(n), None) for n in sh), True)
        if num_ and short == "linspace" and not has:
            kw = {**dict(zip(("start", "stop", "num"), args)), **kwargs}
            n = self.const(kw.get("num", Num.const(50)))
            if isinstance(n, int) and kw.keys() <= {"start", "stop", "num", "endpoint", "dtype"}:
                a, b = self.num(kw["start"]), self.num(kw["stop"])
                m = n - 1 if self.truth(kw.get("endpoint", True)) else n
                g = Grid((n,), [a if i == 0 else b if i == m else a.add(b.sub(a).mul(Num.const(i)).div(Num.const(m))) for i in range(n)],
                         DType("float64"))
                return self.cast(g, kw["dtype"]) if kw.get("dtype") is not None else g
        if num_ and short == "arange":
            c = [self.const(a) for a in args]
            if all(isinstance(x, int) for x in c) and len(range(*c)) <= 400:
                return Grid((len(range(*c)),), [Num.const(i) for i in range(*c)], INT)
        if num_ and short in ("zeros", "ones", "full", "empty") and (args or "shape" in kwargs):
            sh = args[0] if args else kwargs["shape"]
            axes = [self.deref(x) for x in (self.items(sh) if isinstance(sh, (tuple, list, Grid)) else [sh])]
            ints = [self.const(x) for x in axes]
            if all(isinstance(x, int) for x in ints):
                v = {"zeros": Q.ZERO, "ones": Q.ONE, "empty": sym("whatever")}.get(short)
                if short == "full":
                    v = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
                dt = kwargs.get("dtype", args[1] if len(args) > 1 and short != "full" else None)
                n = self.dtype_name(dt) if dt is not None else None
                return Grid(ints, [v] * math.prod(ints), DType({"bool_": "bool"}.get(n, n)) if n else None)
        if num_ and short in ("prod",) and isinstance(o, (tuple, list)) and "axis" not in kwargs:
            t = Q.ONE
            for x in o:
                t = t.mul(self.num(x))
            return t
        if num_ and short in ("unravel_index", "ravel_multi_index") and len(args) + len(kwargs) >= 2:
            sh = args[1] if len(args) > 1 else kwargs.get("shape", kwargs.get("dims"))
            dims = [self.const(x) for x in self.items(sh)] if self.items(sh) is not None else [None]
            if all(isinstance(x, int) for x in dims):
                return unravel(self, o, dims) if short == "unravel_index" else ravel(self, o, dims)
        if num_ and short in ("array", "asarray", "stack", "vstack", "hstack", "concatenate", "dstack", "squeeze", "nonzero") and not has:
            if isinstance(o, (list, tuple)) and short in ("array", "asarray") and nested(self, o):
                g = self.grid(o)
                dt = kwargs.get("dtype", args[1] if len(args) > 1 else None)
                return self.cast(g, dt) if dt is not None else g
            if isinstance(o, (list, tuple)) and short in ("array", "asarray"):
                try:
                    g = self.grid(o)
                except (Unsupported, PyError):
                    g = None
                if g is not None and all(c.value is not None for c in g.cells):
                    dt = kwargs.get("dtype", args[1] if len(args) > 1 else None)
                    return self.cast(g, dt) if dt is not None else Grid(g.axes, g.cells, g.dtype or (
                        INT if all(Q.is_int(c) for c in g.cells) else None))
            elif isinstance(o, (list, tuple)) and o and all(isinstance(self.deref(x), (list, tuple)) for x in o):
                try:
                    gs = [self.grid(x) for x in o]
                except (Unsupported, PyError):
                    gs = []
                if gs and all(c.value is not None for g in gs for c in g.cells):
                    o = args[0] = [Grid(g.axes, g.cells, INT if all(Q.is_int(c) for c in g.cells) else None) for g in gs]
                    has = True
        if d in ("numpy.linalg.det", "scipy.linalg.det") and isinstance(o, (list, tuple)):
            has, o = True, self.grid(o)
        if d == "set" and args and isinstance(o, Grid):
            return list(o.cells)
        if d in ("tuple", "list") and isinstance(o, (tuple, list)):
            return tuple(o) if d == "tuple" else list(o)
        if d in ("tuple", "list", "set") and isinstance(o, Num) and o.value is not None:
            raise PyError("not iterable")
        if d == "len" and isinstance(o, Common):
            return o.num()
        if num_ and short == "subtract" and not has and len(args) == 2:
            args = [self.grid(a) for a in args]
            return self.binop(ast.Sub(), *args)
        if num_ and short == "equal" and len(args) == 2 and not has and all(isinstance(a, (tuple, list)) for a in args):
            return self.compare(ast.Eq(), self.grid(args[0]), self.grid(args[1]))
        if not has:
            return super().external(d, args, kwargs, fr)
        if d == "isinstance":
            return self.isinst(args[0], args[1])
        if d in ("list", "tuple") and isinstance(o, Grid):
            xs = self.items(o)
            return xs if d == "list" else tuple(xs)
        if d in ("enumerate", "zip", "range", "reversed", "sorted", "getattr", "hasattr", "print", "type") or d == "dict" and not args:
            return super().external(d, args, kwargs, fr)
        if d == "len" and isinstance(o, (list, tuple)):
            return Num.const(len(o))
        if d == "len":
            return self.attr(o, "shape", fr)[0]
        if d == "sum" and self.items(o) is not None:
            t = args[1] if len(args) > 1 else kwargs.get("start", Q.ZERO)
            for x in self.items(o):
                t = self.binop(ast.Add(), t, x)
            return t
        if d in ("int", "float", "bool"):
            return self.num(o) if d != "bool" else self.truth(o)
        if kwargs.get("out") is not None:
            raise Unsupported("out=")
        if isinstance(o, (list, tuple)) and short not in ("stack", "concatenate", "hstack", "vstack", "dstack", "array", "asarray",
                                                          "column_stack"):
            o = args[0] = self.grid(o)
        if np_ and short in self.REDUCE or d == "numpy.linalg.norm":
            if kwargs.keys() - {"axis", "keepdims", "dtype"} or short == "norm" and len(args) > 1:
                raise Unsupported(f"{short} with {sorted(kwargs)}")
            ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
            keep = self.truth(kwargs.get("keepdims", False))
            return self.reduce(short, self.grid(o), ax, keep)
        if num_ and short in ("nonzero", "flatnonzero", "argwhere") or num_ and short == "where" and len(args) == 1:
            g = self.grid(o)
            if short == "flatnonzero":
                return self.nonzero(self.reshape(g, (Num.const(-1),)))[0]
            if short == "argwhere":
                return self.transposed(self.stacked(list(self.nonzero(g))), [1, 0])
            return self.nonzero(g)
        if num_ and short == "where" and len(args) == 3:
            def pick(c, x, y):
                t = TAlg.truth(self, c)
                return (x if t else y) if t is not None else TAlg.gate(self, c, x, y)
            return self.each(pick, *args)
        if num_ and short in ("equal", "not_equal", "less", "greater", "less_equal", "greater_equal") and len(args) == 2:
            return self.compare({"equal": ast.Eq, "not_equal": ast.NotEq, "less": ast.Lt, "greater": ast.Gt, "less_equal": ast.LtE,
                                 "greater_equal": ast.GtE}[short](), *args)
        if num_ and short == "diff" and not kwargs.keys() - {"axis"} and len(args) == 1:
            g = self.grid(o)
            k = self.const(kwargs.get("axis", Num.const(-1))) % len(g.axes)
            cut = lambda a, b: self.index(g, (Slice(None, None, None),) * k + (Slice(a, b, None),))  # noqa: E731
            return self.binop(ast.Sub(), cut(Q.ONE, None), cut(None, Num.const(-1)))
        if num_ and short in ("logical_and", "logical_or") and len(args) == 2:
            return self.binop(ast.BitAnd() if short == "logical_and" else ast.BitOr(), *args)
        if num_ and short in ("logical_not", "invert"):
            return o.like([Q.ONE.sub(c) for c in o.cells], BOOL)
        if num_ and short in ("add", "subtract", "multiply", "divide", "true_divide", "power") and len(args) == 2:
            return self.binop({"add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
                               "power": ast.Pow}[short](), *args)
        if num_ and short in ("dot", "matmul", "inner", "vdot") and len(args) == 2:
            return self.product_of(*args)
        if num_ and short == "einsum":
            return einsum(self, args)
        if num_ and short == "isnan":
            return o.like([Num.const(int(isnan(c))) for c in o.cells], BOOL)
        if num_ and short == "squeeze":
            ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
            ks = None if ax is None else [self.const(x) % len(o.axes) for x in (self.items(ax) if isinstance(ax, (tuple, list)) else [ax])]
            r = Grid([a for i, a in enumerate(o.axes) if a != 1 or (ks is not None and i not in ks)], o.cells, o.dtype)
            return self.back(r)
        if num_ and short == "expand_dims":
            k = self.const(args[1] if len(args) > 1 else kwargs["axis"])
            axes = list(o.axes)
            axes.insert(k if k >= 0 else len(axes) + 1 + k, 1)
            return Grid(axes, o.cells, o.dtype)
        if num_ and short in ("reshape", "ravel"):
            order = kwargs.get("order", args[-1] if len(args) == (2 if short == "ravel" else 3) else None)
            return self.reshape_in(o, (Num.const(-1),) if short == "ravel" else args[1] if len(args) > 1 else kwargs["shape"], order)
        if num_ and short in ("transpose", "moveaxis", "swapaxes", "rollaxis", "flip", "fliplr", "flipud", "rot90"):
            if short == "transpose":
                ks = [self.const(k) for k in self.items(args[1])] if len(args) > 1 else list(range(len(o.axes)))[::-1]
                return self.transposed(o, ks)
            n = len(o.axes)
            if short == "swapaxes":
                i, j = self.const(args[1]) % n, self.const(args[2]) % n
                ks = list(range(n))
                ks[i], ks[j] = ks[j], ks[i]
                return self.transposed(o, ks)
            if short == "moveaxis" and all(isinstance(self.const(x), int) for x in args[1:3]):
                i, j = self.const(args[1]) % n, self.const(args[2]) % n
                ks = [k for k in range(n) if k != i]
                ks.insert(j, i)
                return self.transposed(o, ks)
            ks = {"flipud": [0], "fliplr": [1], "rot90": [0, 1] if self.const(args[1] if len(args) > 1 else kwargs.get("k")) in (
                2, -2) else None}.get(short)
            if short == "flip":
                ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
                ks = range(n) if ax is None else [self.const(x) for x in (self.items(ax) if isinstance(ax, (tuple, list)) else [ax])]
            if ks is not None and all(isinstance(k, int) and isinstance(o.axes[k], int) for k in ks):
                ks = {k % n for k in ks}
                back = Slice(None, None, Num.const(-1))
                return self.index(o, tuple(back if k in ks else Slice(None, None, None) for k in range(n)))
            raise Unsupported(short)
        if d == "numpy.outer" and len(args) == 2:
            a, b = (self.reshape(self.grid(x), (Num.const(-1),)) for x in args)
            return self.binop(ast.Mult(), self.external("numpy.expand_dims", [a, Q.ONE], Dict(), fr), b)
        if d.startswith("numpy.") and d.endswith(".outer") and len(args) == 2:
            a, b = (self.grid(x) for x in args)
            a = Grid(a.axes + (1,) * len(b.axes), a.cells, a.dtype)
            return self.external(d[:-6], [a, b], kwargs, fr)
        if num_ and short in ("asarray", "array", "ascontiguousarray", "copy", "from_array", "asanyarray"):
            dt = kwargs.get("dtype", args[1] if len(args) > 1 and short not in ("copy", "from_array") else None)
            g = self.grid(o).copy()
            g.cls = None
            return g if dt is None else self.cast(g, dt)
        if num_ and short in ("stack", "vstack", "hstack", "concatenate", "dstack"):
            gs = [self.grid(x) for x in self.items(o)]
            ax = self.const(kwargs.get("axis", args[1] if len(args) > 1 else Q.ZERO))
            if short == "stack":
                return self.stacked(gs, ax % (len(gs[0].axes) + 1))
            if short == "vstack":
                gs = [Grid((1,) + g.axes, g.cells, g.dtype) if len(g.axes) == 1 else g for g in gs]
            if short in ("concatenate", "vstack", "hstack") and len(gs[0].axes) > 1 and isinstance(ax, int):
                k = {"vstack": 0, "hstack": 1}.get(short, ax % len(gs[0].axes))
                return self.joined(gs, k)
            if short == "concatenate" and len(gs[0].axes) == 1 or short == "hstack" and len(gs[0].axes) == 1:
                return Grid((sum(g.axes[0] for g in gs),), [c for g in gs for c in g.cells], gs[0].dtype)
            if short == "dstack" and len(gs[0].axes) == 2:
                return self.stacked(gs, 2)
            if short == "dstack" and len(gs[0].axes) == 1:
                return self.stacked([Grid((1, *g.axes), g.cells, g.dtype) for g in gs], 2)
            if short == "dstack" and len(gs[0].axes) == 3:
                return self.joined(gs, 2)
            raise Unsupported(short)
        if num_ and short == "column_stack":
            gs = [self.grid(x) for x in self.items(o)]
            return self.joined([Grid(g.axes + (1,), g.cells, g.dtype) if len(g.axes) == 1 else g for g in gs], 1)
        if d in ("numpy.linalg.det", "scipy.linalg.det") and len(o.axes) == 2 and o.axes[0] == o.axes[1] and o.axes[0] in (1, 2, 3):
            return determinant(o)
        if num_ and short in ("zeros_like", "ones_like", "full_like", "empty_like"):
            g = self.grid(o)
            v = {"zeros_like": Q.ZERO, "ones_like": Q.ONE, "empty_like": sym("whatever")}.get(short)
            if short == "full_like":
                v = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
            n = self.dtype_name(kwargs["dtype"]) if kwargs.get("dtype") is not None else None
            return Grid(g.axes, [v] * len(g.cells), DType(n) if n else g.dtype)
        if num_ and short == "intersect1d":
            return common(self, args[0], args[1])
        if num_ and short in ("union1d", "setdiff1d", "setxor1d"):
            x, y = sorted(self.grid(args[0]).cells, key=repr), sorted(self.grid(args[1]).cells, key=repr)
            return Common(short, (Num.of(Q.atom(short, (Num.const(len(x)), *x, *y), "int")),))
        if num_ and short in ("isin", "in1d"):
            b = self.grid(args[1])
            return Grid(self.grid(o).axes, [Num.of(Q.atom("among", (c, *sorted(b.cells, key=repr)), "bool")) for c in self.grid(o).cells])
        if num_ and short == "delete" and len(args) == 2 and len(o.axes) == 1:
            gone = {v % o.axes[0] for v in self.consts(self.grid(args[1]))}
            left = [c for i, c in enumerate(o.cells) if i not in gone]
            return Grid((len(left),), left, o.dtype)
        if num_ and short == "searchsorted" and len(args) == 2 and not kwargs and len(o.axes) == 1:
            vs = self.consts(o)
            return self.each(lambda x: Num.const(sum(v < x.value for v in vs)) if x.value is not None else self.unknown(short), args[1])
        if num_ and short in ("unique", "sort"):
            g = self.grid(o)
            try:
                vs = self.consts(g)
            except Unsupported:
                raise Unsupported(short) from None
            if len(g.axes) == 1:
                vs = sorted(set(vs)) if short == "unique" else sorted(vs)
                return Grid((len(vs),), [Num.const(v) for v in vs], g.dtype)
        if num_ and short in ("square",):
            return self.binop(ast.Mult(), o, o)
        if num_ and short == "meshgrid" and all(isinstance(a, Grid) and len(a.axes) == 1 for a in args) and not self.truth(
                kwargs.get("sparse", False)):
            order = list(range(len(args)))
            if kwargs.get("indexing", "xy") == "xy" and len(args) > 1:
                order[:2] = [1, 0]
            sh = [args[k].axes[0] for k in order]
            return [Grid(sh, [a.cells[ix[order.index(k)]] for ix in itertools.product(*map(range, sh))], a.dtype) for k, a in enumerate(args)]
        if num_ and short == "putmask" and len(args) == 3:
            return self.store(o, args[1], args[2])
        if short in ("sqrt", "abs", "absolute", "floor", "ceil", "exp", "log", "sin", "cos", "tan", "arctan", "arcsin", "arccos",
                     "sign") and (num_ or d == "abs"):
            f = Q.FUNCS.get({"absolute": "abs"}.get(short, short))
            if f is not None:
                return self.zipmap(f, o)
        if num_ and short == "negative":
            return o.like([c.neg() for c in o.cells])
        if num_ and short in ("rad2deg", "degrees", "deg2rad", "radians"):
            k = Num.const(180).div(Q.PI) if short in ("rad2deg", "degrees") else Q.PI.div(Num.const(180))
            return o.like([c.mul(k) for c in o.cells], None)
        if num_ and short in ("hypot", "arctan2") and len(args) == 2:
            return self.zipmap(Q.FUNCS["arctan2"] if short == "arctan2" else lambda x, y: Q.f_sqrt(x.mul(x).add(y.mul(y))), *args)
        if num_ and short in ("minimum", "maximum", "fmin", "fmax") and len(args) == 2:
            return self.zipmap(Q.f_min if "min" in short else Q.f_max, *args)
        if num_ and short == "clip" and len(args) == 3:
            r = o
            if args[1] is not None:
                r = self.zipmap(Q.f_max, r, args[1])
            return self.zipmap(Q.f_min, r, args[2]) if args[2] is not None else r
        if num_ and short == "nan_to_num":
            return o.like([Q.ZERO if isnan(c) else c for c in o.cells])
        if num_ and short in ("allclose", "array_equal", "isclose", "array_equiv"):
            x, y = self.consts(o), self.grid(args[1])
            ys = self.consts(y)
            if short == "array_equal" and y.axes != o.axes:
                return False
            if len(ys) == 1:
                ys = ys * len(x)
            if len(x) != len(ys):
                raise Unsupported("comparison of arrays of different shape")
            close = [a == b if "equ" in short else abs(a - b) <= 1e-8 + 1e-5 * abs(b) for a, b in zip(x, ys)]
            return o.like([Num.const(int(c)) for c in close], BOOL) if short == "isclose" else all(close)
        if num_ and short == "argsort" and len(o.axes) == 1:
            x = self.consts(o)
            return Grid(o.axes, [Num.const(i) for i in sorted(range(len(x)), key=x.__getitem__)], INT)
        if num_ and short == "diff" and len(o.axes) == 1:
            return Grid((o.axes[0] - 1,), [y.sub(x) for x, y in zip(o.cells, o.cells[1:])])
        if num_ and short in FLOATS:
            return o
        raise Unsupported(f"{d} of an array")


def nested(A, o):
    """Whether there is an array in a list of lists."""
    return any(isinstance(A.deref(x), Grid) or isinstance(x, (list, tuple)) and nested(A, x) for x in o)


def determinant(o):
    n, c = o.axes[0], o.cells
    if n == 1:
        return c[0]
    if n == 2:
        return c[0].mul(c[3]).sub(c[1].mul(c[2]))
    t = Q.ZERO
    for j in range(3):
        a, b = (j + 1) % 3, (j + 2) % 3
        t = t.add(c[j].mul(c[3 + a].mul(c[6 + b]).sub(c[3 + b].mul(c[6 + a]))))
    return t


def unravel(A, i, dims):
    g = A.grid(i)
    vals = A.consts(g)
    n = math.prod(dims)
    out = []
    for k in range(len(dims)):
        s = math.prod(dims[k + 1:])
        if any(not 0 <= v < n for v in vals):
            raise PyError(f"index {vals} out of bounds for {dims}")
        r = Grid(g.axes, [Num.const(v // s % dims[k]) for v in vals], INT)
        out.append(A.back(r))
    return tuple(out)


def ravel(A, ix, dims):
    ps = A.items(ix)
    t = None
    for p, n in zip(ps, dims):
        t = p if t is None else A.binop(ast.Add(), A.binop(ast.Mult(), t, Num.const(n)), p)
    return t


def einsum(A, args):
    spec = A.const(args[0])
    gs = [A.grid(x) for x in args[1:]]
    if not isinstance(spec, str) or "->" not in spec or "." in spec:
        raise Unsupported("einsum")
    ins, out = spec.replace(" ", "").split("->")
    ax = {}
    for g, letters in zip(gs, ins.split(",")):
        if len(letters) != len(g.axes):
            raise PyError("einsum")
        for c, a in zip(letters, g.axes):
            if c in ax and not A.same_axis(ax[c], a):
                raise PyError("einsum shapes")
            ax[c] = a
    named = [n for c, a in ax.items() if isinstance(a, Axis) and c not in out for n in a.names]
    cells = []
    inner = [c for c in ax if c not in out and isinstance(ax[c], int)]
    for ix in itertools.product(*[range(ax[c]) for c in out if isinstance(ax[c], int)]):
        at = dict(zip([c for c in out if isinstance(ax[c], int)], ix))
        t = Q.ZERO
        for jx in itertools.product(*[range(ax[c]) for c in inner]):
            at.update(zip(inner, jx))
            v = Q.ONE
            for g, letters in zip(gs, ins.split(",")):
                p = 0
                for c in letters:
                    if isinstance(ax[c], int):
                        p = p * ax[c] + at[c]
                v = v.mul(g.cells[p])
            t = t.add(Q.f_rsum(named, v) if named else v)
        cells.append(t)
    return A.back(Grid([ax[c] for c in out], cells))


def common(A, a, b):
    """What two sequences have in common, whatever their order."""
    x = sorted(A.grid(a).cells, key=repr)
    y = sorted(A.grid(b).cells, key=repr)
    x, y = sorted((x, y), key=repr)
    return Common("common", (Num.of(Q.atom("common", (Num.const(len(x)), *x, *y), "int")),))


Common.num = lambda self: self.args[0]
Q.EVAL["common"] = lambda n, *xs: len(set(xs[:int(n)]) & set(xs[int(n):]))
Q.EVAL["union1d"] = lambda n, *xs: len(set(xs))
Q.EVAL["setdiff1d"] = lambda n, *xs: len(set(xs[:int(n)]) - set(xs[int(n):]))
Q.EVAL["setxor1d"] = lambda n, *xs: len(set(xs[:int(n)]) ^ set(xs[int(n):]))
Q.EVAL["median"] = lambda *xs: sorted(xs)[len(xs) // 2] if len(xs) % 2 else sum(sorted(xs)[len(xs) // 2 - 1:len(xs) // 2 + 1]) / 2
Q.EVAL["among"] = lambda x, *ys: int(x in ys)


# ------------------------------------------------------------------ filters
def reflected(i, n, mode):
    """Where the value at place i outside an axis of length n is taken."""
    if 0 <= i < n:
        return i
    if mode in ("constant", "grid-constant"):
        return None
    if mode == "nearest":
        return min(max(i, 0), n - 1)
    if mode in ("wrap", "grid-wrap"):
        return i % n
    if mode in ("reflect", "grid-mirror"):
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if mode == "mirror":
        if n == 1:
            return 0
        i %= 2 * n - 2
        return i if i < n else 2 * n - 2 - i
    raise Unsupported(f"mode {mode}")


def generic_filter(A, args, kwargs, s):
    kw = {**dict(zip(("input", "function", "size", "footprint", "output", "mode", "cval", "origin", "extra_arguments",
                      "extra_keywords"), args)), **kwargs}
    g = A.grid(kw["input"])
    origin = kw.get("origin", Q.ZERO)
    if A.const(origin) != 0 or kw.get("extra_arguments") not in (None, ()) or kw.get("extra_keywords"):
        raise Unsupported("generic_filter")
    if kw.get("footprint") is not None:
        fp = A.grid(kw["footprint"])
        on = [bool(v) for v in A.consts(fp)]
        shape = fp.axes
    elif kw.get("size") is not None:
        n = A.const(kw["size"])
        shape = (n,) * len(g.axes) if isinstance(n, int) else tuple(A.const(x) for x in A.items(kw["size"]))
        on = [True] * math.prod(shape)
    else:
        raise PyError("no footprint or size provided")
    if len(shape) != len(g.axes):
        raise PyError("filter weights array has incorrect shape")
    mode = A.const(kw.get("mode", "reflect"))
    cval = A.num(kw.get("cval", Q.ZERO))
    out = []
    for at in itertools.product(*[range(n) for n in g.axes]):
        v = []
        for off, use in zip(itertools.product(*[range(n) for n in shape]), on):
            if not use:
                continue
            p = [reflected(a + o - n // 2, m, mode) for a, o, n, m in zip(at, off, shape, g.axes)]
            if None in p:
                v.append(cval)
            else:
                k = 0
                for i, m in zip(p, g.axes):
                    k = k * m + i
                v.append(g.cells[k])
        out.append(A.num(A.call(kw["function"], [Grid((len(v),), v, None)], {}, None)))
    target = kw.get("output")
    if isinstance(target, Grid):
        A.store(target, ELLIPSIS, Grid(g.axes, out))
        return target
    if target is not None:
        return A.cast(Grid(g.axes, out), target)
    return Grid(g.axes, out, g.dtype)


def overlap_hook(A, args, kwargs, s):
    kw = dict(kwargs)
    f = args[0] if args else kw.pop("func")
    return map_overlap(A, f, list(args[1:]), kw)


def map_overlap(A, f, arrays, kw):
    """The function on each block with what it overlaps, the results
    put together."""
    kw = dict(kw)
    depth, boundary = kw.pop("depth", None), kw.pop("boundary", None)
    drop, new = kw.pop("drop_axis", None), kw.pop("new_axis", None)
    trim = A.truth(kw.pop("trim", True))
    for k in ("dtype", "align_arrays", "chunks", "allow_rechunk", "meta"):
        if k != "dtype" or k not in getattr(A, "passed", ()):
            kw.pop(k, None)
    if len(arrays) != 1 or not isinstance(arrays[0], Grid) or arrays[0].chunks is None:
        raise Unsupported("map_overlap")
    g = arrays[0]
    nav = [i for i, a in enumerate(g.axes) if isinstance(a, int)]
    if nav != list(range(len(nav))):
        raise Unsupported("map_overlap")
    d = {}
    for k in nav:
        x = depth.get(k, Q.ZERO) if isinstance(depth, Dict) else depth[k] if isinstance(depth, (tuple, list)) else depth
        c = A.const(x)
        if not isinstance(c, int):
            raise Unsupported("overlap")
        d[k] = c
    if boundary not in (None, "none"):
        raise Unsupported(f"boundary {boundary!r}")
    bounds = []
    for k in nav:
        ends = list(itertools.accumulate(g.chunks[k]))
        bounds.append(list(zip([0] + ends[:-1], ends)))
    result = None
    for block in itertools.product(*bounds):
        lo = [max(0, b[0] - d[k]) for k, b in zip(nav, block)]
        hi = [min(g.axes[k], b[1] + d[k]) for k, b in zip(nav, block)]
        part = A.index(g, tuple(Slice(Num.const(x), Num.const(y), None) for x, y in zip(lo, hi)))
        part = Grid(part.axes, part.cells, part.dtype)
        r = A.grid(A.call(f, [part], kw, None))
        if list(r.axes[:len(nav)]) != [y - x for x, y in zip(lo, hi)]:
            raise PyError("block of another shape")
        if trim:
            r = A.grid(A.index(r, tuple(Slice(Num.const(b[0] - x), Num.const(b[1] - x), None) for b, x in zip(block, lo))))
        rest = r.axes[len(nav):]
        if result is None:
            ints = [g.axes[k] for k in nav]
            result = Grid(tuple(ints) + tuple(rest), [sym("whatever")] * (math.prod(ints) * math.prod(
                a for a in rest if isinstance(a, int))), r.dtype)
        A.store(result, tuple(Slice(Num.const(b[0]), Num.const(b[1]), None) for b in block), r)
    result.chunks = tuple(g.chunks[k] for k in nav) + tuple((a,) if isinstance(a, int) else (a.length,) for a in result.axes[len(nav):])
    return result
