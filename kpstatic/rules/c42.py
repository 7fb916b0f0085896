"""C42: dictionary indexing returns the best matches of the whole dictionary,
in order, whatever the number of simulations compared at a time.

Scores are described by their rank: a column of a table is "the r-th best of
the simulations in S", an index column "where that simulation is, counted from
b".  Selecting the best of a chunk, putting chunks side by side, sorting,
picking along the order, counting from another start and scattering over a
mask are operations on such tables.
"""

from __future__ import annotations

import ast

from .. import poly as Q
from ..alg import Arr, Class, Dict, External, Fn, Obj, Opaque, PyError, Slice, Unsupported, View
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import Axis, DType, TAlg, Ten, array
from .c43 import described, length

SY, SX = Q.axis("Sy", 5), Q.axis("Sx", 8)
NY, NX = Q.axis("Ry", 3), Q.axis("Rx", 4)
SIG, NAV = (SY, SX), (NY, NX)
N = 7                                   # simulations in the dictionary
INF = sym("infinity")


class Data:
    """Patterns: experimental (rows along an axis) or some of the
    dictionary's."""

    def __init__(self, what, rows=None, lo=0, hi=0, lazy=False, ready=False, flat=False):
        self.what, self.rows, self.lo, self.hi, self.lazy, self.ready, self.flat = what, rows, lo, hi, lazy, ready, flat

    def but(self, **kw):
        return Data(**{**self.__dict__, **kw})

    def structure(self):
        return ("data", self.what, self.lo, self.hi)


class Sim:
    """Similarity of each experimental pattern with each simulation lo:hi."""

    def __init__(self, rows, lo, hi, factor=1):
        self.rows, self.lo, self.hi, self.factor = rows, lo, hi, factor


class Cell:
    """One column of a table, in any row."""

    def __init__(self, kind, of=frozenset(), rank=0, high=True, factor=1, base=0, value=None, mask=None, other=None):
        self.kind, self.of, self.rank, self.high = kind, of, rank, high
        self.factor, self.base, self.value, self.mask, self.other = factor, base, value, mask, other

    def but(self, **kw):
        return Cell(**{**self.__dict__, **kw})

    def __repr__(self):
        which = "best" if self.rank == 0 else f"no. {self.rank + 1} best"
        way = "" if self.high else ", lowest first,"
        of = "all simulations" if self.of == frozenset(range(N)) else f"simulations {sorted(self.of)} of {N}"
        r = {"score": f"{self.factor if self.factor != 1 else ''}the score of the {which}{way} of {of}",
             "index": f"the index of the {which}{way} of {of}"
                      + (f" counted from {-self.base:+d}" if self.base else ""),
             "rotation": f"the rotation of the {which}{way} of {of}",
             "fill": f"the value {self.value!r} set at the start", "wrong": str(self.value)}[self.kind]
        return r if self.mask is None else f"{r} where {self.mask!r}"


def wrong(why):
    return Cell("wrong", value=why)


class Table:
    """Rows along an axis, known columns (or just one without an axis)."""

    def __init__(self, rows, cells, lazy=False, flat=False, declared=None):
        self.rows, self.cells, self.lazy, self.flat = rows, list(cells), lazy, flat
        self.declared = declared    # columns dask counts before it has computed them

    def but(self, **kw):
        return Table(**{**self.__dict__, **kw})

    def structure(self):
        return ("table", self.rows.structure(), repr(self.cells))


class Order:
    """Positions sorting the rows of a table."""

    def __init__(self, table, reverse=False, lo=0, hi=None):
        self.table, self.reverse, self.lo, self.hi = table, reverse, lo, hi


class Engine(TAlg):
    MAX_STEPS = 200000

    def __init__(self, proj):
        ident = lambda A, a, k, s: a[0] if a else k.get("iterable")   # noqa: E731
        unit = lambda A, a, k, s: Opaque("unit")                       # noqa: E731
        super().__init__(proj, {
            "prepare_experimental": prepare_experimental, "prepare_dictionary": prepare_dictionary, "match": match,
            "raise_error_if_invalid": lambda A, a, k, s: None, "_get_navigation_axes_unit": unit,
            "tqdm.tqdm": ident, "tqdm.auto.tqdm": ident, "tqdm.std.tqdm": ident,
            "orix.crystal_map.CrystalMap": crystal_map, "orix.crystal_map.create_coordinate_arrays": coordinates,
            "orix.quaternion.Rotation.identity": identity, "time.time": clock,
            "time.sleep": lambda A, a, k, s: None, "time.perf_counter": clock,
            "numpy.cumsum": cumsum, "print": lambda A, a, k, s: None,
            "_dictionary_indexing_info_message": lambda A, a, k, s: Opaque("message"),
        })

    # ------------------------------------------------------------ constants
    def attr(self, o, a, fr):
        if isinstance(o, External) and f"{o.dotted}.{a}" in ("numpy.inf", "math.inf", "numpy.Inf"):
            return INF
        if isinstance(o, Data):
            if a == "shape":
                if o.what == "experimental":
                    return (o.rows.length, length(SY).mul(length(SX))) if o.flat else tuple(
                        length(x) for x in o.rows.names) + (length(SY), length(SX))
                n = Num.const(o.hi - o.lo)
                return (n, length(SY).mul(length(SX))) if o.flat else (n, length(SY), length(SX))
            if a == "chunksize" and o.lazy:
                return (Num.const(3), length(SY), length(SX))
            if a == "dtype":
                return DType("float32")
            if a == "ndim":
                return Num.const(2 if o.flat else 3 if o.what != "experimental" else 4)
        if isinstance(o, Table):
            if a == "shape":
                return (o.rows.length,) if o.flat else (o.rows.length, Num.const(len(o.cells)))
            if a == "dtype":
                return DType("float32") if o.cells and o.cells[0].kind in ("score", "fill") else DType("int32")
            if a in ("data", "T") and o.cells and any(c.kind == "rotation" for c in o.cells):
                return o
            if a == "ndim":
                return Num.const(1 if o.flat else 2)
        if isinstance(o, Sim):
            if a == "shape":
                return (o.rows.length, Num.const(o.hi - o.lo))
            if a == "ndim":
                return Num.const(2)
        if isinstance(o, Order) and a == "shape":
            return (o.table.rows.length, Num.const(len(chosen(o))))
        return super().attr(o, a, fr)

    def isinst(self, v, c):
        if isinstance(v, (Data, Table, Sim)):
            cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
            names = {x.dotted.split(".")[-1] if isinstance(x, External) else getattr(x, "name", "?") for x in cs}
            lazy = True if isinstance(v, Sim) else v.lazy
            return bool(names & ({"Array"} if lazy else {"ndarray"}))
        return super().isinst(v, c)

    def copyv(self, v):
        return v.but() if isinstance(v, (Data, Table)) else super().copyv(v)

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None) != (b is None) and any(
                isinstance(x, (Data, Table, Sim, Order)) for x in (a, b)):
            return isinstance(op, ast.IsNot)
        return super().compare(op, a, b)

    # ------------------------------------------------------------- indexing
    def index(self, o, i):
        o = self.deref(o)
        if isinstance(o, Rotations):
            i = self.deref(i)
            return turned(i) if isinstance(i, Table) else Opaque("rotations")
        if isinstance(o, Data) and o.what == "dictionary":
            parts = list(i) if isinstance(i, tuple) else [i]
            lo, hi, step = self.span(parts[0], o.hi - o.lo)
            if step != 1 or any(not (isinstance(p, Slice) and p.full()) for p in parts[1:]):
                raise Unsupported("part of patterns")
            return o.but(lo=o.lo + lo, hi=o.lo + max(hi, lo))
        if isinstance(o, (Order, Table)) and isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], Slice) and i[0].full():
            n = len(chosen(o)) if isinstance(o, Order) else len(o.cells)
            if isinstance(i[1], Slice):
                lo, hi, step = self.span(i[1], n)
                if isinstance(o, Table):
                    return o.but(cells=o.cells[lo:hi:step] if step > 0 else o.cells[::-1] if (lo, hi) == (0, n) else None)
                if step == -1 and (lo, hi) == (0, n) and o.lo == 0 and o.hi is None:
                    return Order(o.table, not o.reverse)
                if step == 1:
                    return Order(o.table, o.reverse, o.lo + lo, o.lo + hi)
            else:
                k = self.const(i[1])
                if isinstance(k, int) and isinstance(o, Table) and -n <= k < n:
                    return o.but(cells=[o.cells[k]], flat=True)
            raise Unsupported("columns")
        if isinstance(o, Table) and isinstance(i, Ten):   # rows a mask selects
            m = rows_of(o.rows, i)
            return o.but(rows=Axis(*o.rows.names, mask=m), cells=[
                (c.but(mask=None, other=None) if c.mask is not None and c.mask.eq(m) else c) for c in o.cells])
        if isinstance(o, (Data, Table, Sim, Order)):
            raise Unsupported("index")
        return super().index(o, i)

    def span(self, s, n):
        if not isinstance(s, Slice):
            raise Unsupported("index")
        c = [None if x is None else self.const(x) for x in (s.lo, s.hi, s.step)]
        if any(x is not None and not isinstance(x, int) for x in c) or any(
                x is None and y is not None for x, y in zip(c, (s.lo, s.hi, s.step))):
            raise Unsupported("slice")
        step = c[2] or 1
        if step < 0:
            if c[0] is None and c[1] is None and step == -1:
                return 0, n, -1
            raise Unsupported("slice")
        lo, hi, _ = slice(*c).indices(n)
        return lo, max(lo, hi), step

    def store(self, o, i, v):
        if not isinstance(o, Table):
            return super().store(o, i, v)
        v, i = self.deref(v), self.deref(i)
        parts = list(i) if isinstance(i, tuple) else [i]
        sel, rest = parts[0], parts[1:]
        if not isinstance(v, Table) or not isinstance(sel, Ten) or any(not (isinstance(p, Slice) and p.full()) for p in rest):
            if isinstance(v, Table) and isinstance(sel, Slice) and sel.full() and not rest:
                o.cells, o.rows = (v.cells * len(o.cells) if v.flat else v.cells), v.rows
                return None
            raise Unsupported("store")
        m = rows_of(o.rows, sel)
        if not (v.rows.names == o.rows.names and v.rows.mask is not None and v.rows.mask.eq(m)):
            if v.rows.mask is None or Q.differ(v.rows.mask, m) is not None:
                o.cells = [wrong(f"results of the patterns where {v.rows.mask!r} in the places where {m!r}")] * len(o.cells)
                return None
            raise Unsupported("store by another mask")
        if v.flat != o.flat or len(v.cells) != len(o.cells):
            raise PyError(f"{len(v.cells)} columns stored in {len(o.cells)}")
        o.cells = [new.but(mask=m, other=old) for new, old in zip(v.cells, o.cells)]
        return None

    def augassign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = fr.env.get(s.target.id)
            if isinstance(cur, Table):
                cur.cells = self.binop(s.op, cur, self.ev(s.value, fr)).cells
                return
        super().augassign(s, fr)

    # ----------------------------------------------------------- arithmetic
    def e_UnaryOp(self, e, fr):
        v = self.deref(self.ev(e.operand, fr))
        if isinstance(v, (Table, Sim)):
            if isinstance(e.op, ast.USub):
                return self.binop(ast.Mult(), Num.const(-1), v)
            raise Unsupported("operator on scores")
        return super().e_UnaryOp(e, fr)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(b, (Table, Sim)) and not isinstance(a, (Table, Sim)) and isinstance(op, (ast.Mult, ast.Add)):
            a, b = b, a
        if isinstance(a, Sim):
            k = self.const(b)
            if isinstance(op, ast.Mult) and k in (1, -1):
                return Sim(a.rows, a.lo, a.hi, a.factor * k)
            raise Unsupported("scores in a formula")
        if isinstance(a, Table):
            if isinstance(b, (Table, Data, Sim, Order)):
                raise Unsupported("tables combined")
            k = self.const(b)
            if isinstance(op, ast.Mult):
                def f(c):
                    if c.kind == "score" and k is not None and k != 0:
                        return c.but(factor=c.factor * (1 if k > 0 else -1))
                    if c.kind == "fill":
                        return c.but(value=c.value.mul(self.num(b)) if c.value is not None else None)
                    if c.kind == "wrong":
                        return c
                    raise Unsupported("indices in a formula")
            elif isinstance(op, (ast.Add, ast.Sub)) and isinstance(k, int):
                d = k if isinstance(op, ast.Add) else -k
                def f(c):
                    if c.kind == "index":
                        return c.but(base=c.base + d)
                    if c.kind == "fill":
                        return c.but(value=c.value.add(Num.const(d)) if c.value is not None else None)
                    if c.kind == "wrong":
                        return c
                    raise Unsupported("scores in a sum")
            else:
                raise Unsupported("operator on a table")
            return a.but(cells=[f(c) for c in a.cells])
        if isinstance(a, (Data, Order)) or isinstance(b, (Data, Order, Table, Sim)):
            raise Unsupported("operator")
        return super().binop(op, a, b)

    # ------------------------------------------------------------ functions
    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, Rotations) and name in ("flatten",):
            return o
        if isinstance(o, Data):
            if name in ("compute", "persist"):
                return o.but(lazy=False)
            if name in ("rechunk", "copy", "astype"):
                return o.but()
            if name == "reshape":
                sh = [self.num(x) for x in self.items(args[0] if len(args) == 1 else tuple(args))]
                n = o.rows.length if o.what == "experimental" else Num.const(o.hi - o.lo)
                if len(sh) == 2 and (sh[0].eq(n) or sh[0].value == -1):
                    return o.but(flat=True)
            raise Unsupported(f"patterns.{name}")
        if isinstance(o, Sim):
            if name in ("topk", "argtopk"):
                return best(self, o, name == "argtopk", args, kwargs)
            if name in ("rechunk", "persist", "compute", "copy", "astype"):
                return o
            if name == "reshape":
                return o
            if name == "argsort":
                t = Table(o.rows, [Cell("score", frozenset(range(o.lo, o.hi)), r, True, o.factor) for r in range(o.hi - o.lo)])
                return self.external("numpy.argsort", [t], kwargs, fr)
            raise Unsupported(f"similarities.{name}")
        if isinstance(o, Table):
            if name in ("compute", "persist", "copy", "astype", "rechunk"):
                return o.but(lazy=o.lazy and name not in ("compute",))
            if name == "reshape":
                sh = self.items(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
                return reshaped(o, [self.num(x) for x in sh])
            if name in ("flatten", "ravel", "squeeze"):
                return flattened(o, name)
            return self.external("numpy." + name, [o] + list(args), kwargs, fr)
        if isinstance(o, Order):
            raise Unsupported(f"order.{name}")
        return super().method(o, name, args, kwargs, fr)

    def external(self, d, args, kwargs, fr):
        if d in self.hooks:
            return self.hooks[d](self, args, kwargs, None)
        args = [self.deref(a) for a in args]
        short = d.split(".")[-1]
        np_ = d.startswith(("numpy.", "dask.array.", "dask."))
        mine = (Data, Sim, Table, Order)
        if np_ and short in ("zeros", "empty", "full", "ones") and (args or "shape" in kwargs):
            sh = args[0] if args else kwargs["shape"]
            rows = self.rows(sh[0]) if isinstance(sh, (tuple, list)) and len(sh) == 2 else None
            k = self.const(sh[1]) if rows is not None else None
            if rows is not None and isinstance(k, int):
                v = {"zeros": Q.ZERO, "ones": Q.ONE, "empty": None}.get(short)
                if short == "full":
                    v = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
                return Table(rows, [Cell("fill", value=v) for _ in range(k)])
        flat = [x for a in args for x in (a if isinstance(a, (tuple, list)) else [a])] + list(kwargs.values())
        if d == "len" and args and isinstance(args[0], Arr) and args[0].comps is not None and not args[0].lead:
            return Num.const(len(args[0].comps))
        if not any(isinstance(x, mine) for x in flat):
            return super().external(d, args, kwargs, fr)
        o = args[0] if args else None
        if short == "compute" and d.startswith("dask."):
            return tuple(x.but(lazy=False) if isinstance(x, (Table, Data)) else x for x in args)
        if d == "isinstance":
            return self.isinst(args[0], args[1])
        if d == "len":
            n = self.attr(o, "shape", fr)[0]
            return n
        if np_ and short in ("hstack", "concatenate", "column_stack", "append"):
            ts = list(o) if isinstance(o, (tuple, list)) else [o, args[1]]
            axis = self.const(kwargs.get("axis", args[-1] if short == "concatenate" and len(args) > 1 else Num.const(
                1 if short in ("hstack", "column_stack") else 0)))
            if not all(isinstance(t, Table) and not t.flat for t in ts):
                raise Unsupported("stack")
            if axis not in (1, -1):
                raise Unsupported("rows on rows")
            if not all(t.rows.same(ts[0].rows) for t in ts):
                raise PyError("rows of different number")
            return Table(ts[0].rows, [c for t in ts for c in t.cells])
        if np_ and short == "sort" and isinstance(o, Table) and not o.flat:
            if self.const(kwargs.get("axis", args[1] if len(args) > 1 else Num.const(-1))) in (1, -1):
                return picked(o, Order(o))
        if np_ and short == "argsort" and isinstance(o, Table) and not o.flat:
            axis = self.const(kwargs.get("axis", args[1] if len(args) > 1 else Num.const(-1)))
            if axis not in (1, -1):
                o = o.but(cells=[wrong("scores sorted over the patterns instead of the simulations")] * len(o.cells))
            return Order(o)
        if np_ and short == "take_along_axis" and isinstance(o, Table):
            idx = args[1] if len(args) > 1 else kwargs["indices"]
            axis = self.const(kwargs.get("axis", args[2] if len(args) > 2 else None))
            if isinstance(idx, Order) and axis in (1, -1):
                return picked(o, idx)
            raise Unsupported("take")
        if np_ and short in ("asarray", "array", "ascontiguousarray", "copy") and isinstance(o, (Table, Data)):
            return o.but()
        if np_ and short in ("squeeze", "ravel") and isinstance(o, Table):
            return flattened(o, short)
        if np_ and short == "reshape" and isinstance(o, Table):
            return reshaped(o, [self.num(x) for x in self.items(args[1])])
        if np_ and short in ("topk", "argtopk") and isinstance(o, Sim):
            return best(self, o, short == "argtopk", args[1:], kwargs)
        if d in ("list", "tuple", "zip", "range", "enumerate", "getattr", "hasattr", "type"):
            return super().external(d, args, kwargs, fr)
        if np_ and short in ("empty_like", "zeros_like", "full_like", "ones_like") and isinstance(o, Table):
            v = {"zeros_like": Q.ZERO, "ones_like": Q.ONE, "empty_like": None}.get(short)
            if short == "full_like":
                v = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
            return Table(o.rows, [Cell("fill", value=v) for _ in o.cells], flat=o.flat)
        raise Unsupported(f"{d} of scores")

    def rows(self, n):
        n = self.deref(n)
        for a in (Axis(*NAV), self.kept):
            if a is not None and isinstance(n, Num) and n.eq(a.length):
                return a
        return None


class Rotations:
    """Rotations of the simulations in the dictionary."""


def rows_of(axis, mask: Ten):
    names = [n for a in mask.axes for n in a.names]
    if names != list(axis.names) and sorted(map(repr, names)) == sorted(map(repr, axis.names)) and axis.mask is None:
        raise PyError("the mask is read in another order than the patterns")
    if list(axis.names) != names or any(a.mask is not None for a in mask.axes) or axis.mask is not None:
        raise Unsupported("mask of other rows")
    return mask.elem


def turned(t: Table):
    def f(c):
        if c.kind == "index":
            return c.but(kind="rotation", base=0) if c.base == 0 else wrong(
                f"the rotation at a place counted from {-c.base:+d}: {c!r}")
        return c if c.kind == "wrong" else wrong(f"a rotation chosen by {c!r}")
    return t.but(cells=[f(c) for c in t.cells])


def prepare_experimental(A, args, kwargs, self_):
    e = args[0] if args else next(iter(kwargs.values()))
    if not isinstance(e, Data):
        raise Unsupported("patterns")
    m = A.attr(self_, "navigation_mask", None)
    rows = Axis(*NAV) if m is None else Axis(*NAV, mask=Q.ONE.sub(A.deref(m).elem))
    return e.but(rows=rows, ready=True, flat=True, lazy=True)


def prepare_dictionary(A, args, kwargs, self_):
    d = args[0] if args else next(iter(kwargs.values()))
    if not isinstance(d, Data):
        raise Unsupported("patterns")
    return d.but(ready=True)


def match(A, args, kwargs, self_):
    e, d = list(args) + list(kwargs.values())
    if not (isinstance(e, Data) and isinstance(d, Data)) or not d.flat:
        raise Unsupported("patterns")
    if e.what == d.what or e.what != "experimental":
        raise PyError("experimental patterns and simulations exchanged")
    if not (e.ready and d.ready):
        raise PyError("patterns matched before they are prepared")
    return Sim(e.rows, d.lo, d.hi)


def best(A, o: Sim, index, args, kwargs):
    k = A.const(args[0] if args else kwargs.get("k"))
    axis = A.const(kwargs.get("axis", args[1] if len(args) > 1 else Num.const(-1)))
    if not isinstance(k, int) or k == 0:
        raise Unsupported("number of matches")
    if axis not in (1, -1):
        return Table(o.rows, [wrong("the best patterns of each simulation")] * abs(k), True)
    of = frozenset(range(o.lo, o.hi))
    high = (k > 0) == (o.factor > 0)
    cells = [Cell("index", of, r, high, base=-o.lo) if index else Cell("score", of, r, high, o.factor)
             for r in range(min(abs(k), len(of)))]
    return Table(o.rows, cells, True, declared=abs(k))


def reshaped(t: Table, sh):
    n = len(t.cells) if t.declared is None or not t.lazy else t.declared
    if len(sh) == 2 and sh[1].value == n and (sh[0].value == -1 or sh[0].eq(t.rows.length)):
        return t.but(flat=False)
    if len(sh) == 2 and (sh[0].value == -1 or sh[0].eq(t.rows.length)) and sh[1].value is not None and sh[1].value > 0:
        return Table(t.rows, [wrong("matches of different patterns in a row")] * int(sh[1].value))
    if len(sh) == 1 and n == 1:
        return t.but(flat=True)
    raise Unsupported("reshape")


def flattened(t: Table, name):
    if len(t.cells) == 1:
        return t.but(flat=True)
    if name == "squeeze":
        return t
    return Table(t.rows, [wrong("matches of all patterns in one row")], flat=True)


def chosen(o: Order):
    n = len(o.table.cells)
    return range(n)[o.lo:o.hi]


def picked(t: Table, o: Order):
    """Columns of a table in the order of another one's values."""
    src = o.table.cells
    pos = chosen(o)
    if len(src) != len(t.cells) or not t.rows.same(o.table.rows):
        raise PyError(f"order of {len(src)} columns used for {len(t.cells)}")
    bad = [c for c in list(src) + t.cells if c.kind == "wrong"]
    if bad:
        return t.but(cells=[bad[0]] * len(pos))
    scores = [c for c in src if c.kind == "score"]
    if any(c.kind not in ("score", "fill") for c in src) or len({c.factor for c in scores}) > 1:
        return t.but(cells=[wrong("matches in the order of something else than their scores")] * len(pos))
    if not scores:
        return t.but(cells=[t.cells[i] for i in pos])
    high = (scores[0].factor < 0) != o.reverse          # highest scores first
    groups: dict = {}
    why = None
    for c in scores:
        groups.setdefault(c.of, []).append(c)
    if sum(len(g) for g in groups) != len(frozenset().union(*groups)):
        why = "simulations compared twice"
    fills = [i for i, c in enumerate(src) if c.kind == "fill"]
    for i in fills:
        v = src[i].value
        w = v.div(INF).value if v is not None and v.value != 0 else None
        last = w is not None and (w > 0) != o.reverse
        if not last:
            why = why or f"the value {v!r} set at the start is sorted among the scores"
    for i, (a, b) in enumerate(zip(src, t.cells)):
        if a.kind == "score" and not (b.kind in ("score", "index") and b.of == a.of and b.rank == a.rank and b.high == a.high):
            why = why or f"{b!r} is moved with {a!r}"
        if a.kind == "fill" and b.kind != "fill":
            why = why or f"{b!r} is moved with {a!r}"
    real = [b for b in t.cells if b.kind in ("score", "index")]
    if len({b.kind for b in real}) > 1 or len({(b.base, b.factor) for b in real}) > 1:
        why = why or "indices counted from different starts"
    if why:
        return t.but(cells=[wrong(why)] * len(pos))
    union = frozenset().union(*groups)
    out = []
    for p in pos:
        if p >= len(scores):
            out.append(t.cells[fills[0]])
            continue
        lost = [g for g, cs in groups.items() if len(cs) < min(p + 1, len(g)) or (len(cs) < len(g) and cs[0].high != high)]
        if lost:
            out.append(wrong(f"{'the lowest scores' if not high else 'the highest scores'} of {len(groups[lost[0]])} kept simulations "
                             f"of {sorted(lost[0])}, of which others may come before"))
        else:
            out.append(real[0].but(of=union, rank=p, high=high))
    return t.but(cells=out)


def clock(A, args, kwargs, s):
    A.serial += 1
    return sym(f"time {A.serial}")


def cumsum(A, args, kwargs, s):
    xs = A.items(args[0])
    if xs is None:
        raise Unsupported("cumsum")
    out, tot = [], Q.ZERO
    for x in xs:
        tot = tot.add(A.num(x))
        out.append(tot)
    return Arr(out)


def crystal_map(A, args, kwargs, s):
    names = ("rotations", "phase_id", "x", "y", "phase_list", "prop", "scan_unit", "is_in_data")
    o = Obj(None, "xmap")
    o.attrs.update({**dict(zip(names, args)), **kwargs})
    A.map = o
    return o


def coordinates(A, args, kwargs, s):
    kw = {**dict(zip(("shape", "step_sizes"), args)), **kwargs}
    A.grid = kw
    return (Dict({"x": Opaque("x coordinates"), "y": Opaque("y coordinates")}), Opaque("size"))


def identity(A, args, kwargs, s):
    sh = A.deref(args[0] if args else kwargs["shape"])
    rows = A.rows(sh[0]) if isinstance(sh, tuple) and len(sh) == 2 else None
    if rows is None or not isinstance(A.const(sh[1]), int):
        raise Unsupported("rotations")
    return Table(rows, [Cell("fill", value=Q.ONE) for _ in range(A.const(sh[1]))])


def indexed(A, proj, sig, fn, sign, keep_n, per, dask, mask):
    """Call the public method on symbols."""
    nm = array("navigation mask", NAV, DType("bool"), sort="bool") if mask else None
    A.kept = Axis(*NAV, mask=Q.ONE.sub(nm.elem)) if mask else None
    s = Obj(sig, "s")
    nav_axes = (Obj(None, "x axis", {"scale": sym("x step")}), Obj(None, "y axis", {"scale": sym("y step")}))
    s.attrs.update({"data": Data("experimental", Axis(*NAV)), "_lazy": False, "axes_manager": Obj(None, "axes", {
        "navigation_shape": (length(NX), length(NY)), "navigation_size": length(NX).mul(length(NY)),
        "navigation_dimension": Num.const(2), "navigation_axes": nav_axes,
        "signal_shape": (length(SX), length(SY)), "signal_size": length(SX).mul(length(SY))})})
    d = Obj(sig, "dictionary")
    d.attrs.update({"data": Data("dictionary", lo=0, hi=N, lazy=dask), "_lazy": dask, "axes_manager": Obj(None, "axes", {
        "navigation_shape": (Num.const(N),), "navigation_size": Num.const(N), "navigation_dimension": Num.const(1),
        "signal_shape": (length(SX), length(SY)), "signal_size": length(SX).mul(length(SY))})})
    rot = Rotations()
    d.attrs["xmap"] = d.attrs["_xmap"] = Obj(None, "xmap", {
        "shape": (Num.const(N),), "size": Num.const(N), "rotations": rot, "phases_in_data": Opaque("phases of the dictionary"),
        "phases": Obj(None, "phases", {"names": ["phase"]})})
    base = next((c for c in proj.classes.values() if c.name == "SimilarityMetric"), None)
    metric = Obj(base, "metric", {"_sign": Num.const(sign), "_dtype": DType("float32"), "_navigation_mask": None,
                                  "_signal_mask": None, "_rechunk": False, "_n_dictionary_patterns": None,
                                  "_n_experimental_patterns": None})
    kw = {"metric": metric, "keep_n": Num.const(keep_n), "n_per_iteration": None if per is None else Num.const(per)}
    if mask:
        kw["navigation_mask"] = nm
    r = A.call_func(fn, [d], kw, self_=s)
    return r, nm


def check(res, what, where, kind, got, want):
    res.count("obligations")
    if not isinstance(got, Table):
        res.undecided.append(f"{what}: {kind} not described ({str(got)[:80]})")
        return
    if not got.rows.same(want.rows):
        res.add("matches", what, f"{kind} of the patterns {got.rows!r}, not {want.rows!r}", where)
        return
    if len(got.cells) != len(want.cells):
        res.add("matches", what, f"{len(got.cells)} {kind} per pattern, not {len(want.cells)}", where)
        return
    for r, (g, w) in enumerate(zip(got.cells, want.cells)):
        if g.kind == "wrong" or (g.kind, g.of, g.rank, g.high, g.factor, g.base) != (w.kind, w.of, w.rank, w.high, w.factor, w.base) or (
                (g.mask is None) != (w.mask is None) or g.mask is not None and not g.mask.eq(w.mask)):
            res.add("matches", what, f"{kind}[{r}] is {g!r}, not {w!r}", where)
            return
    res.count("proved_equal")


def configurations(thorough):
    for sign in (1, -1):
        for dask in (False, True):
            for mask in (False, True):
                for per in (None, 7, 3, 2, 1, 6, 9):
                    for keep_n in (1, 2, 3, 7, 20):
                        if not thorough and per in (2, 6) and keep_n in (3, 20):
                            continue
                        yield sign, dask, mask, per, keep_n


def scan(proj, res: Result, thorough):
    seen = set()
    sig = next((c for c in proj.classes.values() if c.name == "EBSD"), None)
    fn = proj.lookup(sig, "dictionary_indexing") if sig is not None else None
    if fn is None:
        return
    for sign, dask, mask, per, keep_n in configurations(thorough):
        what = (f"dictionary_indexing({'higher' if sign > 0 else 'lower'} is better, {'lazy ' if dask else ''}dictionary of {N}, "
                f"keep_n={keep_n}, n_per_iteration={per}, {'navigation mask' if mask else 'no mask'})")

        def one(sign=sign, dask=dask, mask=mask, per=per, keep_n=keep_n, what=what):
            A = Engine(proj)
            A.map = A.grid = None
            r, nm = indexed(A, proj, sig, fn, sign, keep_n, per, dask, mask)
            seen.update(A.functions)
            if r is not A.map or not isinstance(r, Obj):
                res.undecided.append(f"{what}: result not described")
                return
            k = min(keep_n, N)
            m = Q.ONE.sub(nm.elem) if mask else None
            rows = Axis(*NAV)

            def table(kind):
                return Table(rows, [Cell(kind, frozenset(range(N)), i, sign > 0, mask=m) for i in range(k)])
            prop = r.attrs.get("prop")
            prop = prop if isinstance(prop, Dict) else {}
            check(res, what, fn.where, "rotations", r.attrs.get("rotations"), table("rotation"))
            check(res, what, fn.where, "scores", prop.get("scores"), table("score"))
            check(res, what, fn.where, "simulation_indices", prop.get("simulation_indices"), table("index"))
            res.count("obligations", 3)
            data = r.attrs.get("is_in_data")
            if (data is None) != (m is None) or m is not None and not (isinstance(data, Ten) and data.elem.eq(m)):
                res.add("points", what, f"points in the map are those where {data!r}, not {m!r}", fn.where)
            else:
                res.count("proved_equal")
            g = A.grid or {}
            for kind, want in (("shape", (length(NY), length(NX))), ("step_sizes", (sym("y step"), sym("x step")))):
                v = g.get(kind)
                v = [A.deref(x) for x in A.items(v)] if isinstance(v, (tuple, list)) else None
                if v is None or not all(isinstance(x, Num) for x in v):
                    res.undecided.append(f"{what}: {kind} of the map not described")
                elif len(v) != 2 or not all(x.eq(y) for x, y in zip(v, want)):
                    res.add("points", what, f"the map's {kind} are {v}, not {list(want)}", fn.where)
                else:
                    res.count("proved_equal")
        described(res, "matches", what, one, fn.where)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]



SELFTEST = {"m.py": '''
import dask.array as da
import numpy as np
from orix.crystal_map import CrystalMap, create_coordinate_arrays
from orix.quaternion import Rotation


class SimilarityMetric:
    _sign = None

    @property
    def sign(self):
        return self._sign

    @property
    def navigation_mask(self):
        return self._navigation_mask

    def prepare_experimental(self, patterns):
        pass

    def prepare_dictionary(self, patterns):
        pass

    def match(self, experimental, simulated):
        pass


class EBSD:
    def dictionary_indexing(self, dictionary, metric="ncc", keep_n=20, n_per_iteration=None, navigation_mask=None):
        n = dictionary.axes_manager.navigation_size
        keep_n = min(keep_n, n)
        metric._navigation_mask = navigation_mask
        step = n if n_per_iteration is None else n_per_iteration
        experimental = metric.prepare_experimental(self.data)
        patterns = dictionary.data.reshape((n, -1))
        idx = np.zeros((experimental.shape[0], 0), dtype=int)
        scores = np.full((experimental.shape[0], 0), 0)
        for start in range(0, n, step):
            chunk = metric.prepare_dictionary(patterns[start : start + step])
            sim = metric.match(experimental, chunk)
            k = min(keep_n, step)
            i, s = da.compute(sim.argtopk(k, axis=-1), sim.topk(k, axis=-1))
            if k > 1:
                i += start
            idx = np.hstack((idx, i))
            scores = np.hstack((scores, s))
            order = np.argsort(-scores, axis=1)[:, :keep_n]
            idx, scores = np.take_along_axis(idx, order, axis=1), np.take_along_axis(scores, order, axis=1)
        shape = self.axes_manager.navigation_shape[::-1]
        kw, _ = create_coordinate_arrays(shape, [a.scale for a in self.axes_manager.navigation_axes[::-1]])
        rotations = dictionary.xmap.rotations[idx]
        if navigation_mask is not None:
            keep = ~navigation_mask.ravel()
            kw["is_in_data"] = keep
            every = np.empty((keep.size, keep_n))
            every[keep] = scores
            scores = every
        return CrystalMap(rotations=rotations, prop={"scores": scores, "simulation_indices": idx}, **kw)
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C42",
        explanation=(
            "abstract interpretation of dictionary indexing over tables of ranks: a column is the score, the index or the "
            "rotation of the r-th best of a set of simulations; the best of a chunk, tables side by side, sorting, picking "
            "along the order, counting from a start and scattering over the navigation mask are operations on these. What "
            "reaches the crystal map must be the best min(keep_n, dictionary size) of the whole dictionary, best first, in "
            "each point indexed, for greater-is-better and lower-is-better metrics, lazy or not, every way of dividing the "
            "dictionary, with and without navigation mask; the map must have the scan's shape and steps"
        ),
        assumptions=["scores are distinct (the order of equal scores is not decided)",
                     "dask's topk and argtopk and NumPy's argsort do as documented",
                     f"a dictionary of {N} simulations divided in 7 ways stands for any other"],
    )
    scan(ctx.proj, res, ctx.tier == "thorough")
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "dictionary indexing not found")
    r = Result("C42")
    scan(project_from(dict(SELFTEST)), r, False)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("keep_n=1, n_per_iteration=3, no mask",             # indices counted from the chunk
            "lower is better, dictionary of 7, keep_n=2, n_per_iteration=3, no mask",   # the greatest kept
            "higher is better, dictionary of 7, keep_n=2, n_per_iteration=3, navigation mask")  # indices not scattered
    quiet = ("higher is better, dictionary of 7, keep_n=2, n_per_iteration=3, no mask",
             "higher is better, lazy dictionary of 7, keep_n=7, n_per_iteration=2, no mask",
             "higher is better, dictionary of 7, keep_n=1, n_per_iteration=7, no mask")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:300]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w}")
    res.require(not r.undecided, f"self-test: undecided ({r.undecided[:3]})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
