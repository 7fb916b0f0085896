"""Value numbering over the syntax tree with algebraic normal forms.

Every expression of a function is given the normal form (poly.Num) of its
value in terms of the symbols its inputs stand for.  Arrays are described
by one generic element, or by the components along their last axis when
their number is known.  Where two branches meet, differing values become a
gated value; a value changed in a loop of unknown length becomes an
uninterpreted function of its initial value, the loop's range and its
body.  Calls to functions of the project are evaluated in place; calls that
are not understood give an opaque value determined by their arguments.
Nothing is executed and no path is enumerated or handed to a solver.
"""

from __future__ import annotations

import ast
import builtins
import copy
from fractions import Fraction

from . import poly as Q
from .poly import Num, sym
from .project import Class, External, Func, GlobalVar, Module, Project

ELLIPSIS = object()


class Unsupported(Exception):
    pass


class Raises(Exception):
    """The code being described always raises."""


class Opaque:
    """An unknown value determined by `key`."""

    __slots__ = ("fn", "args")

    def __init__(self, fn, args=()):
        self.fn, self.args = fn, tuple(args)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"?{self.fn}{self.args if self.args else ''}"

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.fn == o.fn and Q.same(self.args, o.args)

    def __hash__(self):
        return hash(self.fn)

    def num(self) -> Num:
        return Num.of(Q.atom("?" + self.fn, tuple(key(a) for a in self.args)))


class Given(Opaque):
    """An input (or an entry of an input mapping), a symbol of its own."""

    __slots__ = ("sort",)

    def __init__(self, name, sort="real"):
        super().__init__(name)
        self.sort = sort

    def num(self):
        return sym(self.fn, self.sort)


class Fn(Opaque):
    """A modelled library function: f(alg, args, kwargs)."""

    __slots__ = ("f",)

    def __init__(self, name, f):
        super().__init__(name)
        self.f = f


class Text:
    """A string with parts that are not constant."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = list(parts)

    def __deepcopy__(self, memo):
        return self


class Arr:
    """An array: `comps` along the last axis if their number is known, else
    one generic element `elem`."""

    __slots__ = ("comps", "elem", "arange", "lead")

    def __init__(self, comps=None, elem=None, arange=None, lead=False):
        self.comps, self.elem, self.arange = comps, elem, arange
        self.lead = lead  # known to have axes before the last one

    def __repr__(self):
        return f"Arr{self.comps if self.comps is not None else [self.elem]}"


class View:
    """One component of an array."""

    __slots__ = ("arr", "i")

    def __init__(self, arr, i):
        self.arr, self.i = arr, i


class Slice:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def full(self):
        return self.lo is None and self.hi is None and self.step is None


class Obj:
    __slots__ = ("cls", "attrs", "name")

    def __init__(self, cls, name="", attrs=None):
        self.cls, self.name, self.attrs = cls, name, attrs or {}

    def __repr__(self):
        return f"<{self.cls.name if self.cls else 'obj'} {self.name}>"


class Bound:
    __slots__ = ("func", "self", "name")

    def __init__(self, func, self_, name=""):
        self.func, self.self, self.name = func, self_, name


class Attr(Opaque):
    """An attribute that is not described; may be called."""

    def __init__(self, o, name):
        super().__init__("attr", (o, name))

    self = property(lambda s: s.args[0])
    name = property(lambda s: s.args[1])


class Clos:
    __slots__ = ("func", "env")

    def __init__(self, func, env=None):
        self.func, self.env = func, env

    def __deepcopy__(self, memo):
        return self


class LoopVar:
    """Index of a loop that visits every element."""

    __slots__ = ("num", "full")

    def __init__(self, num, full):
        self.num, self.full = num, full

    def __deepcopy__(self, memo):
        return self


class Head:
    """A shape whose leading part is unknown: (*head, *tail)."""

    __slots__ = ("head", "tail")

    def __init__(self, head, tail):
        self.head, self.tail = head, tuple(tail)


class KnownSet(list):
    """A set whose members are known values, latest first (any order is
    possible)."""


class Super:
    """super() of an object in a method of a class."""

    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Dict(dict):
    open = False  # may have keys and values that are not listed


def key(v):
    """A structural key of a value, for opaque calls."""
    if isinstance(v, View):
        v = v.arr.comps[v.i]
    if isinstance(v, Num):
        return v
    if isinstance(v, LoopVar):
        return v.num
    if isinstance(v, Arr):
        return ("arr",) + tuple(key(c) for c in (v.comps if v.comps is not None else [v.elem]))
    if isinstance(v, (tuple, list)):
        return ("tup",) + tuple(key(x) for x in v)
    if isinstance(v, Text):
        return ("text",) + tuple(p if isinstance(p, str) else key(p[1]) for p in v.parts)
    if isinstance(v, Given):
        return v.num()
    if isinstance(v, Opaque):
        return ("op", v.fn) + tuple(key(a) for a in v.args)
    if isinstance(v, Dict):
        return ("dict",) + tuple((k, key(x)) for k, x in sorted(v.items(), key=repr))
    if isinstance(v, Slice):
        return ("slice", key(v.lo), key(v.hi), key(v.step))
    if isinstance(v, Head):
        return ("head", key(v.head), key(v.tail))
    if isinstance(v, Obj):
        return ("obj", v.name or id(v))
    if isinstance(v, (External,)):
        return ("ext", v.dotted)
    if isinstance(v, (Func, Class)):
        return ("ent", v.qualname)
    if isinstance(v, Clos):
        return ("clos", v.func.qualname)
    if isinstance(v, Bound):
        return ("bound", v.name, key(v.self))
    if v is ELLIPSIS:
        return "..."
    if hasattr(v, "structure"):
        return v.structure()
    return v


class Ret:
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value


class Frame:
    def __init__(self, func, env, cls=None):
        self.func, self.env, self.cls = func, env, cls


IDENTITY_METHODS = {
    "astype", "copy", "squeeze", "ravel", "flatten", "view", "item", "compute", "tolist", "rechunk", "persist",
}
IDENTITY_CALLS = {
    "numpy." + n for n in (
        "asarray", "array", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "atleast_3d",
        "squeeze", "ravel", "copy", "float64", "float32", "float16", "broadcast_to", "asfortranarray", "expand_dims",
        "reshape",
    )
} | {"copy.deepcopy", "copy.copy", "float", "dask.array.asarray", "dask.array.from_array"}
NP_FUNCS = {
    "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "floor": "floor", "absolute": "abs", "abs": "abs",
    "fabs": "abs", "mod": "mod", "remainder": "mod", "arctan": "arctan", "arcsin": "arcsin", "arccos": "arccos",
    "arctan2": "arctan2", "exp": "exp", "log": "log", "round": "round", "rint": "round", "around": "round",
    "minimum": "min", "maximum": "max", "fmin": "min", "fmax": "max", "ceil": "ceil", "sign": "sign",
}
NP_BIN = {
    "add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult, "divide": ast.Div, "true_divide": ast.Div,
    "power": ast.Pow, "floor_divide": ast.FloorDiv,
}


class Alg:
    MAX_LOOP = 24
    MAX_DEPTH = 40
    MAX_STEPS = 60000

    def __init__(self, proj: Project, hooks=None):
        self._locals = {}
        self.proj = proj
        self.hooks = hooks or {}
        self.known: dict[str, dict] = {}  # attributes of inputs
        self.depth = 0
        self.serial = 0
        self.steps = 0
        self.functions: set[str] = set()
        self.loops = 0
        self.assume = None  # how tests are decided in a stated region of the inputs

    # -------------------------------------------------------------- helpers
    def num(self, v) -> Num:
        if isinstance(v, View):
            v = v.arr.comps[v.i]
            return self.num(v)
        if isinstance(v, Num):
            return v
        if isinstance(v, bool):
            return Num.const(int(v))
        if isinstance(v, LoopVar):
            return v.num
        if isinstance(v, Arr):
            if v.comps is not None and len(v.comps) == 1:
                return self.num(v.comps[0])
            if v.comps is None:
                return self.num(v.elem)
        if isinstance(v, Opaque):
            return v.num()
        raise Unsupported(f"number expected, got {v!r}")

    def const(self, v):
        """Python value of a constant, or None."""
        if isinstance(v, (str, bool, bytes)):
            return v
        if isinstance(v, (Num, View)):
            try:
                c = self.num(v).value
            except Unsupported:
                return None
            if c is None:
                return None
            return int(c) if c.denominator == 1 else float(c)
        return None

    def truth(self, v):
        """True/False/None (unknown)"""
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, View):
            v = self.num(v)
        if isinstance(v, Num):
            c = v.value
            if c is None and self.assume is not None:
                return self.assume(v)
            return None if c is None else c != 0
        if isinstance(v, (str, list, tuple, dict)):
            return bool(v)
        if isinstance(v, (Obj, Bound, Clos, Class)):
            return True
        return None

    def cond(self, v) -> Num:
        t = self.truth(v)
        if t is not None:
            return Num.const(int(t))
        return self.num(v)

    def zipmap(self, f, *vs):
        """Apply `f` to numbers, along last-axis components of arrays."""
        vs = [v if not isinstance(v, View) else self.num(v) for v in vs]
        vs = [Arr([self.to_scalar(x) for x in v]) if isinstance(v, (list, tuple)) else v for v in vs]
        ns = {len(v.comps) for v in vs if isinstance(v, Arr) and v.comps is not None and len(v.comps) > 1}
        if len(ns) > 1:
            raise Unsupported("shapes")
        if ns:
            n = ns.pop()
            def comp(v, i):
                if isinstance(v, Arr) and v.comps is not None:
                    return v.comps[i if len(v.comps) > 1 else 0]
                if isinstance(v, Arr):
                    return v.elem
                return v
            return Arr([self.zipmap(f, *[comp(v, i) for v in vs]) for i in range(n)])
        ar = any(isinstance(v, Arr) for v in vs)
        if any(isinstance(v, Arr) and v.comps is None and isinstance(v.elem, Arr) for v in vs):
            return Arr(elem=self.zipmap(f, *[v.elem if isinstance(v, Arr) and v.comps is None else v for v in vs]))
        r = f(*[self.num(v) for v in vs])
        one = any(isinstance(v, Arr) and v.comps is not None for v in vs)
        if one:
            return Arr([r])
        return Arr(elem=r) if ar else r

    def to_scalar(self, v):
        if isinstance(v, View):
            return self.num(v)
        if isinstance(v, (list, tuple)):
            return Arr([self.to_scalar(x) for x in v])
        if isinstance(v, bool):
            return Num.const(int(v))
        if isinstance(v, Arr):
            if v.comps is None:
                return self.to_scalar(v.elem)
            return v
        if isinstance(v, (Num, LoopVar, Opaque)):
            return self.num(v)
        if isinstance(v, str) and v.strip().isdigit():
            return Num.const(int(v))    # put in an array of numbers
        raise Unsupported(f"array of {v!r}")

    def copyv(self, v):
        if isinstance(v, View):
            return self.num(v)
        if isinstance(v, Arr):
            if v.comps is not None:
                return Arr([self.copyv(c) for c in v.comps], lead=v.lead)
            return Arr(elem=self.copyv(v.elem), arange=v.arange)
        return v

    def gate(self, c: Num, a, b):
        if a is b:
            return a
        if isinstance(a, View):
            a = self.num(a)
        if isinstance(b, View):
            b = self.num(b)
        if isinstance(a, bool):
            a = Num.const(int(a))
        if isinstance(b, bool):
            b = Num.const(int(b))
        if isinstance(a, Num) and isinstance(b, Num):
            if a.eq(b):
                return a
            return Num.of(Q.atom("ite", (c, a, b)))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.comps is not None and b.comps is not None and len(a.comps) == len(b.comps):
                return Arr([self.gate(c, x, y) for x, y in zip(a.comps, b.comps)])
            if a.comps is None and b.comps is None:
                return Arr(elem=self.gate(c, a.elem, b.elem), arange=a.arange if a.arange == b.arange else None)
        if isinstance(a, Arr) and a.comps is None and isinstance(b, Num):
            return Arr(elem=self.gate(c, a.elem, b))
        if isinstance(b, Arr) and b.comps is None and isinstance(a, Num):
            return Arr(elem=self.gate(c, a, b.elem))
        if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
            return type(a)(self.gate(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Dict) and isinstance(b, Dict):
            if a.keys() == b.keys():
                return Dict({k: self.gate(c, a[k], b[k]) for k in a})
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.name == b.name:
            o = Obj(a.cls, a.name)
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    o.attrs[k] = self.gate(c, a.attrs[k], b.attrs[k])
            return o
        try:
            if Q.same(key(a), key(b)):
                return a
        except Exception:
            pass
        return Opaque("ite", (c, a, b))

    # ------------------------------------------------------------ functions
    def call_func(self, f: Func, args, kwargs, self_=None, env=None):
        if self.depth > self.MAX_DEPTH:
            raise Unsupported("depth")
        h = self.hooks.get(f.name)
        if h is not None:
            return h(self, args, kwargs, self_)
        self.functions.add(f.short)
        vals = {}
        params = list(f.params)
        args = list(args)
        if f.kind in ("method", "property", "setter", "class") and self_ is not None:
            args = [self_] + args
        pos = [p for p in params if p.kind == "pos"]
        for p, a in zip(pos, args):
            vals[p.name] = a
        extra = args[len(pos):]
        names = {p.name for p in params}
        kw = dict(kwargs)
        for p in params:
            if p.name in kw and p.kind in ("pos", "kwonly"):
                vals[p.name] = kw.pop(p.name)
        for p in params:
            if p.kind == "vararg":
                vals[p.name] = tuple(extra)
            elif p.kind == "kwarg":
                vals[p.name] = Dict(kw)
            elif p.name not in vals:
                if p.default is None:
                    raise Unsupported(f"missing {p.name} in call of {f.short}")
                vals[p.name] = self.ev(p.default, Frame(f, {}, None))
        fr = Frame(f, dict(env or {}), None)
        fr.env.update(vals)
        if self_ is not None and isinstance(self_, Obj):
            fr.cls = self_.cls
        self.depth += 1
        try:
            r = self.block(f.body(), fr)
        except (IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
            # an operation the value domain does not describe
            raise Unsupported(f"{f.short}: {type(e).__name__} {e}") from e
        finally:
            self.depth -= 1
        return r.value if r is not None else None

    # ----------------------------------------------------------- statements
    def block(self, stmts, fr):
        for i, s in enumerate(stmts):
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Unsupported("steps")
            if isinstance(s, ast.If):
                return self.branch(s, stmts[i + 1 :], fr)
            r = self.stmt(s, fr)
            if r is not None:
                return r
        return None

    def snapshot(self, fr):
        """Deep copy of the environment, so that branches do not share."""
        return copy.deepcopy({k: v for k, v in fr.env.items()}, self.memo_atoms())

    def memo_atoms(self):
        m = {}
        for c in self.proj.classes.values():
            m[id(c)] = c
        m[id(ELLIPSIS)] = ELLIPSIS
        m[id(self.proj)] = self.proj
        for f in self.proj.by_node.values():
            m[id(f)] = f
        for x in self.proj.modules.values():
            m[id(x)] = x
        return m

    def branch(self, s, rest, fr):
        t = self.truth(tv := self.ev(s.test, fr))
        if t is not None:
            r = self.block(list(s.body if t else s.orelse) + list(rest), fr)
            return r
        c = self.cond(tv)
        e2 = self.snapshot(fr)
        f2 = Frame(fr.func, e2, fr.cls)
        simple = not (has_exit(s.body) or has_exit(s.orelse))
        cont = [] if simple else list(rest)
        r1 = r2 = None
        ok1 = ok2 = True
        try:
            r1 = self.block(list(s.body) + cont, fr)
        except Raises:
            ok1 = False
        except BreakLoop:
            raise Unsupported("break under an unknown test")
        try:
            r2 = self.block(list(s.orelse) + cont, f2)
        except Raises:
            ok2 = False
        except BreakLoop:
            raise Unsupported("break under an unknown test")
        if not ok1 and not ok2:
            raise Raises
        if not ok1:
            self.adopt(fr.env, f2.env)
            r = r2
        elif not ok2:
            r = r1
        else:
            self.merge(c, fr.env, f2.env)
            if r1 is None and r2 is None:
                r = None
            else:
                r = Ret(self.gate(c, r1.value if r1 else None, r2.value if r2 else None))
        if simple:
            if r is not None:
                return r
            return self.block(list(rest), fr)
        return r

    def adopt(self, env, other):
        """Make the objects of `env` what they are in `other`."""
        seen = set()
        def put(a, b):
            if id(a) in seen:
                return
            seen.add(id(a))
            if isinstance(a, Arr) and isinstance(b, Arr):
                a.comps, a.elem, a.arange = b.comps, b.elem, b.arange
            elif isinstance(a, Obj) and isinstance(b, Obj):
                for k in list(a.attrs):
                    if k in b.attrs:
                        put(a.attrs[k], b.attrs[k])
                a.attrs.update({k: v for k, v in b.attrs.items() if not same_obj(a.attrs.get(k), v)})
            elif isinstance(a, Dict) and isinstance(b, Dict):
                a.clear(); a.update(b)
            elif isinstance(a, list) and isinstance(b, list):
                a[:] = b
        for k in list(env):
            if k in other:
                put(env[k], other[k])
        env.update({k: v for k, v in other.items() if not same_obj(env.get(k), v)})

    def merge(self, c, env, other):
        seen = {}
        def put(a, b):
            if id(a) in seen:
                return seen[id(a)]
            if isinstance(a, Arr) and isinstance(b, Arr):
                g = self.gate(c, self.copyv(a), self.copyv(b))
                if isinstance(g, Arr):
                    a.comps, a.elem, a.arange = g.comps, g.elem, g.arange
                    seen[id(a)] = a
                    return a
                return g
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
                seen[id(a)] = a
                for k in list(set(a.attrs) & set(b.attrs)):
                    a.attrs[k] = put(a.attrs[k], b.attrs[k])
                for k in set(a.attrs) ^ set(b.attrs):
                    a.attrs[k] = Opaque("maybe", (k,))
                return a
            if isinstance(a, Dict) and isinstance(b, Dict):
                seen[id(a)] = a
                for k in list(set(a) & set(b)):
                    a[k] = put(a[k], b[k])
                for k in set(a) ^ set(b):
                    a[k] = Opaque("maybe", (c, k))
                return a
            return self.gate(c, a, b)
        for k in list(env):
            if k in other:
                env[k] = put(env[k], other[k])
            else:
                env[k] = Opaque("unbound", (k,))
        for k in other:
            if k not in env:
                env[k] = Opaque("unbound", (k,))

    def stmt(self, s, fr):
        if isinstance(s, ast.Break):
            raise BreakLoop
        if isinstance(s, ast.Return):
            return Ret(self.ev(s.value, fr) if s.value is not None else None)
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, fr)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, fr)
            for t in s.targets:
                self.assign(t, v, fr)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
        elif isinstance(s, ast.AugAssign):
            self.augassign(s, fr)
        elif isinstance(s, ast.Raise):
            raise Raises
        elif isinstance(s, ast.Assert):
            pass
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for alias, b in self.proj._import_bindings(fr.func.module, s):
                    if b[0] == "from":
                        fr.env[alias] = self.ent(self.proj.resolve_from(b[1], b[2]))
                    else:
                        fr.env[alias] = self.ent(self.proj.modules.get(b[1]) or External(b[1]))
        elif isinstance(s, ast.FunctionDef):
            fr.env[s.name] = Clos(self.proj.nested_func(fr.func, s), fr.env)
        elif isinstance(s, ast.For):
            return self.loop(s, fr)
        elif isinstance(s, ast.With):
            for it in s.items:
                v = self.ev(it.context_expr, fr)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
            return self.block(s.body, fr)
        elif isinstance(s, ast.Try):
            try:
                return self.block(list(s.body) + list(s.orelse) + list(s.finalbody), fr)
            except (Raises, PyError):
                if s.handlers:
                    return self.block(list(s.handlers[0].body) + list(s.finalbody), fr)
                raise
        elif isinstance(s, ast.Delete):
            pass
        else:
            raise Unsupported(f"statement {type(s).__name__} at {fr.func.module.relpath}:{s.lineno}")
        return None

    # ---------------------------------------------------------------- loops
    def loop(self, s: ast.For, fr):
        it = self.ev(s.iter, fr)
        items = self.items(it)
        if items is not None:
            if len(items) > self.MAX_LOOP:
                raise Unsupported("long loop")
            if has_break(s.body):
                return self.search_loop(s, items, fr)
            for x in items:
                self.assign(s.target, x, fr)
                r = self.block(drop_continue(s.body), fr)
                if r is not None:
                    return r
            return self.block(s.orelse, fr) if s.orelse else None
        if has_break(s.body) or has_exit(s.body):
            raise Unsupported("loop with exit")
        # unknown length: describe the body for a generic element
        self.loops += 1
        before = {k: v for k, v in fr.env.items()}
        changed = assigned_names(s.body)
        carried = {}
        for k in sorted(changed & set(before)):
            v = before[k]
            if isinstance(v, (Num, View)) or (isinstance(v, Arr) and v.comps is None):
                if reads_before_write(s.body, k):
                    carried[k] = self.num(v)
                    fr.env[k] = sym(f"carry{len(carried)}")
        elem, full = self.generic(it)
        self.assign(s.target, elem, fr)
        r = self.block(drop_continue(s.body), fr)
        if r is not None:
            raise Unsupported("return in loop")
        for i, (k, init) in enumerate(carried.items(), 1):
            body = fr.env[k]
            if isinstance(body, (Num, View, LoopVar)):
                fr.env[k] = Num.of(Q.atom("?fold", (init, key(it), self.num(body), i)))
            else:
                fr.env[k] = Opaque("fold", (init, key(it), i))
        return None

    def search_loop(self, s, items, fr):
        """for x in <known items>: if <known test>: ... break"""
        for x in items:
            self.assign(s.target, x, fr)
            try:
                r = self.block(drop_continue(s.body), fr)
            except BreakLoop:
                return None
            if r is not None:
                return r
        return self.block(s.orelse, fr) if s.orelse else None

    def generic(self, it):
        if isinstance(it, Opaque) and it.fn == "range":
            full = len(it.args) == 1
            return LoopVar(Num.of(Q.atom("?index", tuple(key(a) for a in it.args), "int")), full), full
        if isinstance(it, Opaque) and it.fn == "enumerate":
            e, f = self.generic(it.args[0])
            return (LoopVar(Num.of(Q.atom("?index", (key(it.args[0]),), "int")), True), e), f
        if isinstance(it, Opaque) and it.fn == "zip":
            return tuple(self.generic(a)[0] for a in it.args), True
        if isinstance(it, Arr):
            if it.comps is None:
                return it.elem, True
        if isinstance(it, Num):
            return it, True
        return Opaque("element", (it,)), True

    def items(self, it):
        """Python list of the elements if known."""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, Dict):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Opaque):
            if it.fn == "range":
                c = [self.const(a) for a in it.args]
                if all(isinstance(x, int) for x in c):
                    return [Num.const(i) for i in range(*c)]
            if it.fn == "enumerate":
                x = self.items(it.args[0])
                return None if x is None else [(Num.const(i), e) for i, e in enumerate(x)]
            if it.fn == "zip":
                xs = [self.items(a) for a in it.args]
                if all(x is not None for x in xs):
                    return list(zip(*xs))
        if isinstance(it, Arr) and it.comps is not None:
            return [View(it, i) if not isinstance(c, Arr) else c for i, c in enumerate(it.comps)]
        return None

    # ----------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.items(v)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if xs is None:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        e = e.value
                    self.assign(e, self.index(v, Num.const(i)), fr)
            elif star:
                k = star[0]
                tail = n - k - 1
                for e, x in zip(t.elts[:k], xs):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, list(xs[k : len(xs) - tail]), fr)
                for e, x in zip(t.elts[k + 1 :], xs[len(xs) - tail :]):
                    self.assign(e, x, fr)
            else:
                if len(xs) != n:
                    raise Unsupported("unpacking")
                for e, x in zip(t.elts, xs):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            if isinstance(o, Obj):
                st = self.proj.lookup(o.cls, t.attr, setter=True) if o.cls else None
                if st is not None:
                    self.call_func(st, [v], {}, self_=o)
                else:
                    o.attrs[t.attr] = v
            elif isinstance(o, (Arr, Num, View)):
                raise Unsupported("attribute of array assigned")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            self.store(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("target")

    def augassign(self, s, fr):
        v = self.ev(s.value, fr)
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, fr)
            new = self.binop(s.op, cur, v)
            if isinstance(cur, Arr) and isinstance(new, Arr):
                cur.comps, cur.elem, cur.arange = new.comps, new.elem, None
            elif isinstance(cur, View):
                self.store_comp(cur.arr, cur.i, self.num(new))
            elif isinstance(cur, list) and isinstance(new, list):
                cur[:] = new
            else:
                fr.env[s.target.id] = new
        elif isinstance(s.target, ast.Attribute):
            load = ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
            cur = self.ev(load, fr)
            new = self.binop(s.op, cur, v)
            if isinstance(cur, Arr) and isinstance(new, Arr):
                cur.comps, cur.elem, cur.arange = new.comps, new.elem, None
            else:
                self.assign(s.target, new, fr)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            i = self.ev_index(s.target.slice, fr)
            self.store(o, i, self.binop(s.op, self.index(o, i), v))
        else:
            raise Unsupported("augmented assignment")

    def store_comp(self, arr, i, v):
        arr.comps[i] = v

    def split(self, i):
        """(leading index parts, last part) of an index expression."""
        return list(i) if isinstance(i, tuple) else [i]

    def is_all(self, p):
        return p is ELLIPSIS or p is None or (isinstance(p, Slice) and p.full()) or (
            isinstance(p, LoopVar) and p.full)

    def store(self, o, i, v):
        if isinstance(o, View):
            raise Unsupported("store in view")
        if isinstance(o, Dict):
            k = self.const(i)
            if k is None:
                raise Unsupported("store under unknown key")
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(i, Slice):
                r, xs = self.slice_range(i, len(o)), self.items(v)
                if r is None or xs is None or len(r) != len(xs):
                    raise Unsupported("store in part of a list")
                for j, x in zip(r, xs):
                    o[j] = self.deref(x)
                return
            k = self.const(i)
            if not isinstance(k, int):
                raise Unsupported("store in list at unknown place")
            o[k] = v
            return
        if isinstance(o, Arr):
            o.arange = None
            parts = self.split(i)
            if o.comps is not None:
                last = parts[-1]
                k = self.const(last) if not isinstance(last, (Slice, LoopVar)) and last is not ELLIPSIS else None
                lead = parts[:-1]
                if isinstance(k, int) and not isinstance(k, bool) and o.elem is None and len(o.comps) <= k < 16 and lead:
                    o.comps += [Q.ZERO] * (k + 1 - len(o.comps))
                if isinstance(k, int) and not isinstance(k, bool) and not -len(o.comps) <= k < len(o.comps):
                    raise PyError("IndexError")
                if isinstance(k, int) and not isinstance(k, bool) and isinstance(o.comps[k], Arr) and not lead:
                    n = len(o.comps[k].comps or ())
                    val = self.to_scalar(v)
                    o.comps[k] = self.broadcast(val, n) if n else val
                    return
                if isinstance(k, int) and not isinstance(k, bool):
                    if lead and any(isinstance(c, Arr) for c in o.comps):
                        row = self.const(lead[-1]) if not self.is_all(lead[-1]) else None
                        if isinstance(row, int) and isinstance(o.comps[row], Arr):
                            o.comps[row].comps[k] = self.to_scalar(v)
                            return
                        raise Unsupported("store in matrix")
                    if all(self.is_all(p) for p in lead) and (lead or True):
                        o.comps[k] = self.to_scalar(v)
                        return
                    if not lead and isinstance(v, Arr):
                        raise Unsupported("store row")
                if isinstance(last, Slice) and not last.full() and all(self.is_all(p) for p in lead):
                    rng = self.slice_range(last, len(o.comps))
                    if rng is not None:
                        val = self.broadcast(self.to_scalar(v), len(rng))
                        for j, x in zip(rng, val.comps):
                            o.comps[j] = x
                        return
                if all(self.is_all(p) for p in parts):
                    val = self.broadcast(self.to_scalar(v), len(o.comps))
                    o.comps = list(val.comps)
                    return
                # part of the array is replaced: an unknown mixture
                val = self.broadcast(self.to_scalar(v), len(o.comps))
                o.comps = [Opaque("store", (c, key(tuple(parts)), x)).num() for c, x in zip(o.comps, val.comps)]
                return
            k = self.const(parts[-1]) if len(parts) > 1 and not self.is_all(parts[-1]) else None
            if all(self.is_all(p) for p in parts):
                o.elem = self.to_scalar(v)
            elif isinstance(k, int) and 0 <= k < 16 and all(self.is_all(p) for p in parts[:-1]) and not isinstance(
                    o.elem, Arr):
                # the components along the last axis are set one by one
                o.comps = [o.elem] * (k + 1)
                o.comps[k] = self.to_scalar(v)
                o.elem = None
            else:
                o.elem = Opaque("store", (o.elem, key(tuple(parts)), v)).num()
            return
        if isinstance(o, Obj) and "__setitem__" in o.attrs:
            o.attrs["__setitem__"].f(self, [i, v], {})
            return
        if isinstance(o, (Opaque, Obj)):
            return
        raise Unsupported(f"store in {o!r}")

    def broadcast(self, v, n):
        if isinstance(v, Arr) and v.comps is not None:
            if len(v.comps) == n:
                return v
            if len(v.comps) == 1:
                return Arr([v.comps[0]] * n)
            raise Unsupported("broadcast")
        if isinstance(v, Arr):
            v = v.elem
        return Arr([v] * n)

    def slice_range(self, sl, n):
        lo, hi, st = (None if x is None else self.const(x) for x in (sl.lo, sl.hi, sl.step))
        for given, c in ((sl.lo, lo), (sl.hi, hi), (sl.step, st)):
            if given is not None and not isinstance(c, int):
                return None
        return range(n)[slice(lo, hi, st)]

    # ---------------------------------------------------------- expressions
    def ev_index(self, e, fr):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in e.elts)
        if isinstance(e, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)  # noqa: E731
            return Slice(f(e.lower), f(e.upper), f(e.step))
        return self.ev(e, fr)

    def index(self, o, i):
        if isinstance(o, View):
            o = self.num(o)
        if isinstance(o, Dict):
            k = self.const(i)
            if k is not None and k in o:
                return o[k]
            if k is not None and not o.open:
                raise PyError
            return Opaque("item", (o, i))
        if isinstance(o, str):
            k = self.const(i)
            if isinstance(k, int):
                return o[k]
            if isinstance(i, Slice):
                r = self.slice_range(i, len(o))
                if r is not None:
                    return "".join(o[j] for j in r)
            raise Unsupported("string index")
        if isinstance(o, (list, tuple)):
            if isinstance(i, Slice):
                r = self.slice_range(i, len(o))
                if r is not None:
                    return type(o)(o[j] for j in r)
                return Opaque("item", (o, i))
            k = self.const(i)
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise PyError
                return o[k]
            if isinstance(i, tuple):
                r = o
                for p in i:
                    r = self.index(r, p)
                return r
            return Opaque("item", (o, i))
        if isinstance(o, Head):
            k = self.const(i)
            if isinstance(k, int) and k < 0 and -k <= len(o.tail):
                return o.tail[k]
            if isinstance(i, Slice) and i.step is None:
                hi = None if i.hi is None else self.const(i.hi)
                lo = None if i.lo is None else self.const(i.lo)
                if i.lo is None and isinstance(hi, int) and -hi == len(o.tail):
                    return Head(o.head, ())
                if i.hi is None and isinstance(lo, int) and lo < 0 and -lo <= len(o.tail):
                    return tuple(o.tail[lo:])
                if i.lo is None and isinstance(i.hi, Opaque):
                    return Head(o.head, ())
                if i.lo is None and isinstance(i.hi, Num) and i.hi.value is None:
                    return Head(o.head, ())
            return Opaque("item", (o, i))
        if isinstance(o, Arr) and o.comps is not None and isinstance(i, (list, tuple)) and len(i) == len(o.comps) and i and all(
                isinstance(self.truth(x), bool) and (isinstance(x, bool) or isinstance(x, Num) and x.value is None)
                for x in i):
            return Arr([c for c, x in zip(o.comps, i) if self.truth(x)])    # a list of booleans
        if isinstance(o, Arr) and isinstance(i, tuple) and not i:
            return o
        if isinstance(o, Arr):
            parts = self.split(i)
            if o.arange is not None and len(parts) == 1 and not self.is_all(parts[0]):
                p = parts[0]
                a, st = o.arange
                if isinstance(p, (Num, LoopVar, View)):
                    return a.add(self.num(p).mul(st))
                if isinstance(p, Arr) and p.comps is None:
                    return Arr(elem=a.add(self.num(p).mul(st)))
                if isinstance(p, Given):  # positions selected by an input mask
                    return Arr(elem=a.add(st.mul(sym(f"selected({p.fn})", "int"))))
                return Arr(elem=Opaque("gather", (a, st, o.elem, p)).num())
            if o.comps is not None:
                nested = any(isinstance(c, Arr) for c in o.comps)
                if nested:
                    k = self.const(parts[0]) if not self.is_all(parts[0]) and not isinstance(parts[0], Slice) else None
                    if isinstance(k, int):
                        row = o.comps[k]
                        return self.index(row, tuple(parts[1:])) if len(parts) > 1 else row
                    if self.is_all(parts[0]) and len(parts) >= 2:
                        return Arr([self.deref(self.index(r, tuple(parts[1:]))) for r in o.comps])
                    if self.is_all(parts[0]):
                        return o
                    raise Unsupported("matrix index")
                last = parts[-1]
                lead = parts[:-1]
                if isinstance(last, LoopVar):
                    # generic element of a vector with known components or a leading index
                    return o
                if last is ELLIPSIS or (isinstance(last, Slice) and last.full()) or last is None:
                    return o
                if isinstance(last, Slice):
                    r = self.slice_range(last, len(o.comps))
                    if r is not None:
                        return Arr([o.comps[j] for j in r])
                k = self.const(last)
                if isinstance(k, int) and not isinstance(k, bool) and o.lead and len(parts) == 1:
                    return Arr([Opaque("gather", (c, key((last,)))).num() for c in o.comps])
                if isinstance(k, int) and not isinstance(k, bool):
                    if not -len(o.comps) <= k < len(o.comps):
                        raise PyError
                    return View(o, k % len(o.comps))
                return Arr([Opaque("gather", (c, key(tuple(parts)))).num() for c in o.comps])
            if all(self.is_all(p) for p in parts):
                return o.elem if not isinstance(parts[0], Slice) and parts[0] is not ELLIPSIS else o
            if isinstance(o.elem, Arr) and self.is_all(parts[0]):
                return self.index(o.elem, tuple(parts[1:])) if len(parts) > 1 else o.elem
            if isinstance(o.elem, Arr):
                return self.index(o.elem, i)
            if any(isinstance(p, LoopVar) and not p.full for p in parts) and len(parts) == 1:
                return o.elem
            return Opaque("gather", (o.elem, key(tuple(parts)))).num()
        if isinstance(o, Num):
            # an array described by its generic element
            if isinstance(i, tuple) and not i:
                return o
            parts = self.split(i)
            if all(self.is_all(p) or isinstance(p, LoopVar) for p in parts):
                return o
            return Opaque("gather", (o, key(tuple(parts)))).num()
        if isinstance(o, Opaque) and o.fn == "ite" and len(o.args) == 3 and isinstance(self.const(i), str) and all(
                isinstance(x, Dict) and not x.open and self.const(i) in x for x in o.args[1:]):
            x, y = (d[self.const(i)] for d in o.args[1:])
            return x if x is y or key(x) == key(y) else Opaque("item", (o, i))
        if isinstance(o, Given) and isinstance(self.const(i), str):
            return Given(f"{o.fn}/{self.const(i)}", o.sort)
        if isinstance(o, Obj) and "__getitem__" in o.attrs:
            return o.attrs["__getitem__"].f(self, [i], {})
        if isinstance(o, (Opaque, Obj)):
            return Opaque("item", (o, i))
        raise Unsupported(f"index of {o!r}")

    def deref(self, v):
        return self.num(v) if isinstance(v, View) else v

    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return v
        if isinstance(v, (int, float)):
            try:
                return Num.const(v)
            except ValueError:
                return Opaque(repr(v))
        if v is Ellipsis:
            return ELLIPSIS
        return Opaque(repr(v))

    def name(self, n, fr):
        if n in fr.env:
            return fr.env[n]
        ent = self.proj.resolve_in_module(fr.func.module, n)
        if ent is not None:
            return self.ent(ent)
        if n == "__class__":
            return fr.func.cls
        if not hasattr(builtins, n) and isinstance(fr.func.node, ast.FunctionDef) and n in self.locals_of(fr.func):
            raise PyError("UnboundLocalError")
        return External(n)

    def locals_of(self, f):
        k = id(f.node)
        if k not in self._locals:
            self._locals[k] = (f, {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        return self._locals[k][1]

    def ent(self, ent):
        if isinstance(ent, Func):
            return Clos(ent)
        if isinstance(ent, GlobalVar):
            mod = self.proj.modules[ent.module]
            node = mod.globals.get(ent.name)
            if node is None or self.proj.global_changed(ent.module, ent.name):
                return Opaque("global", (ent.dotted,))
            f = Func("<module>", ent.module, mod, ast.parse("def f(): pass").body[0])
            try:
                return self.ev(node, Frame(f, {}))
            except Unsupported:
                return Opaque("global", (ent.dotted,))
        return ent

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.attr(self.ev(e.value, fr), e.attr, fr)

    def attr(self, o, a, fr):
        if isinstance(o, Given) and a in self.known.get(o.fn, ()):
            return self.known[o.fn][a]
        if isinstance(o, External):
            d = f"{o.dotted}.{a}"
            if d in ("numpy.pi", "math.pi"):
                return Q.PI
            if d == "numpy.newaxis":
                return None
            if a == "__name__":
                return o.dotted.split(".")[-1]
            return External(d)
        if isinstance(o, Module):
            r = self.proj.resolve_in_module(o, a)
            if r is None:
                r = self.proj.modules.get(f"{o.name}.{a}")
            return self.ent(r) if r is not None else Opaque("attr", (o.name, a))
        if isinstance(o, Class):
            f = self.proj.lookup(o, a)
            if f is not None:
                return Bound(f, o, a) if f.kind == "class" else Clos(f)
            ca = self.proj.class_attr(o, a)
            if ca is not None and ca[1] is not None:
                f = Func("<class>", o.qualname, ca[0].module, ast.parse("def f(): pass").body[0])
                return self.ev(ca[1], Frame(f, {}))
            if a == "__name__":
                return o.name
            return Opaque("attr", (o, a))
        if isinstance(o, Obj):
            if a == "__class__" and o.cls is not None:
                return o.cls
            if a in o.attrs:
                return o.attrs[a]
            f = self.proj.lookup(o.cls, a) if o.cls is not None else None
            if f is not None:
                if f.kind == "property":
                    return self.call_func(f, [], {}, self_=o)
                if f.kind == "static":
                    return Clos(f)
                return Bound(f, o if f.kind != "class" else o.cls, a)
            ca = self.proj.class_attr(o.cls, a) if o.cls is not None else None
            if ca is not None and ca[1] is not None:
                f = Func("<class>", o.cls.qualname, ca[0].module, ast.parse("def f(): pass").body[0])
                return self.ev(ca[1], Frame(f, {}))
            return Opaque("attr", (o, a))
        if isinstance(o, Super):
            f = self.proj.lookup_after(o.obj.cls, o.cls, a)
            if f is not None:
                return self.call_func(f, [], {}, self_=o.obj) if f.kind == "property" else Bound(f, o.obj, a)
            if a in o.obj.attrs:
                return o.obj.attrs[a]
            return Attr(Opaque("super"), a)
        if isinstance(o, Slice) and a in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[a]
        if isinstance(o, (Arr, Num, View)):
            if a == "T":
                if isinstance(o, Arr) and o.comps and all(isinstance(c, Arr) and c.comps is not None for c in o.comps):
                    n = len(o.comps[0].comps)
                    return Arr([Arr([r.comps[j] for r in o.comps]) for j in range(n)])
                return Opaque("transpose", (o,)) if isinstance(o, Arr) and o.comps else o
            if a == "shape":
                if isinstance(o, Arr) and o.comps is not None:
                    tail = [Num.const(len(o.comps))]
                    if isinstance(o.comps[0], Arr) and o.comps[0].comps is not None:
                        return (Num.const(len(o.comps)), Num.const(len(o.comps[0].comps)))
                    return Head(Opaque("navshape"), tail)
                return Opaque("shape", (o,))
            if a in ("size", "ndim", "dtype", "nbytes"):
                return Opaque(a, (o,)) if a == "dtype" else Num.of(Q.atom("?" + a, (key(o),), "int"))
            if a in ("real",):
                return o
            return Attr(o, a)
        if isinstance(o, (str, list, tuple, Dict, Head, Opaque)):
            return Attr(o, a)
        if isinstance(o, Clos) and a in ("py_func",):
            return o
        return Attr(o, a)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, External):
            h = self.hooks.get(o.dotted + "[]")
            return h(self, self.ev_index(e.slice, fr)) if h else Opaque("item", (o,))
        return self.index(o, self.ev_index(e.slice, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                xs = self.items(self.ev(x.value, fr))
                if xs is None:
                    raise Unsupported("starred")
                out += xs
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = Dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, fr)
                if not isinstance(x, Dict):
                    raise Unsupported("dict unpacking")
                d.update(x)
            else:
                kk = self.const(self.ev(k, fr))
                if kk is None:
                    raise Unsupported("dict key")
                d[kk] = self.ev(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                c = self.ev(v.value, fr)
                k = self.const(c) if isinstance(c, (Num, View)) else None
                if isinstance(k, int) and not isinstance(k, bool) and v.format_spec is None and v.conversion == -1:
                    c = str(k)
                parts.append(c if isinstance(c, str) else ("value", c))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Text(parts)

    def e_Lambda(self, e, fr):
        return Clos(self.proj.nested_func(fr.func, e), fr.env)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_IfExp(self, e, fr):
        tv = self.ev(e.test, fr)
        t = self.truth(tv)
        if t is not None:
            return self.ev(e.body if t else e.orelse, fr)
        return self.gate(self.cond(tv), self.ev(e.body, fr), self.ev(e.orelse, fr))

    def e_BoolOp(self, e, fr):
        vs = []
        is_and = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if t is None:
                vs.append(v)
                continue
            if t != is_and:
                if not vs:
                    return v
                return Num.const(int(t)) if False else self.boolatom(is_and, vs + [v])
            last = v
        if not vs:
            return last
        if len(vs) == 1:
            return vs[0]
        return self.boolatom(is_and, vs)

    def boolatom(self, is_and, vs):
        ns = [self.cond(v) for v in vs]
        for n in ns:
            if n.value is not None and (n.value != 0) != is_and:
                return Num.const(int(not is_and))
        ns = [n for n in ns if n.value is None]
        return Num.of(Q.atom("and" if is_and else "or", tuple(ns), "bool"))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if t is not None:
                return not t
            return Num.of(Q.atom("not", (self.cond(v),), "bool"))
        if isinstance(e.op, ast.USub):
            return self.zipmap(lambda x: x.neg(), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(v, bool):
            return not v
        return Opaque("invert", (v,))

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        a, b = (x.num() if isinstance(x, Given) else self.deref(x) for x in (a, b))
        if isinstance(op, ast.Add):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b):
                return a + b
            if isinstance(a, (str, Text)) and isinstance(b, (str, Text)) and not (
                    isinstance(a, str) and isinstance(b, str)):
                return Text((a.parts if isinstance(a, Text) else [a]) + (b.parts if isinstance(b, Text) else [b]))
            if isinstance(a, str) or isinstance(b, str):
                return a + b if isinstance(a, str) and isinstance(b, str) else Opaque("str", (a, b))
            if isinstance(b, (tuple, list)) and isinstance(a, (Opaque, Head)):
                return Head(a.head, a.tail + tuple(b)) if isinstance(a, Head) else Head(a, b)
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Opaque("str", (a,))
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple)) and isinstance(y, Num):
                    k = self.const(y)
                    if isinstance(k, int) and k < 24:
                        return x * k
                    return Opaque("repeat", (x, y))
        if isinstance(a, Opaque) and isinstance(b, Opaque) or any(
                isinstance(x, (Opaque, External, Dict, Obj, Head)) or x is None for x in (a, b)):
            if any(isinstance(x, (Arr,)) and x.comps is not None for x in (a, b)):
                pass
            elif isinstance(a, (Opaque, Num, Arr)) and isinstance(b, (Opaque, Num, Arr)) and not (
                    isinstance(a, Arr) or isinstance(b, Arr)):
                pass
            elif not (isinstance(a, (Opaque, Num, Arr)) and isinstance(b, (Opaque, Num, Arr))):
                return Opaque(type(op).__name__, (a, b))

        def f(x, y):
            if isinstance(op, ast.Add):
                return x.add(y)
            if isinstance(op, ast.Sub):
                return x.sub(y)
            if isinstance(op, ast.Mult):
                return x.mul(y)
            if isinstance(op, ast.Div):
                return x.div(y)
            if isinstance(op, ast.Pow):
                v = y.value
                if v is not None and v.denominator == 1 and abs(v) <= 12:
                    return x.pow(int(v))
                if v == Fraction(1, 2):
                    return Q.f_sqrt(x)
                return Opaque("pow", (x, y)).num()
            if isinstance(op, ast.FloorDiv):
                return Q.f_floordiv(x, y)
            if isinstance(op, ast.Mod):
                return Q.f_mod(x, y)
            return Opaque(type(op).__name__, (x, y)).num()
        try:
            return self.zipmap(f, a, b)
        except ZeroDivisionError:
            raise PyError from None

    def matmul(self, a, b):
        def vec(x):
            return isinstance(x, Arr) and x.comps is not None and not any(isinstance(c, Arr) for c in x.comps)
        def mat(x):
            return isinstance(x, Arr) and x.comps and all(isinstance(c, Arr) and c.comps is not None for c in x.comps)
        def dot(u, v):
            if len(u) != len(v):
                raise Unsupported("dot")
            t = Q.ZERO
            for x, y in zip(u, v):
                t = t.add(self.num(x).mul(self.num(y)))
            return t
        if vec(a) and mat(b):
            n = len(b.comps[0].comps)
            return Arr([dot(a.comps, [r.comps[j] for r in b.comps]) for j in range(n)])
        if mat(a) and vec(b):
            return Arr([dot(r.comps, b.comps) for r in a.comps])
        if mat(a) and mat(b):
            n = len(b.comps[0].comps)
            return Arr([Arr([dot(r.comps, [q.comps[j] for q in b.comps]) for j in range(n)]) for r in a.comps])
        if vec(a) and vec(b):
            return dot(a.comps, b.comps)
        return Opaque("matmul", (a, b))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        outs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            outs.append(self.compare(op, left, right))
            left = right
        if len(outs) == 1:
            return outs[0]
        if all(isinstance(o, bool) for o in outs):
            return all(outs)
        return self.boolatom(True, outs)

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if a is None or b is None:
                o = b if a is None else a
                if o is None:
                    return not neg
                if isinstance(o, Given) and o.sort == "array":
                    return neg
                if isinstance(o, Opaque):
                    return Num.of(Q.atom("?isnone", (key(o), neg), "bool"))
                return neg
            if isinstance(a, bool) and isinstance(b, bool):
                return (a is b) != neg
            return Num.of(Q.atom("?is", (key(a), key(b), neg), "bool"))
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, Obj) and "__contains__" in b.attrs:
                return b.attrs["__contains__"].f(self, [a], {}) != neg
            xs = self.items(b)
            if isinstance(a, str) and isinstance(b, str):
                return (a in b) != neg
            ca = self.const(a)
            if xs is not None and ca is not None:
                cs = [self.const(x) for x in xs]
                if all(c is not None for c in cs) or ca in cs:
                    return (ca in cs) != neg
            return Num.of(Q.atom("?in", (key(a), key(b), neg), "bool"))
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if isinstance(a, (str, type(None), Num, tuple, list)) and isinstance(b, (str, type(None), Num, tuple, list)):
                eq = type(a) is type(b) and a == b
                if isinstance(op, ast.Eq):
                    return eq
                if isinstance(op, ast.NotEq):
                    return not eq
            return Num.of(Q.atom("?cmp", (type(op).__name__, key(a), key(b)), "bool"))
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(op, (ast.Eq, ast.NotEq)):
            neg = isinstance(op, ast.NotEq)
            if len(a) != len(b):
                return neg
            ts = [self.compare(ast.Eq(), x, y) for x, y in zip(a, b)]
            if all(isinstance(t, bool) for t in ts):
                return all(ts) != neg
            if any(t is False for t in ts):
                return neg
        try:
            x, y = self.num(a), self.num(b)
        except Unsupported:
            if isinstance(a, Arr) or isinstance(b, Arr):
                try:
                    return self.zipmap(lambda p, q: self.cond(self.compare(op, p, q)), a, b)
                except Unsupported:
                    pass
            return Num.of(Q.atom("?cmp", (type(op).__name__, key(a), key(b)), "bool"))
        d = x.sub(y).value
        if d is not None and x.clean and y.clean:
            return {ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0, ast.Eq: d == 0,
                    ast.NotEq: d != 0}[type(op)]
        name, l, r, neg = {
            ast.Lt: ("lt", x, y, 0), ast.LtE: ("le", x, y, 0), ast.Gt: ("lt", y, x, 0), ast.GtE: ("le", y, x, 0),
            ast.Eq: ("eq", x, y, 0), ast.NotEq: ("eq", x, y, 1)}[type(op)]
        n = Num.of(Q.atom(name, (l, r), "bool"))
        return Num.of(Q.atom("not", (n,), "bool")) if neg else n

    # ----------------------------------------------------------------- comp
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_SetComp(self, e, fr):
        return self.comp(e, fr)

    def unknown(self, what):
        """A value nothing is known about, different from all others."""
        self.steps += 1
        self.serial += 1
        return Opaque(what, (f"#{self.serial}",))

    def comp(self, e, fr):
        if len(e.generators) != 1:
            return self.unknown("comp")
        g = e.generators[0]
        xs = self.items(self.ev(g.iter, fr))
        if xs is None:
            return self.unknown("comp")
        out = []
        for x in xs:
            f2 = Frame(fr.func, dict(fr.env), fr.cls)
            self.assign(g.target, x, f2)
            ts = [self.truth(self.ev(c, f2)) for c in g.ifs]
            if any(t is None for t in ts):
                return self.unknown("comp")
            if all(ts):
                out.append(self.ev(e.elt, f2))
        return out

    def e_DictComp(self, e, fr):
        g = e.generators[0]
        xs = self.items(self.ev(g.iter, fr))
        if xs is None or len(e.generators) != 1:
            return self.unknown("comp")
        d = Dict()
        for x in xs:
            f2 = Frame(fr.func, dict(fr.env), fr.cls)
            self.assign(g.target, x, f2)
            ts = [self.truth(self.ev(c, f2)) for c in g.ifs]
            if any(t is None for t in ts):
                raise Unsupported("comprehension test")
            if all(ts):
                k = self.const(self.ev(e.key, f2))
                if k is None:
                    raise Unsupported("dict key")
                d[k] = self.ev(e.value, f2)
        return d

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.env:
            o = fr.env.get(fr.func.params[0].name) if fr.func.cls is not None and fr.func.params and not e.args else None
            if isinstance(o, Obj) and o.cls is not None:
                return Super(o, fr.func.cls)
            return Opaque("super")
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                xs = self.items(self.ev(a.value, fr))
                if xs is None:
                    if isinstance(f, (External, Attr)):
                        args.append(Opaque("star", (self.ev(a.value, fr),)))
                        continue
                    raise Unsupported("starred argument")
                args += xs
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, Dict):
                    if isinstance(f, (External, Attr)):
                        kwargs["**"] = v
                        continue
                    raise Unsupported("keyword unpacking")
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, fr)

    def call(self, f, args, kwargs, fr):
        if isinstance(f, Clos):
            if f.func.cls is not None and f.func.parent is None and f.func.kind in ("method", "property") and args:
                return self.call_func(f.func, args[1:], kwargs, self_=args[0])
            return self.call_func(f.func, args, kwargs, env=f.env)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if f.func is not None:
                return self.call_func(f.func, args, kwargs, self_=f.self)
            return self.method(f.self, f.name, args, kwargs, fr)
        if isinstance(f, Attr):
            return self.method(f.self, f.name, args, kwargs, fr)
        if isinstance(f, Class):
            return self.construct(f, args, kwargs)
        if isinstance(f, Fn):
            return f.f(self, args, kwargs)
        if isinstance(f, External):
            return self.external(f.dotted, args, kwargs, fr)
        if isinstance(f, Opaque) and f.fn == "ite" and all(
                isinstance(x, (Clos, Func, Bound)) for x in f.args[1:]):
            # arguments are shared by the two: neither changes them
            x = self.call(f.args[1], args, kwargs, fr)
            y = self.call(f.args[2], args, kwargs, fr)
            return self.gate(f.args[0], x, y)
        return Opaque("call", (f, tuple(args), Dict(kwargs)))

    def construct(self, c: Class, args, kwargs):
        o = Obj(c, "")
        init = self.proj.lookup(c, "__init__")
        if init is None:
            return Opaque("new", (c, tuple(args), Dict(kwargs)))
        self.call_func(init, args, kwargs, self_=o)
        return o

    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, (Arr, Num)):
            if name in IDENTITY_METHODS:
                return self.copyv(o)
            if name == "reshape":
                return self.reshape(o, args[0] if len(args) == 1 else tuple(args))
            if name == "transpose":
                return self.attr(o, "T", fr) if not args else Opaque("transpose", (o, tuple(args)))
            return self.external("numpy." + name, [o] + args, kwargs, fr)
        if isinstance(o, Given) and name == "get" and args and isinstance(self.const(args[0]), str):
            return Given(f"{o.fn}/{self.const(args[0])}", o.sort)
        if isinstance(o, str):
            cs = [self.const(a) for a in args]
            if all(isinstance(c, (str, int)) for c in cs) and name in (
                    "lower", "upper", "strip", "startswith", "endswith", "replace", "split", "isdigit", "title",
                    "lstrip", "rstrip", "removeprefix", "removesuffix", "capitalize", "splitlines"):
                r = getattr(o, name)(*cs)
                return r
            return Opaque("str", (o, name, tuple(args)))
        if isinstance(o, Dict):
            if name == "items":
                return [(k, v) for k, v in o.items()]
            if name == "keys":
                return list(o)
            if name == "values":
                return list(o.values())
            if name in ("get", "pop"):
                k = self.const(args[0])
                if k is not None and (k in o or not o.open):
                    v = o.get(k, args[1] if len(args) > 1 else None)
                    if name == "pop":
                        o.pop(k, None)
                    return v
            if name == "update":
                for x in args:
                    if not isinstance(x, Dict) or x.open:
                        for k in o:
                            o[k] = self.unknown("maybe")
                        o.open = True
                    if isinstance(x, Dict):
                        o.update(x)
                o.update(kwargs)
                return None
            if name == "copy":
                return Dict(o)
            if name == "setdefault":
                k = self.const(args[0])
                if k is not None and not o.open:
                    return o.setdefault(k, args[1] if len(args) > 1 else None)
            if name in ("get", "pop", "setdefault") and (o.open or name == "get"):
                return self.unknown("item")
            raise Unsupported(f"dict.{name}")
        if isinstance(o, KnownSet) and name == "add":
            if self.const(args[0]) is None:
                raise Unsupported("set member")
            if self.const(args[0]) not in [self.const(y) for y in o]:
                o.insert(0, args[0])
            return None
        if isinstance(o, list):
            if name == "append":
                o.append(args[0])
                return None
            if name == "extend":
                xs = self.items(args[0])
                if xs is None:
                    raise Unsupported("extend")
                o.extend(xs)
                return None
            if name == "copy":
                return list(o)
            if name == "pop" and not isinstance(o, KnownSet):
                k = self.const(args[0]) if args else -1
                if isinstance(k, int) and -len(o) <= k < len(o):
                    return o.pop(k)
                if isinstance(k, int):
                    raise PyError
            if name == "insert":
                k = self.const(args[0])
                if isinstance(k, int):
                    o.insert(k, args[1])
                    return None
        if isinstance(o, (list, tuple)):
            if name == "index":
                c = self.const(args[0])
                cs = [self.const(x) for x in o]
                if c in cs:
                    return Num.const(cs.index(c))
            if name == "remove":
                c = self.const(args[0])
                cs = [self.const(x) for x in o]
                if c is not None and c in cs:
                    o.pop(cs.index(c))
                    return None
                if c is not None and all(x is not None for x in cs):
                    raise PyError
            raise Unsupported(f"{name} of a sequence")
        if name == "to_matrix" and not args:
            m = matrix_of(o)
            if m is not None:
                return m
        return Opaque("method", (o, name, tuple(args), Dict(kwargs)))

    def reshape(self, o, shape):
        if isinstance(o, Arr) and o.comps is not None:
            tail = None
            if isinstance(shape, (tuple, list)) and shape:
                tail = self.const(shape[-1])
            elif isinstance(shape, Head) and shape.tail:
                tail = self.const(shape.tail[-1])
            if tail == len(o.comps):
                return Arr(list(o.comps))
            return Opaque("reshape", (o, shape))
        return self.copyv(o)

    def shape_arr(self, shape, fill):
        n = self.const(shape) if isinstance(shape, Num) else None
        if isinstance(n, int) and 1 < n <= 16:
            return Arr([fill] * n)
        if isinstance(shape, (Num, View, Opaque, LoopVar)):
            return Arr(elem=fill)
        tail = shape.tail if isinstance(shape, Head) else shape
        if isinstance(tail, (list, tuple)) and tail:
            ks = [self.const(x) for x in tail]
            if isinstance(fill, Arr):
                if fill.comps is not None and len(fill.comps) == ks[-1] and not any(isinstance(c, Arr) for c in fill.comps):
                    return Arr(list(fill.comps), lead=len(ks) > 1)
                raise Unsupported("array filled with an array")
            if isinstance(ks[-1], int) and ks[-1] <= 16 and (len(ks) > 1 or isinstance(shape, Head)):
                if len(ks) == 2 and isinstance(ks[0], int) and ks[0] <= 16 and not isinstance(shape, Head):
                    return Arr([Arr([fill] * ks[1]) for _ in range(ks[0])])
                return Arr([fill] * ks[-1])
        return Arr(elem=fill)

    def external(self, d, args, kwargs, fr):
        h = self.hooks.get(d)
        if h is not None:
            return h(self, args, kwargs, None)
        short = d.split(".")[-1]
        if d.startswith(("time.", "random.", "numpy.random.", "datetime.")):
            return self.unknown(d)
        np_ = d.startswith(("numpy.", "dask.array.", "math."))
        if d in ("float",) and args and isinstance(args[0], str):
            try:
                return Num.const(Fraction(args[0].strip()))
            except (ValueError, ZeroDivisionError):
                try:
                    float(args[0])
                except ValueError:
                    raise PyError(f"float({args[0]!r})") from None
                return Opaque("float", (args[0],))
        if d in IDENTITY_CALLS:
            if not args:
                return Num.const(0) if d == "float" else Opaque("call", (d, tuple(args), Dict(kwargs)))
            a = args[0]
            if short == "reshape":
                return self.reshape(a, args[1])
            if isinstance(a, (list, tuple)):
                if d.startswith("copy."):
                    return copy.deepcopy(a, self.memo_atoms())
                try:
                    return Arr([self.to_scalar(x) for x in a])
                except Unsupported:
                    return Opaque("call", (d, tuple(args)))
            if isinstance(a, (Num, View, LoopVar, bool)):
                return self.num(a)
            if isinstance(a, Arr):
                r = self.copyv(a)
                if short in ("atleast_2d", "atleast_3d") and r.comps is not None and not any(
                        isinstance(c, Arr) for c in r.comps):
                    r.lead = True
                return r
            if isinstance(a, Obj) and d.startswith("copy."):
                return copy.deepcopy(a, self.memo_atoms())
            return a if isinstance(a, Opaque) else Opaque("call", (d, tuple(args)))
        if short in ("int", "int64", "int32", "intp", "uint8", "uint16") and (np_ or d == "int"):
            a = args[0] if args else Num.const(0)
            if isinstance(a, str):
                try:
                    return Num.const(int(a))
                except ValueError:
                    raise PyError from None
            return self.zipmap(Q.f_int, a)
        if d == "bool":
            t = self.truth(args[0])
            return t if t is not None else self.cond(args[0])
        if np_ and short in NP_FUNCS:
            return self.zipmap(Q.FUNCS[NP_FUNCS[short]], *args[: 2 if short in (
                "mod", "remainder", "arctan2", "minimum", "maximum", "fmin", "fmax") else 1])
        if d in ("abs", "round"):
            if len(args) == 1:
                return self.zipmap(Q.FUNCS[d], args[0])
        if np_ and short in NP_BIN:
            return self.binop(NP_BIN[short](), args[0], args[1])
        if np_ and short == "square":
            return self.binop(ast.Mult(), args[0], args[0])
        if np_ and short == "negative":
            return self.zipmap(lambda x: x.neg(), args[0])
        if np_ and short in ("deg2rad", "radians"):
            return self.zipmap(lambda x: x.mul(Q.PI).div(Num.const(180)), args[0])
        if np_ and short in ("rad2deg", "degrees"):
            return self.zipmap(lambda x: x.mul(Num.const(180)).div(Q.PI), args[0])
        if np_ and short in ("zeros", "ones", "empty", "full"):
            sh = args[0] if args else kwargs.get("shape")
            fill = {"zeros": Q.ZERO, "ones": Q.ONE}.get(short)
            dt = kwargs.get("dtype", args[1] if len(args) > 1 and short != "full" else None)
            if short in ("zeros", "ones") and isinstance(dt, External) and dt.dotted.split(".")[-1] in ("bool", "bool_"):
                return Given("all" if short == "ones" else "none", "array")  # a mask
            if short == "full":
                fill = self.to_scalar(args[1] if len(args) > 1 else kwargs["fill_value"])
            if fill is None:
                fill = Opaque("empty").num()
            return self.shape_arr(sh, fill)
        if np_ and short in ("zeros_like", "ones_like", "empty_like", "full_like"):
            fill = Q.ONE if short == "ones_like" else Q.ZERO
            if short == "full_like":
                fill = self.to_scalar(args[1] if len(args) > 1 else kwargs["fill_value"])
            a = args[0]
            if isinstance(a, Arr) and a.comps is not None:
                if any(isinstance(c, Arr) for c in a.comps):
                    return Arr([self.external(d, [c], kwargs, fr) for c in a.comps])
                return Arr([fill] * len(a.comps))
            return Arr(elem=fill)
        if np_ and short in ("eye", "identity"):
            k = self.const(args[0])
            if isinstance(k, int) and k <= 8:
                return Arr([Arr([Q.ONE if i == j else Q.ZERO for j in range(k)]) for i in range(k)])
        if np_ and short == "arange":
            a = [self.num(x) for x in args[:3]]
            lo, st = (a[0], Q.ONE) if len(a) == 2 else (a[0], a[2]) if len(a) == 3 else (Q.ZERO, Q.ONE)
            return Arr(elem=lo.add(Opaque("position", tuple(a)).num().mul(st)), arange=(lo, st))
        if np_ and short in ("stack", "dstack", "column_stack", "vstack", "hstack", "concatenate"):
            return self.stack(short, args, kwargs)
        if np_ and short in ("dot", "matmul"):
            return self.matmul(self.deref(args[0]), self.deref(args[1]))
        if np_ and short == "cross":
            a, b = (self.as_vec(x, 3) for x in args[:2])
            if a and b:
                p = lambda i, j: a[i].mul(b[j]).sub(a[j].mul(b[i]))  # noqa: E731
                return Arr([p(1, 2), p(2, 0), p(0, 1)])
        if np_ and short == "norm" or d == "numpy.linalg.norm":
            return Q.f_sqrt(self.reduce_sum(self.binop(ast.Mult(), args[0], args[0]), kwargs, args[1:]))
        if np_ and short in ("sum", "nansum"):
            return self.reduce_sum(args[0], kwargs, args[1:], d)
        if np_ and short in ("max", "min", "amax", "amin", "nanmax", "nanmin") or d in ("max", "min"):
            return self.extreme("max" if "max" in short else "min", args, kwargs, d)
        if np_ and short == "diff":
            a = self.deref(args[0])
            ax = self.const(kwargs.get("axis", Num.const(-1)))
            if isinstance(a, Arr) and a.comps is not None and ax == -1 and len(args) == 1:
                c = a.comps
                return Arr([self.num(c[i + 1]).sub(self.num(c[i])) for i in range(len(c) - 1)])
        if np_ and short == "prod" or d == "math.prod":
            xs = self.items(args[0]) if not kwargs else None
            if xs is not None:
                t = Q.ONE
                for x in xs:
                    t = t.mul(self.num(x))
                return t
        if np_ and short == "delete" and len(args) == 2:
            xs, k = self.items(args[0]), self.const(args[1])
            if xs is not None and isinstance(k, int) and -len(xs) <= k < len(xs):
                return Arr([self.to_scalar(x) for j, x in enumerate(xs) if j != k % len(xs)])
        if np_ and short == "append" and len(args) == 2 and not kwargs:
            xs, ys = self.items(args[0]), self.items(args[1]) if not isinstance(args[1], Num) else [args[1]]
            if xs is not None and ys is not None:
                return Arr([self.to_scalar(x) for x in [*xs, *ys]])
        if np_ and short == "repeat" and len(args) == 2 and not kwargs:
            xs, k = self.items(args[0]), self.const(args[1])
            if xs is not None and isinstance(k, int):
                return Arr([self.to_scalar(x) for x in xs for _ in range(k)])
        if np_ and short == "where" and len(args) == 3:
            c = args[0]
            return self.gate_arr(c, args[1], args[2])
        if np_ and short == "flip" or d == "reversed":
            xs = self.items(args[0]) if d == "reversed" else None
            if xs is not None:
                return xs[::-1]
        if d == "range" or short == "prange":
            return Opaque("range", tuple(args))
        if d in ("enumerate", "zip"):
            return Opaque(d, tuple(args))
        if d in ("list", "tuple"):
            if not args:
                return [] if d == "list" else ()
            if isinstance(args[0], Head):
                return args[0]
            xs = self.items(args[0])
            if xs is not None:
                return list(xs) if d == "list" else tuple(xs)
            return Opaque(d, tuple(args))
        if d == "dict":
            if not args:
                return Dict(kwargs)
            if isinstance(args[0], Dict):
                return Dict({**args[0], **kwargs})
            xs = self.items(args[0])
            if xs is not None and all(isinstance(x, (list, tuple)) and len(x) == 2 and self.const(x[0]) is not None for x in xs):
                return Dict({**{self.const(k): v for k, v in xs}, **kwargs})
        if d == "len":
            xs = self.items(args[0])
            if xs is not None and not (isinstance(args[0], Arr) and not isinstance(args[0].comps[0], Arr)):
                return Num.const(len(xs))
            return Num.of(Q.atom("?len", (key(args[0]),), "int"))
        if d in ("all", "any"):
            xs = self.items(args[0])
            if xs is not None:
                ts = [self.truth(x) for x in xs]
                if d == "all" and False in ts or d == "any" and True in ts:
                    return d == "any"
                if None not in ts:
                    return d == "all"
                return self.boolatom(d == "all", [x for x, t in zip(xs, ts) if t is None])
        if d == "sum" and args:
            xs = self.items(args[0])
            if xs is not None:
                t = self.num(args[1]) if len(args) > 1 else Q.ZERO
                for x in xs:
                    t = t.add(self.num(x))
                return t
        if d == "isinstance":
            return self.isinst(args[0], args[1])
        if d == "slice" and 1 <= len(args) <= 3 and not kwargs:
            lo, hi, st = (None, args[0], None) if len(args) == 1 else (list(args) + [None])[:3]
            return Slice(lo, hi, st)
        if d == "hasattr" and len(args) == 2 and isinstance(args[1], str):
            x = args[0]
            if isinstance(x, (str, list, tuple, dict)):
                return hasattr(x, args[1])
            if isinstance(x, (Num, bool)) and args[1] in ("__iter__", "__len__", "__getitem__"):
                return False
            if isinstance(x, Arr) and args[1] in ("__iter__", "__len__", "__getitem__", "shape", "ndim", "dtype"):
                return True
        if d == "hasattr":
            return Opaque("hasattr", tuple(args)).num()
        if d == "getattr":
            n = self.const(args[1])
            if isinstance(n, str):
                return self.attr(args[0], n, fr)
        if d == "set" and len(args) < 2:
            xs = self.items(args[0]) if args else []
            if xs is not None and all(self.const(x) is not None for x in xs):
                out = KnownSet()
                for x in xs:
                    if self.const(x) not in [self.const(y) for y in out]:
                        out.insert(0, x)
                return out
        if d == "map" and len(args) == 2:
            xs = self.items(args[1])
            if xs is not None:
                return [self.call(args[0], [x], {}, fr) for x in xs]
        if d == "sorted":
            xs = self.items(args[0])
            if xs is not None and not kwargs:
                cs = [self.const(x) for x in xs]
                if all(c is not None for c in cs):
                    return [x for _, x in sorted(zip(cs, xs), key=lambda t: t[0])]
        if d in ("typing.get_args", "typing_extensions.get_args"):
            return Opaque("get_args", tuple(args))
        if d == "str":
            c = self.const(args[0]) if args else ""
            return c if isinstance(c, str) else Opaque("str", tuple(args))
        if d == "type":
            return args[0].cls if isinstance(args[0], Obj) and args[0].cls else Opaque("type", tuple(args))
        if short == "warn":
            return None
        return Opaque("call", (d, tuple(args), Dict(kwargs)))

    def gate_arr(self, c, a, b):
        t = self.truth(c) if not isinstance(c, Arr) else None
        if t is not None:
            return a if t else b
        return self.zipmap(lambda k, x, y: x if x.eq(y) else Num.of(Q.atom("ite", (k, x, y))), c, a, b)

    def as_vec(self, x, n):
        x = self.deref(x)
        if isinstance(x, (list, tuple)):
            x = Arr([self.to_scalar(v) for v in x])
        if isinstance(x, Arr) and x.comps is not None and len(x.comps) == n and not any(
                isinstance(c, Arr) for c in x.comps):
            return [self.num(c) for c in x.comps]
        return None

    def stack(self, short, args, kwargs):
        xs = self.items(args[0])
        if xs is None:
            return Opaque(short, (args[0], Dict(kwargs)))
        xs = [x.num() if isinstance(x, Given) else self.deref(x) for x in xs]
        ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
        if ax is not None and self.const(ax) is None:
            return Opaque(short, (tuple(xs), Dict(kwargs)))
        ax = self.const(ax) if ax is not None else None
        scal = all(isinstance(x, Num) or (isinstance(x, Arr) and x.comps is None) for x in xs)
        if short in ("dstack", "column_stack") and scal or short == "stack" and ax == -1 and scal:
            return Arr([self.num(x) for x in xs])
        if short in ("hstack", "concatenate") and (short == "hstack" or ax == -1 or ax is None):
            vecs = [Arr([self.num(x)]) if isinstance(x, Num) and short == "hstack" else x for x in xs]
            if all(isinstance(x, Arr) and x.comps is not None for x in vecs):
                return Arr([c for x in vecs for c in x.comps])
            if all(isinstance(x, (list, tuple, Arr)) for x in vecs):
                out = []
                for x in vecs:
                    its = self.items(x)
                    if its is None:
                        return Opaque(short, (tuple(xs), Dict(kwargs)))
                    out += [self.to_scalar(v) for v in its]
                return Arr(out)
        if short in ("stack", "vstack") and ax in (None, 0):
            if all(isinstance(x, Arr) and x.comps is not None for x in xs):
                return Arr([self.copyv(x) for x in xs])
            if scal and short == "stack":
                return Arr([self.num(x) for x in xs])
        return Opaque(short, (tuple(xs), Dict(kwargs)))

    def reduce_sum(self, a, kwargs, rest=(), d="sum"):
        a = self.deref(a)
        ax = kwargs.get("axis", rest[0] if rest else None)
        c = self.const(ax) if ax is not None else None
        if isinstance(a, (list, tuple)):
            a = Arr([self.to_scalar(x) for x in a])
        if isinstance(a, Arr) and a.comps is not None and not any(isinstance(x, Arr) for x in a.comps):
            if c in (-1, 1) or (ax is None and d == "sum") or c == 0 and False:
                t = Q.ZERO
                for x in a.comps:
                    t = t.add(self.num(x))
                return t
        return Opaque("call", (d, a, Dict(kwargs), tuple(rest)))

    def extreme(self, fn, args, kwargs, d):
        xs = None
        if d in ("max", "min"):
            xs = list(args) if len(args) > 1 else self.items(args[0])
            if kwargs:
                xs = None
        else:
            ax = kwargs.get("axis", args[1] if len(args) > 1 else None)
            a = self.deref(args[0])
            if isinstance(a, (list, tuple)):
                xs = list(a)
            elif isinstance(a, Arr) and a.comps is not None and ax is not None and self.const(ax) == -1:
                xs = a.comps
            elif isinstance(a, Arr) and a.comps is not None and ax is None and not any(
                    isinstance(c, Arr) for c in a.comps):
                return Opaque("call", (d, a, Dict(kwargs)))
        if xs is not None:
            try:
                return Q.FUNCS[fn](*[self.num(x) for x in xs])
            except Unsupported:
                pass
        return Opaque("call", (d, tuple(args), Dict(kwargs)))

    def isinst(self, v, c):
        v = self.deref(v)
        cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
        names = {x.dotted.split(".")[-1] if isinstance(x, External) else x.name if isinstance(x, Class) else "?" for x in cs}
        num = names & {"Number", "Real", "Integral", "int", "float", "integer", "floating", "Complex"}
        if isinstance(v, bool):
            return bool(names & {"bool", "int"})
        if isinstance(v, LoopVar):
            v = v.num
        if isinstance(v, Num):
            if names & {"Number", "Real", "Complex"}:
                return True
            if names & {"int", "integer", "Integral"} and Q.is_int(v):
                return True
            if names & {"float", "floating"} and not Q.is_int(v):
                return True
            if names <= {"int", "integer", "Integral"} and v.clean:
                return False
            if not num and names <= {"str", "list", "tuple", "dict", "Iterable", "Path", "slice"}:
                return False
            if v.value is not None and not num and names <= {
                    "str", "list", "tuple", "dict", "Iterable", "Path", "slice", "ndarray", "Array", "Sequence"}:
                return False
        if isinstance(v, Given) and v.sort == "array":
            if names & {"ndarray", "Iterable"}:
                return True
            if names <= {"str", "int", "float", "dict", "Number", "list", "tuple", "Path", "integer", "bool"}:
                return False
        if isinstance(v, (list, tuple)):
            if names & {"Iterable", "Sequence", type(v).__name__}:
                return True
            if names <= {"str", "int", "float", "dict", "Number", "ndarray", "integer", "list", "tuple", "Path"}:
                return False
        if isinstance(v, str):
            if names & {"str", "Iterable"}:
                return True
            return False
        if v is None:
            return False
        if isinstance(v, Arr):
            if names & {"ndarray", "Iterable"}:
                return True
            if names <= {"str", "int", "float", "dict", "Number", "list", "tuple", "Path", "integer"}:
                return False
        if isinstance(v, Obj) and v.cls is not None:
            for x in cs:
                if isinstance(x, Class) and x in self.proj.mro(v.cls):
                    return True
            if all(isinstance(x, Class) for x in cs) or names <= {"str", "int", "float", "dict", "Number", "list", "tuple"}:
                return False
        return Opaque("isinstance", (v, key(tuple(sorted(names))))).num()


def matrix_of(o):
    """The matrix of a rotation made from a matrix, inverted any number of
    times."""
    flip = False
    while isinstance(o, Opaque):
        if o.fn == "invert":
            flip = not flip
            o = o.args[0]
        elif o.fn == "method" and o.args[1] in ("inv", "invert", "inverse") and not o.args[2]:
            flip = not flip
            o = o.args[0]
        elif o.fn == "call" and str(o.args[0]).endswith("Rotation.from_matrix") and o.args[1]:
            m = o.args[1][0]
            if isinstance(m, Arr) and m.comps and all(isinstance(r, Arr) and r.comps for r in m.comps):
                if flip:
                    return Arr([Arr([r.comps[i] for r in m.comps]) for i in range(len(m.comps[0].comps))])
                return m
            return None
        else:
            return None
    return None


class PyError(Exception):
    """The described expression raises at run time."""


class BreakLoop(Exception):
    pass


def same_obj(a, b):
    return type(a) is type(b) and isinstance(a, (Arr, Obj, Dict, list))


def has_exit(stmts):
    for s in stmts:
        for n in walk_local(s):
            if isinstance(n, (ast.Return, ast.Raise)):
                return True
    return False


def has_break(stmts):
    for s in stmts:
        for n in walk_local(s):
            if isinstance(n, ast.Break):
                return True
    return False


def walk_local(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            yield from walk_local(c)


def has_continue(stmts):
    for s in stmts:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, ast.If) and (has_continue(s.body) or has_continue(s.orelse)):
            return True
    return False


def drop_continue(body):
    """The loop body with what follows a `continue` moved to the other side
    of its test."""
    if not has_continue(body):
        return body
    for i, s in enumerate(body):
        if isinstance(s, ast.Continue):
            return list(body[:i])
        if isinstance(s, ast.If) and (has_continue(s.body) or has_continue(s.orelse)):
            rest = list(body[i + 1 :])
            new = ast.If(s.test, drop_continue(list(s.body) + rest), drop_continue(list(s.orelse) + rest))
            return list(body[:i]) + [ast.copy_location(new, s)]
    return body


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for n in walk_local(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


def reads_before_write(stmts, name):
    """Whether `name` may be read before it is assigned in the body."""
    for s in stmts:
        order = list(ordered(s))
        for kind, n in order:
            if n == name:
                return kind == "r"
    return False


def ordered(n):
    """Reads and writes of names in rough evaluation order; conditional
    statements' writes do not count as definite."""
    if isinstance(n, ast.Assign):
        yield from ordered(n.value)
        for t in n.targets:
            yield from ordered(t)
    elif isinstance(n, ast.AugAssign):
        yield from ordered(n.value)
        if isinstance(n.target, ast.Name):
            yield "r", n.target.id
        yield from ordered(n.target)
    elif isinstance(n, ast.If):
        yield from ordered(n.test)
        a = [x for s in n.body for x in ordered(s)]
        b = [x for s in n.orelse for x in ordered(s)]
        wa = {x for k, x in a if k == "w"}
        wb = {x for k, x in b if k == "w"}
        for lst, w in ((a, wa), (b, wb)):
            seen = set()
            for k, x in lst:
                if k == "w":
                    seen.add(x)
                    if x not in (wa & wb):
                        yield "r", x  # may keep its old value
                elif x not in seen:
                    yield k, x
        for x in wa & wb:
            yield "w", x
    elif isinstance(n, ast.Name):
        yield ("w" if isinstance(n.ctx, ast.Store) else "r"), n.id
    else:
        for c in ast.iter_child_nodes(n):
            yield from ordered(c)
