"""Arrays with named axes for the value numbering.

An array is described by the value of its generic element, a normal form in
which the symbols of the input arrays vary along named axes, and by the order
of its axes.  Element-wise operations broadcast by matching axes from the
last one, reductions become sums or extremes over named axes, selections
with a mask weigh an axis.  Nothing is said about particular lengths.
"""

from __future__ import annotations

import ast
from fractions import Fraction

from . import poly as Q
from .alg import (
    ELLIPSIS, Alg, Arr, Attr, Dict, External, Given, LoopVar, Opaque, PyError, Slice, Unsupported, View, assigned_names,
    key, reads_before_write,
)
from .poly import Num, sym


class Axis:
    """An axis: the named axes merged into it (none for length one) and the
    mask selecting part of it."""

    __slots__ = ("names", "mask")

    def __init__(self, *names, mask=None):
        self.names, self.mask = tuple(names), mask

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "*".join(self.names) + ("?" if self.mask is not None else "") or "1"

    def same(self, o):
        return self.names == o.names and (self.mask is None) == (o.mask is None) and (
            self.mask is None or self.mask.eq(o.mask))

    @property
    def length(self):
        if self.mask is not None:
            return Q.f_rsum(self.names, self.mask)
        n = Q.ONE
        for x in self.names:
            n = n.mul(sym(x, "int"))
        return n

    def structure(self):
        return ("axis", self.names, self.mask)


class DType(Opaque):
    """A data type known by name."""

    def __init__(self, name):
        super().__init__("dtype:" + name)
        self.name = name

    def __deepcopy__(self, memo):
        return self


KINDS = {"b": ("bool",), "i": ("int8", "int16", "int32", "int64"), "u": ("uint8", "uint16", "uint32", "uint64"),
         "f": ("float16", "float32", "float64"), "c": ("complex64", "complex128")}
ABSTRACT = {"integer": "iu", "signedinteger": "i", "unsignedinteger": "u", "floating": "f", "complexfloating": "c", "inexact": "fc",
            "number": "iufc", "bool": "b", "generic": "biufc"}


def kind(name):
    """Kind and size in bytes of a data type."""
    name = {"int": "int64", "float": "float64", "uint": "uint64", "complex": "complex128", "double": "float64",
            "single": "float32"}.get(name, name)
    for k, names in KINDS.items():
        if name in names:
            return k, int(name.lstrip("abcdefghijklmnopqrstuvwxyz") or 8) // 8
    return None


def can_cast(a, b, how):
    (ka, na), (kb, nb) = a, b
    if how == "unsafe":
        return True
    if how in ("no", "equiv"):
        return a == b
    if how == "same_kind":
        return "buifc".index(ka) <= "buifc".index(kb)
    if how != "safe":
        return None
    if ka == kb:
        return na <= nb
    if ka == "b":
        return True
    if ka == "u" and kb == "i":
        return na < nb
    if ka in "iu" and kb in "fc":
        return min(2 * na, 8) <= (nb if kb == "f" else nb // 2)
    return ka == "f" and kb == "c" and 2 * na <= nb


FLOATS = {"float", "float32", "float64", "float16", "floating"}


class OtherAxis(Unsupported):
    pass


class Ten:
    __slots__ = ("axes", "elem", "dtype")

    def __init__(self, axes, elem, dtype=None):
        self.axes = tuple(a if isinstance(a, Axis) else Axis(a) for a in axes)
        self.elem, self.dtype = elem, dtype

    def __repr__(self):
        return f"Ten{list(self.axes)}[{self.elem!r}]"

    def structure(self):
        return ("ten", tuple(a.structure() for a in self.axes), self.elem)

    def copy(self):
        return Ten(self.axes, self.elem, self.dtype)


def array(name, axes, dtype=None, sort="real"):
    return Ten(axes, Q.array_sym(name, [n for a in axes for n in (a.names if isinstance(a, Axis) else (a,))], sort), dtype)


def broadcast(*tens):
    n = max(len(t.axes) for t in tens)
    out = []
    for i in range(n):
        cur = None
        for t in tens:
            j = i - (n - len(t.axes))
            if j < 0:
                continue
            a = t.axes[j]
            if cur is None or not cur.names:
                cur = a
            elif a.names and not a.same(cur):
                raise PyError(f"shapes ({', '.join(map(repr, tens[0].axes))}) and ({', '.join(map(repr, tens[-1].axes))})"
                              if len(tens) == 2 else "shapes")
        out.append(cur)
    return tuple(out)


NEW_ARRAY = {  # array-to-array functions that stay unknown: names of their parameters
    "scipy.ndimage.gaussian_filter": ("input", "sigma", "order", "output", "mode", "cval", "truncate"),
    "scipy.ndimage.correlate": ("input", "weights", "output", "mode", "cval", "origin"),
    "scipy.ndimage.convolve": ("input", "weights", "output", "mode", "cval", "origin"),
    "scipy.fft.fft2": ("x", "s", "axes", "norm"), "scipy.fft.ifft2": ("x", "s", "axes", "norm"),
    "scipy.fft.rfft2": ("x", "s", "axes", "norm"), "scipy.fft.irfft2": ("x", "s", "axes", "norm"),
    "numpy.fft.fft2": ("x", "s", "axes", "norm"),
    "scipy.fft.fftshift": ("x", "axes"), "scipy.fft.ifftshift": ("x", "axes"),
    "skimage.exposure.equalize_adapthist": ("image", "kernel_size", "clip_limit", "nbins"),
    "numpy.nanpercentile": ("a", "q"), "numpy.percentile": ("a", "q"),
}
DEFAULTS = {"order": Q.ZERO, "output": None, "mode": "reflect", "cval": Q.ZERO, "truncate": Num.const(4), "origin": Q.ZERO,
            "s": None, "axes": None, "norm": None}
_arrays: dict = {}


def nearly(a, b):
    """Not known to be different."""
    if isinstance(a, Num) and isinstance(b, Num):
        return a.eq(b) or Q.differ(a, b) is None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(nearly(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def unknown_array(name, args, axes, dtype=None, tag=""):
    """The array an unknown function gives for these arguments."""
    k = key(tuple(args))
    known = _arrays.setdefault(name + tag, [])
    for i, old in enumerate(known):
        if nearly(old, k):
            break
    else:
        known.append(k)
        i = len(known) - 1
    return array(f"{name}{tag}#{i + 1}", axes, dtype)


UNKNOWN_REDUCTIONS = ("median", "nanmedian", "prod", "nanprod", "argmin", "argmax")


class TAlg(Alg):
    """Value numbering with named axes."""

    def __init__(self, proj, hooks=None):
        base = {"skimage.util.dtype.dtype_range[]": TAlg.dtype_range, "skimage.util.dtype_range[]": TAlg.dtype_range}
        super().__init__(proj, {**base, **(hooks or {})})

    # --------------------------------------------------------------- dtypes
    def dtype_range(self, i):
        d = self.dtype_name(i)
        if d is None:
            raise Unsupported("range of unknown data type")
        return (sym(f"lowest({d})"), sym(f"highest({d})"))

    def dtype_name(self, d):
        if isinstance(d, DType):
            return d.name
        if isinstance(d, External) and d.dotted.split(".")[0] in ("numpy", "builtins", "float", "int", "bool", "complex", "dask"):
            return d.dotted.split(".")[-1].rstrip("_")
        if isinstance(d, str):
            return d
        if d is None:
            return "float64"
        return None

    def cast(self, t, d):
        name = self.dtype_name(d)
        if name is None:
            return Opaque("astype", (t, d))
        if isinstance(t, Num):
            return t if name in FLOATS else Q.f_cast(name, t)
        if name in FLOATS or (t.dtype is not None and name == self.dtype_name(t.dtype)):
            return Ten(t.axes, t.elem, DType(name))
        return Ten(t.axes, Q.f_cast(name, t.elem), DType(name))

    # -------------------------------------------------------------- basics
    def num(self, v):
        if isinstance(v, Ten):
            if any(a.names for a in v.axes):
                raise Unsupported("number expected, got an array")
            return v.elem
        return super().num(v)

    def zipmap(self, f, *vs):
        if not any(isinstance(v, Ten) for v in vs):
            return super().zipmap(f, *vs)
        tens = []
        for v in vs:
            if isinstance(v, View):
                v = self.num(v)
            if isinstance(v, Ten):
                tens.append(v)
            elif isinstance(v, (Num, bool, LoopVar, Opaque)):
                tens.append(Ten((), self.num(v)))
            elif isinstance(v, Arr) and v.comps is not None and len(v.comps) == 1:
                tens.append(Ten((), self.num(v)))
            else:
                raise Unsupported(f"array combined with {type(v).__name__}")
        axes = broadcast(*tens)
        return Ten(axes, f(*[t.elem for t in tens])) if axes else f(*[t.elem for t in tens])

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Ten) or isinstance(b, Ten):
            if isinstance(op, ast.MatMult):
                return self.tensordot(a, b)
            if any(isinstance(x, Opaque) and not isinstance(x, Given) for x in (a, b)):
                raise Unsupported("array combined with an unknown value")
            if isinstance(op, (ast.BitAnd, ast.BitOr)):
                return self.zipmap(lambda x, y: x.mul(y) if isinstance(op, ast.BitAnd) else x.add(y).sub(x.mul(y)), a, b)
            dt = [x.dtype for x in (a, b) if isinstance(x, Ten) and x.dtype is not None]
            r = super().binop(op, a, b)
            if isinstance(r, Ten) and dt and all(self.dtype_name(d) == self.dtype_name(dt[0]) for d in dt):
                r.dtype = dt[0] if not isinstance(op, ast.Div) else None
            return r
        return super().binop(op, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(v, Ten):
            if isinstance(e.op, ast.USub):
                return Ten(v.axes, v.elem.neg(), v.dtype)
            if isinstance(e.op, ast.Invert):
                return Ten(v.axes, Q.ONE.sub(v.elem), v.dtype)
            return v
        return super().e_UnaryOp(e, fr)

    def compare(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, (ast.Is, ast.IsNot)) and (isinstance(a, Ten) or isinstance(b, Ten)):
            return isinstance(op, ast.IsNot) if a is None or b is None else (a is b) != isinstance(op, ast.IsNot)
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None and isinstance(b, DType) or b is None and isinstance(a, DType)):
            return isinstance(op, ast.IsNot)
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, Num) and isinstance(b, Num):
            for x, y in ((a, b), (b, a)):   # axes are longer than one
                if Q.axis_of(x) and y.value is not None and y.value <= 1:
                    return isinstance(op, ast.NotEq)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (list, tuple)) and isinstance(a, tuple):
            ts = [self.compare(ast.Eq(), a, x) for x in b]
            if all(isinstance(t, bool) for t in ts):
                return any(ts) != isinstance(op, ast.NotIn)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, DType) and self.items(b) is None and not (
                isinstance(b, External) and b.dotted.endswith("dtype_range")):
            return isinstance(op, ast.NotIn)    # structured data types
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, External) and b.dotted.endswith("dtype_range"):
            return (self.dtype_name(a) is not None and a is not None and not isinstance(a, (tuple, list))) != isinstance(
                op, ast.NotIn)
        na, nb = (self.dtype_name(x) if isinstance(x, (DType, External, str)) else None for x in (a, b))
        if na and nb and (isinstance(a, DType) or isinstance(b, DType)) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (na == nb) == isinstance(op, ast.Eq)
        if isinstance(a, Ten) or isinstance(b, Ten):
            return self.zipmap(lambda p, q: self.cond(Alg.compare(self, op, p, q)), a, b)
        return super().compare(op, a, b)

    def copyv(self, v):
        return v.copy() if isinstance(v, Ten) else super().copyv(v)

    def gate(self, c, a, b):
        if isinstance(a, Ten) and isinstance(b, Ten) and len(a.axes) == len(b.axes) and all(
                x.same(y) for x, y in zip(a.axes, b.axes)):
            return Ten(a.axes, super().gate(c, a.elem, b.elem), a.dtype)
        return super().gate(c, a, b)

    def gate_arr(self, c, a, b):
        return super().gate_arr(c, a, b)

    def isinst(self, v, c):
        if isinstance(v, Ten):
            cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
            names = {x.dotted.split(".")[-1] if isinstance(x, External) else getattr(x, "name", "?") for x in cs}
            return bool(names & ({"ndarray", "Iterable"} if not self.lazy(v) else {"Array", "Iterable"}))
        return super().isinst(v, c)

    def lazy(self, v):
        return False

    def attr(self, o, a, fr):
        if isinstance(o, DType):
            if a in ("type", "dtype"):
                return o
            if a == "name":
                return o.name
            k = kind(o.name)
            if k is not None and a in ("kind", "itemsize"):
                return k[0] if a == "kind" else Num.const(k[1])
            return Attr(o, a)
        if isinstance(o, Ten):
            if a == "shape":
                return tuple(x.length for x in o.axes)
            if a == "ndim":
                return Num.const(len(o.axes))
            if a == "size":
                n = Q.ONE
                for x in o.axes:
                    n = n.mul(x.length)
                return n
            if a == "dtype":
                return o.dtype if o.dtype is not None else DType("float64")
            if a == "T":
                return Ten(o.axes[::-1], o.elem, o.dtype)
            if a in ("real", "imag"):
                s = o.elem.single()
                if s is not None and s.fn == "sym" and s.args[0].partition("#")[0].split(".")[-1] in ("fft2", "rfft2", "fftshift"):
                    return unknown_array(a, (o,), o.axes)
                return Ten(o.axes, o.elem) if a == "real" else unknown_array(a, (o,), o.axes)
            return Attr(o, a)
        return super().attr(o, a, fr)

    # ------------------------------------------------------------- indexing
    def loop_axis(self, p):
        """Names of the axes a loop's index runs over."""
        a = p.num.single() if isinstance(p, LoopVar) and p.full else None
        if a is None or a.fn != "?index":
            return None
        out = []
        for x in a.args:
            if isinstance(x, tuple) and x and x[0] == "tup":
                out += x[1:]
            else:
                out.append(x)
        if a.args and not isinstance(a.args[0], (Num, tuple)):
            return None
        out = [Q.axis_of(x) if isinstance(x, Num) else None for x in out]
        return out if all(out) else None

    def generic(self, it):
        if isinstance(it, Opaque) and it.fn == "call" and it.args[0] in ("numpy.ndindex",):
            sh = it.args[1]
            sh = sh[0] if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
            if isinstance(sh, (tuple, list)):
                return LoopVar(Num.of(Q.atom("?index", (key(tuple(sh)),), "int")), True), True
        if isinstance(it, Ten) and it.axes:
            return (Ten(it.axes[1:], it.elem, it.dtype) if len(it.axes) > 1 else it.elem), True
        return super().generic(it)

    def items(self, it):
        if isinstance(it, Ten):
            return None
        if isinstance(it, Opaque) and it.fn == "call" and it.args[0] == "numpy.ndindex":
            sh = it.args[1]
            if sh in ((), ((),)):
                return [()]
        return super().items(it)

    def index(self, o, i):
        o = self.deref(o)
        if not isinstance(o, Ten):
            return super().index(o, i)
        parts = list(i) if isinstance(i, tuple) else [i]
        if len(parts) == 1 and isinstance(parts[0], tuple):
            parts = list(parts[0])
        used = 0
        for p in parts:
            if p is None or p is ELLIPSIS:
                continue
            la = self.loop_axis(p) if isinstance(p, LoopVar) else None
            used += len(la) if la else len(p.axes) if isinstance(p, Ten) and p.dtype is not None and self.dtype_name(
                p.dtype) == "bool" else 1
        rest = len(o.axes) - used
        if rest < 0:
            raise PyError("too many indices")
        if ELLIPSIS not in parts:
            parts = parts + [ELLIPSIS]
        axes, elem, k = [], o.elem, 0
        for p in parts:
            if p is ELLIPSIS:
                axes += o.axes[k : k + rest]
                k += rest
            elif p is None:
                axes.append(Axis())
            elif isinstance(p, Slice):
                if p.full():
                    axes.append(o.axes[k])
                else:
                    raise Unsupported("part of an axis")
                k += 1
            elif isinstance(p, LoopVar):
                la = self.loop_axis(p)
                if la is None:
                    raise Unsupported("index along another axis")
                if any(x.names != (n,) or x.mask is not None for x, n in zip(o.axes[k:], la)):
                    raise OtherAxis("index along another axis")
                k += len(la)
            elif isinstance(p, Ten) and p.dtype is not None and self.dtype_name(p.dtype) == "bool":
                names, mask = [], p.elem
                for x, y in zip(o.axes[k:], p.axes):
                    if not x.same(y) and x.names:
                        raise PyError("boolean index")
                    names += x.names
                    if x.mask is not None:
                        raise Unsupported("mask of a selection")
                axes.append(Axis(*names, mask=mask))
                k += len(p.axes)
            else:
                c = self.const(p)
                a = o.axes[k]
                if not isinstance(c, int) or isinstance(c, bool) or a.mask is not None or len(a.names) > 1:
                    raise Unsupported("index")
                if a.names:
                    elem = Q.f_pick(a.names[0], c, elem)
                k += 1
        return Ten(axes, elem, o.dtype) if axes else elem

    def store(self, o, i, v):
        if not isinstance(o, Ten):
            return super().store(o, i, v)
        v = self.deref(v)
        target = self.index(o, i)
        tax = target.axes if isinstance(target, Ten) else ()
        parts = list(i) if isinstance(i, tuple) else [i]
        val = v if isinstance(v, Ten) else Ten((), self.num(v))
        got = broadcast(Ten(tax, Q.ZERO), val)
        if len(got) != len(tax):
            raise PyError("shapes")
        mask = next((p for p in parts if isinstance(p, Ten)), None)
        if mask is not None:
            o.elem = self.gate(mask.elem, val.elem, o.elem)
            return
        for p in parts:
            if not (p is ELLIPSIS or p is None or isinstance(p, Slice) and p.full() or isinstance(p, LoopVar) or p == ()):
                raise Unsupported("store at one place")
        o.elem = val.elem if o.dtype is None or self.dtype_name(o.dtype) in FLOATS else Q.f_cast(
            self.dtype_name(o.dtype), val.elem) if v is not o else o.elem

    def augassign(self, s, fr):
        if isinstance(s.target, (ast.Name, ast.Attribute)):
            load = ast.copy_location(
                ast.Name(s.target.id, ast.Load()) if isinstance(s.target, ast.Name) else
                ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
            cur = self.ev(load, fr)
            if isinstance(cur, Ten):
                by = self.deref(self.ev(s.value, fr))
                new = self.binop(s.op, cur, by)
                if not isinstance(new, Ten) or len(new.axes) != len(cur.axes):
                    raise PyError("shapes")
                n = self.dtype_name(cur.dtype) if cur.dtype is not None else None
                m = self.dtype_name(by.dtype) if isinstance(by, Ten) and by.dtype is not None else None
                if n is not None and n not in FLOATS and "complex" not in n and n != "bool" and (isinstance(s.op, ast.Div) or m in FLOATS):
                    new = Ten(new.axes, Q.f_cast(n, new.elem))   # stays of its type
                cur.elem, cur.axes = new.elem, new.axes
                return
        super().augassign(s, fr)

    # ---------------------------------------------------------------- loops
    def loop(self, s, fr):
        """A total gathered in a loop over an axis is a sum over it."""
        it = self.ev(s.iter, fr) if isinstance(s.iter, ast.Call) else None
        ax = None
        if isinstance(it, Opaque) and it.fn == "range" and len(it.args) == 1:
            ax = Q.axis_of(self.deref(it.args[0]))
        if ax is None:
            return super().loop(s, fr)
        names = [k for k in assigned_names(s.body) if k in fr.env and isinstance(fr.env[k], Num)
                 and reads_before_write(s.body, k)]
        before = {k: fr.env[k] for k in names}
        self.loops += 1
        for k in names:
            fr.env[k] = sym(f"carry:{k}")
        self.assign(s.target, self.generic(it)[0], fr)
        if self.block(list(s.body), fr) is not None:
            raise Unsupported("return in loop")
        for k in names:
            d = fr.env[k]
            d = d.sub(sym(f"carry:{k}")) if isinstance(d, Num) else None
            if d is None or any(Q.ATOMS[x].fn == "sym" and str(Q.ATOMS[x].args[0]).startswith("carry:") for x in d.all_atoms()):
                raise Unsupported("loop")
            fr.env[k] = before[k].add(Q.f_rsum((ax,), d))
        return None

    # ------------------------------------------------------------ functions
    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, Ten):
            if name == "astype":
                return self.cast(o.copy(), args[0] if args else kwargs.get("dtype"))
            if name in ("copy", "compute", "rechunk", "persist", "view"):
                return o.copy()
            if name in ("ravel", "flatten"):
                return self.merge_all(o, args[0] if args else kwargs.get("order"))
            if name == "reshape":
                if kwargs.get("order", "C") not in (None, "C"):
                    raise Unsupported("order of axes")
                return self.reshape(o, args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else tuple(args))
            if name == "item" and not o.axes:
                return o.elem
            if name == "transpose":
                order = args[0] if len(args) == 1 and isinstance(args[0], (tuple, list)) else args
                return self.external("numpy.transpose", [o] + ([tuple(order)] if order else []), kwargs, fr)
            return self.external("numpy." + name, [o] + list(args), kwargs, fr)
        if isinstance(o, Num) and name == "astype":
            return self.cast(o, args[0])
        return super().method(o, name, args, kwargs, fr)

    def merge_all(self, o, order=None):
        if order == "F":
            o = Ten(o.axes[::-1], o.elem, o.dtype)
        elif order not in (None, "C", "A", "K"):
            raise Unsupported("order")
        names = [n for a in o.axes for n in a.names]
        masks = [a.mask for a in o.axes if a.mask is not None]
        if len(masks) > 1:
            raise Unsupported("selections")
        return Ten((Axis(*names, mask=masks[0] if masks else None),), o.elem, o.dtype)

    def reshape(self, o, shape):
        if not isinstance(o, Ten):
            return super().reshape(o, shape)
        shape = [shape] if isinstance(shape, Num) else list(shape)
        want = [self.num(x) for x in shape]
        minus = [i for i, w in enumerate(want) if w.value == -1]
        if len(minus) > 1:
            raise PyError("reshape")
        whole = Q.ONE
        for a in o.axes:
            whole = whole.mul(a.length)
        if minus:
            rest = Q.ONE
            for i, w in enumerate(want):
                if i != minus[0]:
                    rest = rest.mul(w)
            want[minus[0]] = whole.div(rest)
        out, atoms = [], []
        for a in o.axes:
            if a.mask is not None:
                atoms.append(a)
            else:
                atoms += [Axis(n) for n in a.names]
        scrambled = self.scrambled(o, want, atoms)
        if scrambled is not None:
            return scrambled
        for w in want:
            have, names, mask = Q.ONE, [], None
            while atoms and not have.eq(w):
                a = atoms.pop(0)
                have = have.mul(a.length)
                if a.mask is not None:
                    if names or not have.eq(w):
                        raise Unsupported("reshape of a selection")
                    mask = a.mask
                names += a.names
            if not have.eq(w):
                raise Unsupported("reshape")
            out.append(Axis(*names, mask=mask))
        if atoms:
            raise Unsupported("reshape")
        return Ten(out, o.elem, o.dtype)

    def scrambled(self, o, want, atoms):
        """A reshape to the same axes in another order mixes up elements."""
        if any(a.mask is not None for a in atoms):
            return None
        have = [n for a in atoms for n in a.names]
        split = [[] if w.value == 1 else self.product(w) for w in want]
        if any(x is None for x in split):
            return None
        names = [n for x in split for n in x]
        if sorted(names) != sorted(have):
            return None
        at = 0  # the names of one axis come in the order of the array
        for x in split:
            if sorted(have[at:at + len(x)]) != sorted(x):
                return unknown_array("reshaped", (o, tuple(tuple(x) for x in split)), [Axis(*x) for x in split], o.dtype)
            at += len(x)
        return None

    def axis_list(self, o, ax):
        if ax is None:
            return list(range(len(o.axes)))
        c = self.items(ax) if isinstance(ax, (tuple, list)) else [ax]
        ks = [self.const(x) for x in c]
        if not all(isinstance(k, int) for k in ks):
            raise Unsupported("axis")
        if any(not -len(o.axes) <= k < len(o.axes) for k in ks):
            raise PyError("axis out of range")
        return sorted(k % len(o.axes) for k in ks)

    def reduced(self, o, ks, elem, keep):
        axes = [Axis() if i in ks else a for i, a in enumerate(o.axes) if keep or i not in ks]
        return Ten(axes, elem) if axes else elem

    def reduction(self, short, o, args, kwargs):
        ax = kwargs.get("axis", args[0] if args else None)
        ks = self.axis_list(o, ax)
        keep = self.truth(kwargs.get("keepdims", False))
        names = [n for k in ks for n in o.axes[k].names]
        masks = [o.axes[k].mask for k in ks if o.axes[k].mask is not None]
        if len(masks) > 1 or keep is None:
            raise Unsupported("selections")
        mask = masks[0] if masks else None
        count = Q.ONE
        for k in ks:
            count = count.mul(o.axes[k].length)

        def total(x):
            return Q.f_rsum(names, x if mask is None else x.mul(mask))
        x = o.elem
        if short == "sum":
            r = total(x)
        elif short == "mean":
            r = total(x).div(count)
        elif short in ("var", "std"):
            m = total(x).div(count)
            dd = kwargs.get("ddof", Q.ZERO)
            r = total(x.sub(m).pow(2)).div(count.sub(self.num(dd)))
            r = Q.f_sqrt(r) if short == "std" else r
        elif short == "norm":
            r = Q.f_sqrt(total(x.mul(x)))
        elif short == "ptp":
            r = Q.f_rmax(names, x, mask).sub(Q.f_rmin(names, x, mask))
        elif short in UNKNOWN_REDUCTIONS:
            rest = [a for i, a in enumerate(o.axes) if i not in ks]
            kw = {k: v for k, v in kwargs.items() if k != "keepdims"}
            r = unknown_array(short, (o, tuple(names), tuple(args), Dict(kw)), rest).elem
        else:
            r = (Q.f_rmin if short == "min" else Q.f_rmax)(names, x, mask)
        return self.reduced(o, ks, r, keep)

    def tensordot(self, a, b):
        if not isinstance(a, Ten) or not isinstance(b, Ten) or not a.axes or not b.axes:
            raise Unsupported("matmul")
        k = -2 if len(b.axes) > 1 else -1
        x, y = a.axes[-1], b.axes[k]
        if not x.same(y):
            raise PyError("matmul shapes")
        w = Q.ONE if x.mask is None else x.mask
        left = a.axes[:-1]
        right = tuple(z for i, z in enumerate(b.axes) if i != len(b.axes) + k)
        return self.check_distinct(left + right, Q.f_rsum(x.names, a.elem.mul(b.elem).mul(w)))

    def check_distinct(self, axes, elem):
        names = [n for a in axes for n in a.names]
        if len(set(names)) != len(names):
            raise Unsupported("an axis against itself")
        return Ten(axes, elem) if axes else elem

    def einsum(self, args):
        spec = self.const(args[0])
        ops = [self.deref(x) for x in args[1:]]
        if not isinstance(spec, str) or not all(isinstance(x, Ten) for x in ops) or "->" not in spec or "." in spec:
            raise Unsupported("einsum")
        ins, out = spec.replace(" ", "").split("->")
        ax, elem = {}, Q.ONE
        for t, letters in zip(ops, ins.split(",")):
            if len(letters) != len(t.axes):
                raise PyError("einsum")
            for c, a in zip(letters, t.axes):
                if c in ax and not ax[c].same(a):
                    raise PyError("einsum shapes")
                ax[c] = a
            elem = elem.mul(t.elem)
        for c, a in ax.items():
            if c not in out:
                elem = Q.f_rsum(a.names, elem if a.mask is None else elem.mul(a.mask))
        return self.check_distinct(tuple(ax[c] for c in out), elem)

    def external(self, d, args, kwargs, fr):
        if d in self.hooks:
            return self.hooks[d](self, args, kwargs, None)
        args = [self.deref(a) for a in args]
        short = d.split(".")[-1]
        np_ = d.startswith(("numpy.", "dask.array.")) or d in ("min", "max", "sum", "abs", "round")
        if d in NEW_ARRAY:
            names = NEW_ARRAY[d]
            kw = {**dict(zip(names, args)), **kwargs}
            if isinstance(kw.get(names[0]), Ten):
                t = kw[names[0]]
                kw = {k: v for k, v in kw.items() if k not in DEFAULTS or v is not DEFAULTS[k] and not (
                    isinstance(v, Num) and isinstance(DEFAULTS[k], Num) and v.eq(DEFAULTS[k]))}
                r = unknown_array(d, (Dict(kw),), t.axes)
                if "percentile" in d:
                    return (sym(f"{d}#lower"), sym(f"{d}#upper"))
                n = self.dtype_name(t.dtype) if t.dtype is not None else None
                if d.startswith("scipy.ndimage.") and n and n.rstrip("0123456789") in ("int", "uint"):
                    # filters give arrays of their input's type
                    out = self.dtype_name(kwargs["output"]) if kwargs.get("output") is not None else n
                    if out in FLOATS:
                        r = unknown_array(d, (Dict({k: v for k, v in kw.items() if k != "output"}),), t.axes)
                    return self.cast(r, DType(out) if out else kwargs["output"])
                return r
        if short == "compute" and d.startswith("dask."):
            return tuple(args)
        if d in ("copy.copy", "copy.deepcopy") and args and isinstance(args[0], Ten):
            return args[0].copy()
        if np_ and short in ("dtype",) and args:
            n = self.dtype_name(args[0])
            return DType(n) if n else args[0]
        if np_ and short in ("issubdtype", "can_cast") and len(args) >= 2:
            a, b = (self.dtype_name(x) if isinstance(x, (DType, External, str)) else None for x in args[:2])
            ka, kb = (kind(x) if x else None for x in (a, b))
            if short == "issubdtype" and ka and (b in ABSTRACT or kb):
                return ka[0] in ABSTRACT[b] if b in ABSTRACT else ka == kb
            r = can_cast(ka, kb, kwargs.get("casting", args[2] if len(args) > 2 else "safe")) if short == "can_cast" and ka and kb else None
            if r is not None:
                return r
        if np_ and short in ("result_type", "promote_types"):
            return DType("float64")
        if np_ and short in ("zeros", "ones", "empty", "full") and (args or "shape" in kwargs):
            sh = args[0] if args else kwargs["shape"]
            axes = self.shape_axes(sh)
            if axes:
                dt = kwargs.get("dtype", args[1] if len(args) > 1 and short != "full" else None)
                fill = {"zeros": Q.ZERO, "ones": Q.ONE}.get(short)
                if short == "full":
                    fill = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
                n = self.dtype_name(dt)
                return Ten(axes, fill if fill is not None else Opaque("empty").num(), DType(n) if n and dt is not None else None)
        if not any(isinstance(a, Ten) for a in list(args) + list(kwargs.values())):
            if np_ and short in ("einsum", "sum") and any(isinstance(x, (list, tuple)) for x in args):
                pass
            return super().external(d, args, kwargs, fr)
        if kwargs.get("out") is not None:
            raise Unsupported("out=")
        o = args[0] if args else None
        if d == "len" and isinstance(o, Ten):
            return o.axes[0].length
        red = {"amin": "min", "amax": "max", "nanmin": "min", "nanmax": "max", "nanmean": "mean", "nansum": "sum",
               "average": "mean", "nanstd": "std", "nanvar": "var"}.get(short, short)
        if red in ("min", "max", "sum", "mean", "std", "var", "norm", "ptp", *UNKNOWN_REDUCTIONS) and isinstance(o, Ten) and (np_ or d == "numpy.linalg.norm"):
            rest = [a for a in args[1:]]
            if red == "norm" and (rest or "ord" in kwargs):
                raise Unsupported("norm")
            return self.reduction(red, o, rest, kwargs)
        if np_ and short == "einsum":
            return self.einsum(args)
        if np_ and short in ("dot", "matmul"):
            return self.tensordot(args[0], args[1])
        if np_ and short in ("vdot", "inner") and all(isinstance(a, Ten) and len(a.axes) == 1 for a in args[:2]):
            return self.tensordot(args[0], args[1])
        if np_ and short == "clip" and isinstance(o, Ten):
            lo = args[1] if len(args) > 1 else kwargs.get("a_min", kwargs.get("min"))
            hi = args[2] if len(args) > 2 else kwargs.get("a_max", kwargs.get("max"))
            r = o
            if lo is not None:
                r = self.zipmap(Q.f_max, r, lo)
            if hi is not None:
                r = self.zipmap(Q.f_min, r, hi)
            return r
        if np_ and short in ("asarray", "array", "ascontiguousarray", "asanyarray", "copy", "from_array", "require"):
            dt = kwargs.get("dtype", args[1] if len(args) > 1 and short != "copy" else None)
            return o.copy() if dt is None else self.cast(o.copy(), dt)
        if np_ and short in FLOATS and isinstance(o, Ten):
            return self.cast(o.copy(), short)
        if np_ and short in ("ravel",):
            return self.merge_all(o, args[1] if len(args) > 1 else kwargs.get("order"))
        if np_ and short == "reshape":
            if kwargs.get("order", "C") not in (None, "C"):
                raise Unsupported("order of axes")
            return self.reshape(o, args[1] if len(args) > 1 else kwargs.get("shape", kwargs.get("newshape")))
        if np_ and short == "expand_dims":
            k = self.const(args[1] if len(args) > 1 else kwargs.get("axis"))
            if isinstance(k, int):
                axes = list(o.axes)
                axes.insert(k if k >= 0 else len(axes) + 1 + k, Axis())
                return Ten(axes, o.elem, o.dtype)
        if np_ and short == "squeeze":
            ks = None if len(args) < 2 and "axis" not in kwargs else self.axis_list(
                o, args[1] if len(args) > 1 else kwargs["axis"])
            axes = [a for i, a in enumerate(o.axes) if (a.names if ks is None else i not in ks)]
            return Ten(axes, o.elem, o.dtype) if axes else o.elem
        if np_ and short == "transpose" and isinstance(o, Ten):
            ks = list(range(len(o.axes)))[::-1] if len(args) < 2 else [self.const(k) for k in self.items(args[1])]
            if all(isinstance(k, int) for k in ks) and sorted(k % len(o.axes) for k in ks) == list(range(len(o.axes))):
                return Ten([o.axes[k] for k in ks], o.elem, o.dtype)
        if np_ and short == "moveaxis" and isinstance(o, Ten):
            k, j = self.const(args[1]), self.const(args[2])
            if isinstance(k, int) and isinstance(j, int):
                axes = list(o.axes)
                x = axes.pop(k)
                axes.insert(j % len(o.axes), x)
                return Ten(axes, o.elem, o.dtype)
        if np_ and short in ("zeros_like", "ones_like", "empty_like", "full_like"):
            fill = {"zeros_like": Q.ZERO, "ones_like": Q.ONE}.get(short)
            if short == "full_like":
                fill = self.num(args[1] if len(args) > 1 else kwargs["fill_value"])
            n = self.dtype_name(kwargs["dtype"]) if kwargs.get("dtype") is not None else None
            return Ten(o.axes, fill if fill is not None else Opaque("empty").num(), DType(n) if n else o.dtype)
        if np_ and short in ("isnan",):
            return Ten(o.axes, Q.ZERO, DType("bool"))
        if np_ and short in ("real", "imag"):
            return self.attr(o, short, fr)
        if np_ and short in ("logical_not", "invert"):
            return Ten(o.axes, Q.ONE.sub(o.elem), DType("bool"))
        if np_ and short == "nan_to_num":
            return o
        if np_ and short == "count_nonzero" and self.dtype_name(o.dtype) == "bool":
            return self.reduction("sum", o, args[1:], kwargs)
        if d in ("float",) and isinstance(o, Ten):
            return self.num(o)
        if d == "isinstance":
            return self.isinst(args[0], args[1])
        if d in ("hasattr", "getattr", "range", "enumerate", "zip", "list", "tuple", "type"):
            return super().external(d, args, kwargs, fr)
        from .alg import NP_BIN, NP_FUNCS
        if np_ and (short in NP_FUNCS or short in NP_BIN or short in ("square", "negative", "where")):
            if kwargs.keys() - {"dtype"}:
                raise Unsupported(f"{short} with {sorted(kwargs)}")
            return super().external(d, args, {}, fr)
        return Opaque("call", (d, tuple(args), Dict(kwargs)))

    def shape_axes(self, sh):
        if isinstance(sh, Num):
            sh = (sh,)
        if not isinstance(sh, (tuple, list)) or not sh:
            return None
        out = []
        for x in sh:
            x = self.deref(x)
            if isinstance(x, Num) and x.value == 1:
                out.append(Axis())
                continue
            n = Q.axis_of(x) if isinstance(x, Num) else None
            if n is None:
                names = self.product(x) if isinstance(x, Num) else None
                if names is None:
                    return None
                out.append(Axis(*names))
            else:
                out.append(Axis(n))
        return out if any(a.names for a in out) else None

    def product(self, x):
        """Axes whose lengths multiply to this, in unknown order: only a
        single one is certain."""
        if x.d == {(): Fraction(1)} and len(x.n) == 1:
            (m, c), = x.n.items()
            if c == 1 and all(e == 1 and Q.ATOMS[i].fn == "sym" and Q.ATOMS[i].args[0] in Q.LENGTH for i, e in m):
                return sorted((Q.ATOMS[i].args[0] for i, _ in m), key=list(Q.LENGTH).index)
        return None
