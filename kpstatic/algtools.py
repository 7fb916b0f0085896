"""Shared parts of the rules built on value numbering."""

from __future__ import annotations

from . import poly as Q
from .alg import Alg, Arr, Given, Obj, PyError, Raises, Unsupported, View
from .poly import Num, sym
from .report import Result

DETECTOR = "EBSDDetector"
HALF = Num.const(1).div(Num.const(2))


def symbols():
    return {
        "shape": (sym("Ny", "int"), sym("Nx", "int")), "px_size": sym("delta"), "binning": sym("b", "int"),
        "tilt": sym("tilt"), "azimuthal": sym("azimuthal"), "twist": sym("twist"), "sample_tilt": sym("sample_tilt"),
    }


ERR = (Unsupported, PyError, Raises, Q.TooBig, ZeroDivisionError, RecursionError)


def comps(a, v):
    """Three normal forms, or None."""
    if isinstance(v, View):
        return None
    if isinstance(v, Arr) and v.comps is not None and len(v.comps) == 3:
        try:
            return [a.num(c) for c in v.comps]
        except Unsupported:
            return None
    return None


def judge(res: Result, rule, construct, got, want, where, names=("x", "y", "z")):
    """Compare normal forms: shown equal, shown different, or undecided."""
    res.count("obligations")
    if got is None:
        res.undecided.append(f"{construct}: value not described")
        return False
    ok = True
    for n, g, w in zip(names, got, want):
        if g.eq(w):
            res.count("proved_equal")
            continue
        d = Q.differ(g, w)
        if d is None:
            res.undecided.append(f"{construct} {n}: {g!r} vs {w!r}"[:200])
            ok = False
            continue
        pt, x, y = d
        s = ", ".join(f"{k}={v:.4g}" for k, v in sorted(pt.items()))
        res.add(rule, construct, f"{n} is {g!r}, not {w!r} (e.g. {x:.6g} instead of {y:.6g} for {s})"[:600], where)
        ok = False
    return ok


def const_index(k):
    """The integers of an index made of integers and whole axes, or None."""
    if isinstance(k, bool):
        return None
    if isinstance(k, int):
        return (k,)
    if k is None or k == "tup" or k is ... or k == ("slice", None, None, None):
        return ()
    if isinstance(k, Num):
        v = k.value
        return (int(v),) if v is not None and v.denominator == 1 else None
    if isinstance(k, tuple):
        out = ()
        for x in k:
            c = const_index(x)
            if c is None:
                return None
            out += c
        return out
    return None


def rename(v, f):
    """Rename symbols."""
    def g(at):
        return sym(f(at.args[0]), at.sort) if at.fn == "sym" and f(at.args[0]) else None
    return Q.subs(v, g)


def at_fixed(v, varying):
    """Values picked at a constant position, in terms of the quantities at
    that position; only those named vary."""
    def f(at):
        if at.fn == "?gather" and isinstance(at.args[0], Num) and len(at.args) == 2:
            c = const_index(at.args[1])
            if c:
                return rename(at_fixed(at.args[0], varying), lambda n: f"{n}{list(c)}" if n in varying else None)
        return None
    return Q.subs(v, f)


def make(proj, cls, pc, conv, **over):
    a = Alg(proj)
    kw = {**symbols(), "pc": Arr(list(pc)), **over}
    if conv is not None:
        kw["convention"] = conv
    return a, a.construct(cls, [], kw)


def get(a, o, name, *args, **kw):
    f = a.attr(o, name, None)
    return a.call(f, [Num.const(x) if isinstance(x, int) else x for x in args], kw, None)
