"""Algebraic normal forms: quotients of polynomials over interned atoms.

An atom is a symbol or the application of a function to normal forms.  Two
normal forms are equal if their cross products have the same polynomial
(after sin^2 = 1 - cos^2 and sqrt(a)^2 = a).  `differ` looks for a point at
which two normal forms take different values, so that "not shown equal" and
"different" are kept apart.
"""

from __future__ import annotations

import itertools
import math
import random
import statistics
from fractions import Fraction

MAX_TERMS = 6000
def _percentile(q, xs):
    k = min(max(q, 0), 100) / 100 * (len(xs) - 1)
    i = min(int(k), len(xs) - 1)
    return xs[i] + (k - i) * (xs[min(i + 1, len(xs) - 1)] - xs[i])


EVAL: dict = {}


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("fn", "args", "id", "sort", "clean", "print")

    def __init__(self, fn, args, id, sort):
        self.fn, self.args, self.id, self.sort = fn, args, id, sort
        self.print = None
        self.clean = fn in EVAL or fn in ("sym", "pi")
        if fn != "sym":
            for a in args:
                if isinstance(a, Num) and not a.clean:
                    self.clean = False

    def __repr__(self):
        if self.fn == "sym":
            return self.args[0]
        if self.fn == "pi":
            return "pi"
        return f"{self.fn}({', '.join(map(repr, self.args))})"


ATOMS: list[Atom] = []
_by_fn: dict[str, dict] = {}          # atoms by what tells them apart


def same(a, b) -> bool:
    if isinstance(a, Num) and isinstance(b, Num):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def atom(fn, args, sort="real") -> Atom:
    args = tuple(args)
    key = fingerprints(args)
    known = _by_fn.setdefault(fn, {})
    if key is not None:
        tried = [known.get(key, ()), known.get(None, ())]
    else:
        tried = list(known.values())
    for group in tried:
        for a in group:
            if len(a.args) == len(args) and all(same(x, y) for x, y in zip(a.args, args)):
                return a
    a = Atom(fn, args, len(ATOMS), sort)
    ATOMS.append(a)
    known.setdefault(key, []).append(a)
    return a


# ------------------------------------------------- telling values apart
# The value in the field of PRIME**2 elements with a number for each atom:
# equal values have the same, so that differing ones need no multiplication.
PRIME = 2**61 - 1        # 3 modulo 4


def fingerprints(args):
    out = []
    for a in args:
        if isinstance(a, Num):
            f = fingerprint(a)
            if f is None:
                return None
            out.append(f)
        elif isinstance(a, tuple):
            f = fingerprints(a)
            if f is None:
                return None
            out.append(f)
        elif isinstance(a, (str, int)):
            out.append(a)
        else:
            return None
    return tuple(out)


def fingerprint(x: "Num"):
    if x._print is None:
        n, d = _value(x.n), _value(x.d)
        x._print = False
        if n is not None and d is not None:
            size = (d[0] * d[0] + d[1] * d[1]) % PRIME
            if size:
                inv = pow(size, PRIME - 2, PRIME)
                x._print = ((n[0] * d[0] + n[1] * d[1]) * inv % PRIME, (n[1] * d[0] - n[0] * d[1]) * inv % PRIME)
    return x._print or None


def _value(p):
    re = im = 0
    for m, c in p.items():
        a, b = c.numerator * (1 if c.denominator == 1 else pow(c.denominator, PRIME - 2, PRIME)) % PRIME, 0
        for i, e in m:
            v = _number(ATOMS[i])
            if v is None or e < 0:
                return None
            for _ in range(e):
                a, b = (a * v[0] - b * v[1]) % PRIME, (a * v[1] + b * v[0]) % PRIME
        re, im = (re + a) % PRIME, (im + b) % PRIME
    return re, im


def _number(a: Atom):
    if a.print is None:
        a.print = False
        if a.fn == "sqrt":
            f = fingerprint(a.args[0])
            if f is not None and f[1] == 0:
                r = pow(f[0], (PRIME + 1) // 4, PRIME)
                a.print = (r, 0) if r * r % PRIME == f[0] else (0, pow(PRIME - f[0], (PRIME + 1) // 4, PRIME))
        elif a.fn != "sin":
            a.print = (pow(3, (a.id + 1) * 0x9E3779B97F4A7C15 + 12345, PRIME), 0)
    return a.print or None


# ------------------------------------------------------------ polynomials
def p_const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def p_add(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def m_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > MAX_TERMS * 40:
        raise TooBig
    out: dict = {}
    special = False
    for m, c in a.items():
        for n, e in b.items():
            k = m_mul(m, n)
            v = out.get(k, 0) + c * e
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    for m in out:
        for x, e in m:
            if e >= 2 and ATOMS[x].fn in ("sqrt", "sin"):
                special = True
    if len(out) > MAX_TERMS:
        raise TooBig
    return p_reduce(out) if special else out


def p_reduce(p):
    for m, c in p.items():
        for x, e in m:
            if e >= 2 and ATOMS[x].fn in ("sqrt", "sin"):
                rest = tuple((y, f if y != x else f - 2) for y, f in m if not (y == x and f == 2))
                rep = p_const(1)
                if ATOMS[x].fn == "sqrt":
                    rep = ATOMS[x].args[0].n  # stored with denominator 1
                else:
                    co = atom("cos", ATOMS[x].args)
                    rep = p_add(p_const(1), {((co.id, 2),): Fraction(1)}, -1)
                q = dict(p)
                del q[m]
                return p_reduce(p_add(q, p_mul({rest: c}, rep)))
    return p


class Num:
    __slots__ = ("n", "d", "_clean", "_print")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {(): Fraction(1)}
        self._clean = self._print = None

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ------------------------------------------------------------- making
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(repr(c)) if math.isfinite(c) else None
            if c is None:
                raise ValueError
        return Num(p_const(c))

    @staticmethod
    def of(a: Atom):
        return Num({((a.id, 1),): Fraction(1)})

    def norm(self):
        if not self.n:
            return Num({})
        n, d = self.n, self.d
        if len(d) == 1:
            (dm, dc), = d.items()
            if dm:
                common = dict(dm)
                for m in n:
                    md = dict(m)
                    common = {a: min(e, md.get(a, 0)) for a, e in common.items()}
                common = {a: e for a, e in common.items() if e}
                if common:
                    def strip(m):
                        return tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0))
                    n = {strip(m): c for m, c in n.items()}
                    d = {strip(dm): dc}
            (dm, dc), = d.items()
            if dc != 1:
                n = {m: c / dc for m, c in n.items()}
                d = {dm: Fraction(1)}
            return Num(n, d)
        # proportional polynomials cancel
        if len(n) == len(d) and n.keys() == d.keys():
            k = next(iter(n))
            r = n[k] / d[k]
            if all(n[m] == r * d[m] for m in n):
                return Num(p_const(r))
        lead = max(d)
        lc = d[lead]
        if lc != 1:
            n = {m: c / lc for m, c in n.items()}
            d = {m: c / lc for m, c in d.items()}
        return Num(n, d)

    # ------------------------------------------------------------- queries
    def single(self):
        """The atom this is, or None."""
        if self.d == {(): Fraction(1)} and len(self.n) == 1:
            (m, c), = self.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    @property
    def value(self):
        """The Fraction if constant, else None."""
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and len(self.d) == 1 and () in self.n and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def atoms(self):
        return {x for p in (self.n, self.d) for m in p for x, _ in m}

    def all_atoms(self, out=None):
        out = set() if out is None else out
        for x in self.atoms():
            if x not in out:
                out.add(x)
                for a in ATOMS[x].args:
                    if isinstance(a, Num):
                        a.all_atoms(out)
        return out

    @property
    def clean(self):
        """No part of the value is unknown."""
        if self._clean is None:
            self._clean = all(ATOMS[x].clean for x in self.atoms())
        return self._clean

    def eq(self, o):
        if self.n == o.n and self.d == o.d:
            return True
        f = fingerprint(self)
        if f is not None and fingerprint(o) not in (None, f):
            return False
        return not p_add(p_mul(self.n, o.d), p_mul(o.n, self.d), -1)

    # ------------------------------------------------------------ operators
    def add(self, o):
        if self.d == o.d:
            return Num(p_add(self.n, o.n), self.d).norm()
        return Num(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d)), p_mul(self.d, o.d)).norm()

    def neg(self):
        return Num({m: -c for m, c in self.n.items()}, self.d)

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o):
        a, b = self, o
        # cross cancellation of equal factors
        if a.n == b.d:
            return Num(b.n, a.d).norm()
        if b.n == a.d:
            return Num(a.n, b.d).norm()
        return Num(p_mul(a.n, b.n), p_mul(a.d, b.d)).norm()

    def inv(self):
        if not self.n:
            raise ZeroDivisionError
        return Num(self.d, self.n).norm()

    def div(self, o):
        return self.mul(o.inv())

    def pow(self, k: int):
        out = Num.const(1)
        base = self if k >= 0 else self.inv()
        for _ in range(abs(k)):
            out = out.mul(base)
        return out

    def __repr__(self):
        def mono(m, c):
            s = "*".join(f"{ATOMS[x]!r}" + (f"^{e}" if e != 1 else "") for x, e in m)
            if not s:
                return str(c)
            return s if c == 1 else f"-{s}" if c == -1 else f"{c}*{s}"

        def poly(p):
            if not p:
                return "0"
            return " + ".join(mono(m, c) for m, c in list(p.items())[:8]) + (" + ..." if len(p) > 8 else "")

        if self.d == {(): Fraction(1)}:
            return poly(self.n)
        return f"({poly(self.n)})/({poly(self.d)})"


ZERO = Num({})
ONE = Num.const(1)


def sym(name, sort="real"):
    return Num.of(atom("sym", (name, sort), sort))


def is_int(x: Num) -> bool:
    v = x.value
    if v is not None:
        return v.denominator == 1
    return x.d == {(): Fraction(1)} and all(
        c.denominator == 1 and all(ATOMS[a].sort in ("int", "sint") for a, _ in m) for m, c in x.n.items())


# ------------------------------------------------------- known functions
def f_sqrt(x: Num) -> Num:
    v = x.value
    if v is not None and v >= 0:
        p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            return Num.const(Fraction(p, q))
    if x.d != {(): Fraction(1)}:
        return f_sqrt(Num(p_mul(x.n, x.d))).div(Num(x.d))
    return Num.of(atom("sqrt", (x,)))


def _sign(x: Num):
    lead = max(x.n) if x.n else ()
    return -1 if x.n and x.n[lead] < 0 else 1


PI = Num.of(atom("pi", ()))


def _quarter(x: Num):
    """(x - k*pi/2, k)"""
    pid = PI.n and next(iter(PI.n))
    if x.d == {(): Fraction(1)} and pid in x.n:
        k = x.n[pid] * 2
        if k.denominator == 1:
            n = dict(x.n)
            del n[pid]
            return Num(n), int(k) % 4
    return x, 0


def _split(x: Num):
    m = max(x.n)
    rest = dict(x.n)
    c = rest.pop(m)
    return Num({m: c}, x.d), Num(rest, x.d)


def f_sin(x: Num) -> Num:
    x, k = _quarter(x)
    if k == 1:
        return f_cos(x)
    if k == 2:
        return f_sin(x).neg()
    if k == 3:
        return f_cos(x).neg()
    if not x.n:
        return ZERO
    if _sign(x) < 0:
        return f_sin(x.neg()).neg()
    a = x.single()
    if a is not None and a.fn == "arctan":
        t = a.args[0]
        return t.div(f_sqrt(ONE.add(t.mul(t))))
    if 1 < len(x.n) <= 6:
        a, b = _split(x)
        return f_sin(a).mul(f_cos(b)).add(f_cos(a).mul(f_sin(b)))
    return Num.of(atom("sin", (x,)))


def f_cos(x: Num) -> Num:
    x, k = _quarter(x)
    if k == 1:
        return f_sin(x).neg()
    if k == 2:
        return f_cos(x).neg()
    if k == 3:
        return f_sin(x)
    if not x.n:
        return ONE
    if _sign(x) < 0:
        x = x.neg()
    a = x.single()
    if a is not None and a.fn == "arctan":
        t = a.args[0]
        return ONE.div(f_sqrt(ONE.add(t.mul(t))))
    if 1 < len(x.n) <= 6:
        a, b = _split(x)
        return f_cos(a).mul(f_cos(b)).sub(f_sin(a).mul(f_sin(b)))
    return Num.of(atom("cos", (x,)))


def f_tan(x):
    return f_sin(x).div(f_cos(x))


def folded(x, f):
    """`f` of an exact number, or None."""
    return Num.const(f(x.value)) if x.value is not None and x.clean else None


def f_floor(x):
    return x if is_int(x) else folded(x, math.floor) or Num.of(atom("floor", (x,), "int"))


def f_int(x):
    return x if is_int(x) else folded(x, int) or Num.of(atom("int", (x,), "int"))


def f_round(x):
    return x if is_int(x) else folded(x, round) or Num.of(atom("round", (x,), "int"))


def f_abs(x):
    v = x.value
    if v is not None:
        return Num.const(abs(v))
    return Num.of(atom("abs", (x if _sign(x) > 0 else x.neg(),)))


def _extreme(fn, best):
    other = "max" if fn == "min" else "min"

    def beyond(a, y):
        """Whether a is the extreme of y and more."""
        b = y.single()
        parts = b.args if b is not None and b.fn == other else (y,)
        return all(any(p.eq(z) for z in a.args) for p in parts)

    def f(*xs):
        out: list[Num] = []
        flat = []
        for x in list(xs) if len(xs) > 1 else ():
            a = x.single()
            if a is not None and a.fn == other and any(beyond(a, y) for y in xs if y is not x):
                xs = [y for y in xs if y is not x]
        for x in xs:
            a = x.single()
            flat += a.args if a is not None and a.fn == fn else [x]
        for x in flat:
            if not any(x.eq(y) for y in out):
                out.append(x)
        # absorption: min(x, max(x, y)) is x
        for x in list(out):
            a = x.single() if len(out) > 1 else None
            if a is not None and a.fn == other and any(beyond(a, y) for y in out if y is not x):
                out = [y for y in out if y is not x]
        vs = [x for x in out if x.value is not None]
        if len(vs) > 1:
            b = best(vs, key=lambda x: x.value)
            out = [x for x in out if x.value is None] + [b]
        if len(out) == 1:
            return out[0]
        out.sort(key=lambda x: (sorted(x.n.items()), sorted(x.d.items())))
        return Num.of(atom(fn, tuple(out), "int" if all(map(is_int, out)) else "real"))
    return f


f_min = _extreme("min", min)
f_max = _extreme("max", max)


def f_mod(a, b):
    return Num.of(atom("mod", (a, b), "int" if is_int(a) and is_int(b) else "real"))


def f_floordiv(a, b):
    return f_floor(a.div(b))


def _trig_atom(fn):
    def f(*xs):
        return Num.of(atom(fn, xs))
    return f


FUNCS = {
    "sqrt": f_sqrt, "sin": f_sin, "cos": f_cos, "tan": f_tan, "floor": f_floor, "int": f_int,
    "round": f_round, "abs": f_abs, "min": f_min, "max": f_max, "mod": f_mod,
}
for _n in ("arctan", "arcsin", "arccos", "arctan2", "exp", "log", "sign", "lambda"):
    FUNCS[_n] = _trig_atom(_n)
FUNCS["ceil"] = lambda x: f_floor(x.neg()).neg()   # noqa: E731


def _cmp(op):
    def f(a, b):
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
    return f


def _round(x):
    return float(round(x))


EVAL.update({
    "sqrt": lambda x: math.sqrt(x), "sin": math.sin, "cos": math.cos, "floor": math.floor,
    "median": lambda *x: statistics.median(x), "percentile": lambda q, *x: _percentile(q, sorted(x)),
    "int": lambda x: float(int(x)), "round": _round, "abs": abs, "min": min, "max": max,
    "mod": lambda a, b: a % b, "arctan": math.atan, "arcsin": math.asin, "arccos": math.acos,
    "arctan2": math.atan2, "exp": math.exp, "log": math.log, "ceil": math.ceil,
    "sign": lambda x: (x > 0) - (x < 0), "lt": _cmp("lt"), "le": _cmp("le"), "eq": _cmp("eq"),
    "not": lambda a: not a, "and": lambda *a: all(a), "or": lambda *a: any(a),
    "ite": lambda c, a, b: a if c else b,
})


# --------------------------------------------- values that vary along axes
VARY: dict[str, frozenset] = {}     # symbols standing for the elements of an array: the axes they vary along
LENGTH: dict[str, int] = {}         # axes: the length used when looking for a difference
_vary: dict[int, frozenset] = {}
NONE = frozenset()


def axis(name, length):
    """An axis; its length is the symbol of the same name."""
    LENGTH[name] = length
    return name


def axis_of(x):
    """The axis whose length this is, or None."""
    a = x.single() if isinstance(x, Num) else None
    return a.args[0] if a is not None and a.fn == "sym" and a.args[0] in LENGTH else None


def array_sym(name, axes, sort="real"):
    VARY[name] = frozenset(axes)
    return sym(name, sort)


def vary(a) -> frozenset:
    if isinstance(a, Num):
        out = NONE
        for x in a.atoms():
            out |= vary(ATOMS[x])
        return out
    if isinstance(a, tuple):
        out = NONE
        for x in a:
            out |= vary(x)
        return out
    if not isinstance(a, Atom):
        return NONE
    if a.id not in _vary:
        if a.fn == "sym":
            r = VARY.get(a.args[0], NONE)
        else:
            r = vary(tuple(a.args))
            if a.fn in ("rsum", "rmin", "rmax", "pick"):
                r -= frozenset(a.args[0])
            if a.fn == "place":     # position along an axis
                r |= {a.args[0]}
        _vary[a.id] = r
    return _vary[a.id]


def f_rsum(names, x: Num) -> Num:
    """Sum over axes."""
    names = frozenset(names)
    if not names or not x.n:
        return x
    den = Num(x.d)
    if vary(den) & names:
        return Num.of(atom("rsum", (tuple(sorted(names)), x)))
    out = ZERO
    groups: dict = {}
    for m, c in x.n.items():
        inner = tuple((i, 1 if ATOMS[i].sort == "bool" else e) for i, e in m if vary(ATOMS[i]) & names)
        outer = tuple((i, e) for i, e in m if not vary(ATOMS[i]) & names)
        groups.setdefault(inner, []).append((outer, c))
    for inner, os in groups.items():
        over = names & vary(Num({inner: Fraction(1)}))
        k = Num({o: c for o, c in os})
        for n in sorted(names - over):
            k = k.mul(sym(n, "int"))
        if over:
            k = k.mul(Num.of(atom("rsum", (tuple(sorted(over)), Num({inner: Fraction(1)})))))
        out = out.add(k)
    return out.div(den)


def _f_rext(fn, other):
    def f(names, x: Num, mask=None) -> Num:
        names = frozenset(names)
        if not vary(x) & names:
            return x
        den = Num(x.d)
        if not vary(den) & names:
            const = Num({m: c for m, c in x.n.items() if not vary(Num({m: Fraction(1)})) & names})
            rest = Num({m: c for m, c in x.n.items() if vary(Num({m: Fraction(1)})) & names})
            if den.value is not None:
                c = rest.n[max(rest.n)]
                k = Num.const(abs(c))
                rest = rest.div(k)
                if c < 0:
                    inner = Num.of(atom(other, (tuple(sorted(names)), rest.neg()) + ((mask,) if mask is not None else ()))).neg()
                else:
                    inner = Num.of(atom(fn, (tuple(sorted(names)), rest) + ((mask,) if mask is not None else ())))
                return inner.mul(k).add(const).div(den)
        return Num.of(atom(fn, (tuple(sorted(names)), x) + ((mask,) if mask is not None else ())))
    return f


f_rmin, f_rmax = _f_rext("rmin", "rmax"), _f_rext("rmax", "rmin")


def f_pick(name, k: int, x: Num) -> Num:
    """Value at a fixed position (from the end if negative) of an axis."""
    return Num.of(atom("pick", ((name,), k, x))) if name in vary(x) else x


def f_cast(dtype: str, x: Num) -> Num:
    a = x.single()
    if a is not None and a.fn == "cast" and a.args[0] == dtype:
        return x
    return Num.of(atom("cast", (dtype, x)))


EVAL.update({k: None for k in ("rsum", "rmin", "rmax", "pick", "cast", "place")})


class Point:
    """Values for symbols, drawn reproducibly."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.signed = seed >= 8     # elements of arrays of either sign
        self.val: dict = {}
        self.range: dict = {}
        self.env: dict[str, int] = {}

    def sym(self, a: Atom):
        if a.args[0] in LENGTH:
            return LENGTH[a.args[0]]
        k = self.where(a)
        if k not in self.val:
            if a.sort == "int":
                self.val[k] = self.rng.randint(2, 97)
            elif a.sort == "sint":  # of either sign
                self.val[k] = self.rng.randint(-6, 6)
            elif a.sort == "bool":
                self.val[k] = self.rng.randint(0, 1)
            elif a.sort == "big":  # so that its integer part tells
                self.val[k] = self.rng.uniform(2.05, 19.95)
            elif isinstance(k, tuple):  # an element: each array has a range of its own
                if a.id not in self.range:
                    self.range[a.id] = self.rng.uniform(0.05, 0.4) - 0.7 * self.signed, self.rng.uniform(0.45, 0.95) - 0.3 * self.signed
                self.val[k] = self.rng.uniform(*self.range[a.id])
            else:
                self.val[k] = self.rng.uniform(0.05, 0.95)
        return self.val[k]

    def where(self, a: Atom):
        v = vary(a)
        return (a.id, *[self.env.get(n, 0) for n in sorted(v)]) if v else a.id

    def ev(self, x: Num):
        def poly(p):
            t = 0.0
            for m, c in p.items():
                v = float(c)
                for i, e in m:
                    v *= self.at(ATOMS[i]) ** e
                t += v
            return t
        return poly(x.n) / poly(x.d)

    def at(self, a: Atom):
        if a.fn == "sym":
            return self.sym(a)
        if a.fn == "pi":
            return math.pi
        k = self.where(a)
        if k not in self.val:
            self.val[k] = self.apply(a)
        return self.val[k]

    def apply(self, a: Atom):
        if a.fn in ("rsum", "rmin", "rmax"):
            vs = []
            for ix in itertools.product(*[range(LENGTH[n]) for n in a.args[0]]):
                old = self.env
                self.env = {**old, **dict(zip(a.args[0], ix))}
                try:
                    if len(a.args) > 2 and not self.ev(a.args[2]):
                        continue
                    vs.append(self.ev(a.args[1]))
                finally:
                    self.env = old
            if a.fn == "rsum":
                return sum(vs)
            if not vs:
                raise ValueError
            return (min if a.fn == "rmin" else max)(vs)
        if a.fn == "pick":
            (n,), k, x = a.args
            old = self.env
            self.env = {**old, n: k % LENGTH[n]}
            try:
                return self.ev(x)
            finally:
                self.env = old
        if a.fn == "place":
            return self.env.get(a.args[0], 0)
        if a.fn == "cast":
            return math.trunc(self.ev(a.args[1]) * 1024) / 1024
        return EVAL[a.fn](*[self.ev(x) for x in a.args])


def differ(a: Num, b: Num, n=12):
    """A point (dict of symbol values) at which two normal forms differ, or
    None.  Unknown parts give None."""
    if not (a.clean and b.clean):
        return None
    for s in range(n):
        p = Point(s)
        try:
            x, y = float(p.ev(a)), float(p.ev(b))
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
            return {ATOMS[i].args[0]: v for i, v in p.val.items() if isinstance(i, int) and ATOMS[i].fn == "sym"}, x, y
    return None


def ground(x: Num) -> bool:
    """Whether no symbol takes part."""
    def of(a: Atom):
        return a.fn == "pi" or a.fn in FUNCS and all(isinstance(v, Num) and ground(v) for v in a.args)
    return x.clean and all(of(ATOMS[i]) for p in (x.n, x.d) for m in p for i, _ in m)


def value_of(x: Num):
    """The value of a number without symbols, or None."""
    if not ground(x):
        return None
    try:
        return float(Point(0).ev(x))
    except (ZeroDivisionError, ValueError, OverflowError):
        return None


def subs(x: Num, f) -> Num:
    """Rebuild a normal form, each atom for which f gives a normal form
    replaced by it."""
    def at(a: Atom) -> Num:
        r = f(a)
        if r is not None:
            return r
        if a.fn in FUNCS and a.args and all(isinstance(v, Num) for v in a.args):
            new = [subs(v, f) for v in a.args]
            if not all(same(u, v) for u, v in zip(new, a.args)):
                return FUNCS[a.fn](*new)
        return Num.of(a)

    def poly(p):
        t = ZERO
        for m, c in p.items():
            v = Num.const(c)
            for i, e in m:
                v = v.mul(at(ATOMS[i]).pow(e))
            t = t.add(v)
        return t
    return poly(x.n).div(poly(x.d))
