"""C50: windows and filters in Fourier space are the ones documented.

Windows, transfer functions and the filtering of an image with a window are
interpreted on arrays of a few pixels with a cell for each (grid.py): images
and windows hold any numbers, and the Fourier transforms of SciPy and NumPy
are described by what they are used for, cyclic convolution.
"""

from __future__ import annotations

import itertools
import math

from .. import poly as Q
from ..alg import Class, Dict, Opaque, PyError, Raises, Unsupported
from ..grid import GAlg, Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from .c43 import described

F64 = DType("float64")


class Spectrum(Opaque):
    """Fourier transform of a real array."""

    def __init__(self, grid, half):
        super().__init__("spectrum", ())
        self.grid, self.half = grid, half


class Engine(GAlg):
    """`more`: how much longer an FFT is than it has to be."""

    def __init__(self, proj, more=0, hooks=None):
        h = {"scipy.fft.next_fast_len": lambda A, a, k, s: Num.const(A.const(a[0] if a else k["target"]) + more),
             "scipy.signal.windows.get_window": get_window, "scipy.signal.get_window": get_window}
        for m in ("scipy.fft.", "numpy.fft."):
            h.update({m + "rfft2": forward(True), m + "fft2": forward(False), m + "irfft2": backward(True),
                      m + "ifft2": backward(False)})
        super().__init__(proj, {**h, **(hooks or {})})

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, Spectrum) or isinstance(b, Spectrum):
            if type(op).__name__ == "Mult" and isinstance(a, Spectrum) and isinstance(b, Spectrum):
                if a.half != b.half or a.grid.axes != b.grid.axes:
                    raise Unsupported("transforms of different size")
                return Spectrum(cyclic(a.grid, b.grid), a.half)
            raise Unsupported("arithmetic on a transform")
        return super().binop(op, a, b)

    def external(self, d, args, kwargs, fr):
        if d == "numpy.real" and isinstance(self.deref(args[0]), Grid):
            return self.deref(args[0])
        return super().external(d, args, kwargs, fr)


def cyclic(a, b):
    """Cyclic convolution of two arrays."""
    h, w = a.axes
    out = []
    at = [(i, x) for i, x in zip(itertools.product(range(h), range(w)), b.cells) if x.value != 0]
    for i, j in itertools.product(range(h), range(w)):
        t = Q.ZERO
        for (k, m), x in at:
            t = t.add(x.mul(a.cells[(i - k) % h * w + (j - m) % w]))
        out.append(t)
    return Grid(a.axes, out, F64)


def forward(half):
    def f(A, args, kwargs, s):
        g = A.grid(args[0] if args else kwargs["x"])
        sh = kwargs.get("s", args[1] if len(args) > 1 else None)
        if sh is not None:
            sh = tuple(A.const(x) for x in A.items(sh))
            full = Grid(sh, [Q.ZERO] * math.prod(sh), F64)
            for i, j in itertools.product(*[range(min(x, y)) for x, y in zip(g.axes, sh)]):
                full.cells[i * sh[1] + j] = g.cells[i * g.axes[1] + j]
            g = full
        if len(g.axes) != 2:
            raise Unsupported("transform")
        return Spectrum(Grid(g.axes, g.cells, F64), half)
    return f


def backward(half):
    def f(A, args, kwargs, s):
        x = A.deref(args[0] if args else kwargs["x"])
        sh = kwargs.get("s", args[1] if len(args) > 1 else None)
        if not isinstance(x, Spectrum) or x.half != half:
            raise Unsupported("inverse transform")
        h, w = x.grid.axes
        if sh is None and half:
            sh = (h, (w // 2) * 2)
        sh = (h, w) if sh is None else tuple(A.const(v) for v in A.items(sh))
        if sh != (h, w):
            return numbers("of a transform cut or padded ", sh)
        return x.grid
    return f


def get_window(A, args, kwargs, s):
    kw = {**dict(zip(("window", "Nx", "fftbins"), args)), **kwargs}
    w, n = kw["window"], A.const(kw["Nx"])
    w = list(A.items(w)) if isinstance(w, (tuple, list)) else [w]
    if not isinstance(n, int) or not isinstance(w[0], str):
        raise Unsupported("window")
    bins = A.truth(kw.get("fftbins", True))
    return scipy_window(w[0], w[1:], n, bins)


def scipy_window(name, params, n, bins):
    if name in ("rectangular", "boxcar", "box", "ones", "rect"):
        return Grid((n,), [Q.ONE] * n, F64)
    ps = tuple(x if isinstance(x, Num) else sym(f"option {x!r}") for x in params)
    return Grid((n,), [Num.of(Q.atom("win", (sym(f"SciPy window {name}" + (", periodic" if bins else "")), *ps, Num.const(n), Num.const(
        i if bins else min(i, n - 1 - i))))) for i in range(n)], F64)


Q.EVAL["win"] = lambda *a: math.sin(sum((k + 1.37) * float(x) for k, x in enumerate(a))) + 2


# -------------------------------------------------------------- comparison
def same(g, w):
    if g.eq(w):
        return True
    x, y = Q.value_of(g), Q.value_of(w)
    return x is not None and y is not None and abs(x - y) <= 1e-12 * max(1, abs(x), abs(y))


def compare(res, rule, what, got, shape, want, where):
    res.count("obligations")
    if isinstance(got, Num) and got.clean:
        res.add(rule, what, f"the result is a number, not an array of shape {tuple(shape)}", where)
        return
    if not isinstance(got, Grid):
        res.undecided.append(f"{what}: result not described ({str(got)[:80]})")
        return
    if tuple(got.axes) != tuple(shape):
        res.add(rule, what, f"the result has shape {tuple(got.axes)}, not {tuple(shape)}", where)
        return
    res.count("values_compared", len(want))
    for p, g, w in zip(itertools.product(*map(range, shape)), got.cells, want):
        if same(g, w):
            continue
        if Q.differ(g, w) is not None:
            res.add(rule, what, f"the value at {p} is {g!r}, not {w!r}"[:600], where)
        else:
            res.undecided.append(f"{what}: value at {p}: {g!r} vs {w!r}"[:300])
        return
    res.count("proved_equal")


def told(res, rule, what, A, got, want, where):
    """Compare numbers, words and tuples of them."""
    res.count("obligations")
    def plain(v):
        v = A.deref(v)
        if isinstance(v, Grid) and len(v.axes) == 1:
            return tuple(plain(c) for c in v.cells)
        if isinstance(v, (tuple, list)):
            return tuple(plain(x) for x in v)
        if isinstance(v, (str, bool, type(None))):
            return v
        c = A.const(v)
        return v if c is None else c
    try:
        g = plain(got)
    except (Unsupported, PyError, AttributeError):
        g = got
    if isinstance(want, bool) and not isinstance(g, bool):
        t = A.truth(got)
        g = t if t is not None else g
    if isinstance(g, (Opaque, Num)) or isinstance(g, tuple) and any(isinstance(x, (Opaque, Num)) for x in g):
        res.undecided.append(f"{what}: {str(g)[:100]}")
    elif g != want:
        res.add(rule, what, f"it is {g!r}, not {want!r}", where)
    else:
        res.count("proved_equal")


def places(shape):
    return list(itertools.product(*map(range, shape)))


def distances(shape, origin=None):
    o = [n // 2 for n in shape] if origin is None else origin
    out = []
    for p in places(shape):
        t = Q.ZERO
        for x, y in zip(p, o):
            d = Num.const(x).sub(y if isinstance(y, Num) else Num.const(y))
            t = t.add(d.mul(d))
        out.append(Q.f_sqrt(t) if len(shape) > 1 else Q.f_abs(Num.const(p[0]).sub(o[0] if isinstance(o[0], Num) else Num.const(o[0]))))
    return out


def number(x):
    return Num.const(Q.Fraction(x))


def transfer(shape, c, w, low):
    """Low-pass or high-pass transfer function."""
    out = []
    for r in distances(shape):
        v = Q.value_of(r)
        if low:
            zero, one = v > c + 2 * w + 1e-12, v < c - 1e-12
        else:
            zero, one = v < c - 2 * w - 1e-12, v > c + 1e-12
        x = r.sub(number(c)).div(Q.f_sqrt(Num.const(2)).mul(number(w)).div(Num.const(2)))
        out.append(Q.ONE if one else Q.ZERO if zero else Q.FUNCS["exp"](x.mul(x).neg()))
    return out


def hann(n):
    return [Q.f_cos(Q.PI.mul(Num.const(i).sub(Num.const(n).div(Num.const(2))).add(number("1/2"))).div(Num.const(n))) for i in range(n)]


def outer(a, b):
    return [x.mul(y) for x in a for y in b]


def shape_of(s):
    return tuple(Num.const(n) for n in s)


def numbers(name, shape):
    return Grid(shape, [sym(f"{name}[{','.join(map(str, p))}]") for p in places(shape)], F64)


def public(proj, name, where=".filters."):
    return [f for f in proj.funcs.values() if f.name == name and f.cls is None and f.parent is None and (
        where in f.qualname or len(proj.modules) < 3)]


# ----------------------------------------------------------------- windows
SHAPES = ((1,), (4,), (5,), (3, 3), (4, 5), (2, 6), (1, 3), (3, 1), (1, 1))


def functions(proj, res, seen):
    for fn in public(proj, "distance_to_origin"):
        for shape in SHAPES:
            for origin in (None, (0,) * len(shape), tuple(n - 1 for n in shape), tuple(range(2, 2 + len(shape)))):
                what = f"distance_to_origin({shape}, origin={origin})"

                def one():
                    A = Engine(proj)
                    r = A.call_func(fn, [shape_of(shape)], {} if origin is None else {"origin": shape_of(origin)})
                    compare(res, "distance", what, r, shape, distances(shape, origin), fn.where)
                    seen.update(A.functions)
                described(res, "distance", what, one, fn.where)
    for fn in public(proj, "modified_hann"):
        for n in range(1, 7):
            what = f"modified_hann({n})"

            def one():
                A = Engine(proj)
                compare(res, "hann", what, A.call_func(fn, [Num.const(n)], {}), (n,), hann(n), fn.where)
                seen.update(A.functions)
            described(res, "hann", what, one, fn.where)
    for name, low in (("lowpass_fft_filter", True), ("highpass_fft_filter", False)):
        for fn in public(proj, name):
            for shape in ((5, 6), (8, 8), (1, 8), (7, 1)):
                for c, w in ((2, 1), (Q.Fraction(3, 2), Q.Fraction(1, 4)), (3, None), (1, 0.5)):
                    what = f"{name}({shape}, cutoff={c}, cutoff_width={w})"

                    def one():
                        A = Engine(proj)
                        r = A.call_func(fn, [shape_of(shape), number(c)], {} if w is None else {"cutoff_width": number(w)})
                        compare(res, "filter", what, r, shape, transfer(shape, c, Q.Fraction(c) / 2 if w is None else w, low), fn.where)
                        seen.update(A.functions)
                    described(res, "filter", what, one, fn.where)


def circular(shape, cells):
    if len(shape) == 1:
        return list(cells), False
    far = max(n // 2 for n in shape)
    return [x if Q.value_of(d) <= far + 1e-12 else Q.ZERO for x, d in zip(cells, distances(shape))], True


def cases():
    """(name of the case, positional arguments, keyword arguments, name,
    circular?, shape, cells)"""
    for shape in SHAPES:
        ones = [Q.ONE] * math.prod(shape)
        cells, circ = circular(shape, ones)
        for tag, a, k in ((f"shape={shape}", [], {}), (f"'circular', shape={shape}", ["circular"], {})):
            yield tag, a, {**k, "shape": shape_of(shape)}, "circular" if circ else "rectangular", circ, shape, cells
        yield f"'rectangular', shape={shape}", ["rectangular"], {"shape": shape_of(shape)}, "rectangular", False, shape, ones
        std = sym("std")
        for kw, ps, name in (({"std": std}, [std], "gaussian"), ({"p": sym("p"), "sig": sym("sig")}, [sym("p"), sym("sig")],
                                                                   "general_gaussian"), ({}, [], "hamming")):
            for bins in (None, True) if name == "gaussian" else (None,):
                one = [scipy_window(name, ps, n, bool(bins)).cells for n in shape]
                k = dict(kw) if bins is None else {**kw, "fftbins": True}
                yield (f"{name!r}, {', '.join(k)}, shape={shape}", [name], {**k, "shape": shape_of(shape)}, name, False, shape,
                       one[0] if len(shape) == 1 else outer(*one))
        h = [hann(n) for n in shape]
        yield f"'modified_hann', shape={shape}", ["modified_hann"], {"shape": shape_of(shape)}, "modified_hann", False, shape, (
            h[0] if len(shape) == 1 else outer(*h))
    yield "no arguments", [], {}, "circular", True, (3, 3), circular((3, 3), [Q.ONE] * 9)[0]
    yield "'hann', Nx=5", ["hann"], {"Nx": Num.const(5)}, "hann", False, (5,), scipy_window("hann", [], 5, False).cells
    for low in (True, False):
        name = "lowpass" if low else "highpass"
        for w in (None, number("1/2")):
            yield (f"{name!r}, cutoff=2, cutoff_width={w}", [name], {
                "shape": shape_of((6, 5)), "cutoff": Num.const(2), **({} if w is None else {"cutoff_width": w})},
                name, False, (6, 5), transfer((6, 5), 2, 1 if w is None else Q.Fraction(1, 2), low))
    for shape in ((4,), (3, 4)):
        g = numbers("w", shape)
        yield f"array of shape {shape}", [g.copy()], {}, "custom", False, shape, list(g.cells)


def windows(proj, res, seen):
    cls = next((c for c in proj.classes.values() if c.name == "Window"), None)
    if cls is None:
        return
    f = proj.lookup(cls, "__new__") or proj.lookup(cls, "__init__")
    where = f.where if f is not None else cls.qualname
    for tag, args, kw, name, circ, shape, cells in cases():
        what = f"Window({tag})"

        def one():
            A = Engine(proj)
            w = A.construct(cls, list(args), dict(kw))
            compare(res, "window", what, w, shape, cells, where)
            told(res, "name", f"{what}.name", A, A.attr(w, "name", None), name, where)
            told(res, "name", f"{what}.circular", A, A.attr(w, "circular", None), circ, where)
            o = tuple(n // 2 for n in shape)
            told(res, "origin", f"{what}.origin", A, A.attr(w, "origin", None), o, where)
            told(res, "origin", f"{what}.n_neighbours", A, A.attr(w, "n_neighbours", None), tuple(n - k - 1 for n, k in zip(shape, o)), where)
            told(res, "name", f"{what}.is_valid", A, A.attr(w, "is_valid", None), True, where)
            if "cutoff" not in kw:
                compare(res, "distance", f"{what}.distance_to_origin", A.attr(w, "distance_to_origin", None), shape, distances(shape), where)
            for to in ((3,), (3, 3), (2, 5), (5, 2), (4, 4, 4), (1,)):
                fits = len(shape) <= len(to) and all(a <= b for a, b in zip(shape, to))
                if len(shape) == len(to) or len(shape) > len(to):
                    told(res, "fits", f"{what}.shape_compatible({to})", A, A.method(w, "shape_compatible", [shape_of(to)], Dict(), None),
                         fits, where)
            seen.update(A.functions)
            if not circ and name != "circular" and name != "custom" or name == "custom":
                A.method(w, "make_circular", [], Dict(), None)
                cs, c = circular(shape, cells)
                compare(res, "window", f"{what}.make_circular()", w, shape, cs, where)
                told(res, "name", f"{what}.make_circular(), circular", A, A.attr(w, "circular", None), c, where)
                told(res, "name", f"{what}.make_circular(), name", A, A.attr(w, "name", None),
                     "circular" if name == "rectangular" and c else name, where)
        described(res, "window", what, one, where)
    for tag, args, kw in (("shape=(0, 3)", [], {"shape": shape_of((0, 3))}), ("shape=(3, -1)", [], {"shape": shape_of((3, -1))}),
                          ("shape=5", [], {"shape": Num.const(5)}), ("a number", [Num.const(1)], {})):
        what = f"Window({tag})"
        res.count("obligations")
        try:
            r = Engine(proj).construct(cls, list(args), dict(kw))
        except (Raises, PyError):
            res.count("proved_equal")
        except (Unsupported, Q.TooBig, RecursionError) as e:
            res.undecided.append(f"{what}: {type(e).__name__} {e}"[:200])
        else:
            if isinstance(r, Grid):
                res.add("refused", what, "accepted", where)
            else:
                res.undecided.append(f"{what}: {str(r)[:100]}")


# ------------------------------------------------------------------ filter
def nearest(image, window):
    """Correlation of an image with a window, the image continued by its
    outermost pixels."""
    (h, w), (a, b) = image.axes, window.axes
    out = []
    for i, j in places((h, w)):
        t = Q.ZERO
        for k, m in places((a, b)):
            y, x = min(max(i + k - a // 2, 0), h - 1), min(max(j + m - b // 2, 0), w - 1)
            t = t.add(window.cells[k * b + m].mul(image.cells[y * w + x]))
        out.append(t)
    return out


def filtering(proj, res, seen, thorough):
    sizes = [((4, 5), (3, 3)), ((4, 3), (2, 3)), ((3, 4), (3, 2)), ((4, 5), (4, 4)), ((3, 3), (1, 3)), ((3, 2), (3, 1)),
             ((2, 3), (1, 1)), ((5, 4), (5, 3))]
    if thorough:
        sizes += [((6, 5), (4, 3)), ((5, 6), (5, 5)), ((5, 5), (2, 2)), ((2, 2), (5, 4))]
    for fn in public(proj, "fft_filter"):
        for shape, win in sizes:
            for more in (0, 1, 3):
                what = f"fft_filter(image {shape}, window {win}), transforms {more} longer than needed"

                def one():
                    A = Engine(proj, more)
                    x, w = numbers("x", shape), numbers("w", win)
                    r = A.call_func(fn, [x.copy(), w.copy()], {})
                    compare(res, "filtered", what, r, shape, nearest(x, w), fn.where)
                    seen.update(A.functions)
                described(res, "filtered", what, one, fn.where)


def scan(proj, res: Result, thorough):
    seen: set = set()
    functions(proj, res, seen)
    windows(proj, res, seen)
    filtering(proj, res, seen, thorough)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import numpy as np
from scipy.fft import irfft2, next_fast_len, rfft2
from scipy.signal.windows import get_window


class Window(np.ndarray):
    _name = None
    _circular = False

    def __new__(cls, window=None, shape=None, **kwargs):
        shape = (kwargs.pop("Nx"),) if "Nx" in kwargs else (3, 3) if shape is None else tuple(shape)
        if min(shape) < 0:
            raise ValueError("shape")
        name = window or "circular"
        if isinstance(window, np.ndarray):
            name, data = "custom", window
        elif not isinstance(name, str):
            raise ValueError("window")
        elif name in ("lowpass", "highpass"):
            f = lowpass_fft_filter if name == "lowpass" else highpass_fft_filter
            data = f(shape, kwargs["cutoff"], kwargs.get("cutoff_width"))
        else:
            def one(n):
                if name == "modified_hann":
                    return modified_hann(n)
                bins = kwargs.get("fftbins", False)
                rest = tuple(v for k, v in kwargs.items() if k != "fftbins")
                return get_window(("boxcar" if name == "circular" else name,) + rest, n, fftbins=bins)
            data = one(shape[0])
            if len(shape) == 2:
                data = np.outer(data, one(shape[1]))
        obj = np.asarray(data).view(cls)
        obj._name = "rectangular" if name == "circular" else name
        if name == "circular":
            obj.make_circular()
        return obj

    @property
    def circular(self):
        return self._circular

    @property
    def name(self):
        return self._name

    @property
    def is_valid(self):
        return self.ndim < 3 and isinstance(self.name, str)

    @property
    def origin(self):
        return tuple((i - 1) // 2 for i in self.shape)

    @property
    def n_neighbours(self):
        return tuple(np.subtract(self.shape, self.origin) - 1)

    @property
    def distance_to_origin(self):
        return distance_to_origin(self.shape, self.origin)

    def make_circular(self):
        if self.ndim == 1:
            return
        self[self.distance_to_origin > max(self.origin)] = 0
        self._circular = True
        if self.name == "rectangular":
            self._name = "circular"

    def shape_compatible(self, shape):
        return len(self.shape) <= len(shape) and all(np.array(self.shape) <= np.array(shape))


def distance_to_origin(shape, origin=None):
    if origin is None:
        origin = [n // 2 for n in shape]
    if len(shape) == 1:
        return np.abs(np.arange(shape[0]) - origin[0])
    y, x = np.ogrid[: shape[0], : shape[1]]
    return np.sqrt((y - origin[0]) ** 2 + (x - origin[1]) ** 2)


def modified_hann(Nx):
    return np.cos(np.pi * (np.arange(Nx) - Nx / 2) / Nx)


def _flank(r, c, w):
    return np.exp(-(((r - c) / (np.sqrt(2) * w / 2)) ** 2))


def lowpass_fft_filter(shape, cutoff, cutoff_width=None):
    r = distance_to_origin(shape)
    w = cutoff / 2 if cutoff_width is None else cutoff_width
    return np.where(r < cutoff, 1, np.where(r > cutoff + 2 * w, 0, _flank(r, cutoff, w)))


def highpass_fft_filter(shape, cutoff, cutoff_width=None):
    r = distance_to_origin(shape)
    w = cutoff if cutoff_width is None else cutoff_width
    return np.where(r > cutoff, 1, np.where(r < cutoff - 2 * w, 0, _flank(r, cutoff, w)))


def fft_filter(image, window):
    (h, w), (a, b) = image.shape, window.shape
    shape = (next_fast_len(h + a - 1, real=True), next_fast_len(w + b - 1, real=True))
    kernel = np.zeros(shape)
    kernel[:a, :b] = window[::-1, ::-1]
    padded = np.zeros(shape)
    for i in range(h + a - 1):
        for j in range(w + b - 1):
            padded[i, j] = image[min(max(i - a // 2, 0), h - 1), min(max(j - b // 2, 0), w - 2)]
    r = irfft2(rfft2(padded) * rfft2(kernel), shape)
    return r[a - 1 : a - 1 + h, b - 1 : b - 1 + w]
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C50",
        explanation=(
            "abstract interpretation of Window, distance_to_origin(), modified_hann(), the low-pass and high-pass transfer "
            "functions and the filtering of an image with a window, on arrays of few pixels with a cell for each, in which "
            "images, windows and parameters of SciPy's windows are any numbers. Every value must equal its definition: "
            "distances to the origin, cosines, flanks between the cut-off and where the function vanishes, the outer product "
            "of windows, corners left out of a circular one, and correlation with the image continued by its outermost "
            "pixels, for windows of odd and even size and transforms longer than needed"
        ),
        assumptions=["SciPy's transforms make products cyclic convolutions", "SciPy's get_window gives the windows it names"],
    )
    scan(ctx.proj, res, ctx.tier == "thorough")
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "windows and filters not found")
    r = Result("C50")
    scan(project_from(dict(SELFTEST)), r, None)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("hann:modified_hann(4)", "filter:highpass_fft_filter((8, 8), cutoff=3, cutoff_width=None)", "filtered:fft_filter(image (4, 5)",
            "origin:Window('rectangular', shape=(4,)).origin", "refused:Window(shape=(0, 3))")
    quiet = ("lowpass_fft_filter", "cutoff=3/2, cutoff_width=1/4)", "distance:distance_to_origin(", "shape_compatible", "Window(no arguments)")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:300]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt[:300]})")
    res.require(not r.undecided, f"self-test: undecided ({r.undecided[:3]})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
