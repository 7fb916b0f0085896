"""C43: intensity operations give the documented intensities in every pixel."""

from __future__ import annotations

import itertools
import re

from .. import poly as Q
from ..alg import Class, Dict, External, Fn, Obj, Opaque, PyError
from ..poly import Num, sym
from ..report import Ctx, Result
from ..grid import GAlg
from ..selftest import project_from
from ..tens import Axis, DType, OtherAxis, TAlg, Ten, _arrays, array, unknown_array

SY, SX = Q.axis("Sy", 5), Q.axis("Sx", 8)           # pattern rows and columns
NY, NX = Q.axis("Ry", 2), Q.axis("Rx", 2)           # map rows and columns
WY, WX = Q.axis("Wy", 4), Q.axis("Wx", 11)           # window rows and columns
SIG, NAV, WIN = (SY, SX), (NY, NX), (WY, WX)
ONE, TWO = Q.ONE, Num.const(2)
SIGNALS = ("EBSD", "LazyEBSD")


def length(n):
    return sym(n, "int")


def lo(d="dtype"):
    return sym(f"lowest({d})")


def hi(d="dtype"):
    return sym(f"highest({d})")


def rescaled(x, imin, imax, omin, omax):
    return x.sub(imin).div(imax.sub(imin)).mul(omax.sub(omin)).add(omin)


def stretched(x, omin, omax, over=SIG):
    return rescaled(x, Q.f_rmin(over, x), Q.f_rmax(over, x), omin, omax)


def mean(x, over=SIG):
    n = ONE
    for a in over:
        n = n.mul(length(a))
    return Q.f_rsum(over, x).div(n)


class Engine(TAlg):
    """Value numbering with a signal's methods described by their contract."""

    def __init__(self, proj, hooks=None):
        super().__init__(proj, {
            "_fft_filter": barnes_filter, "_fft_filter_setup": barnes_setup, "fft_frequency_vectors": frequency_vectors,
            "get_dask_array": dask_array, "dask.array.overlap.map_overlap": map_overlap,
            "dask.array.map_overlap": map_overlap, "_get_custom_attributes": lambda A, a, k, s: Dict(),
            "_set_custom_attributes": lambda A, a, k, s: None, "_get_axes_and_metadata": lambda A, a, k, s: Dict(),
            "dask.array.map_blocks": map_blocks, "dask.diagnostics.ProgressBar": lambda A, a, k, s: Opaque("bar"),
            "hyperspy.api.preferences": lambda A, a, k, s: Opaque("preferences"), **(hooks or {})})
        self.depths = []
        self.chunked = None   # whether the map is in several chunks

    def construct(self, c: Class, args, kwargs):
        if c.name == "Window":
            return self.window(args, kwargs)
        if any(m.name in SIGNALS for m in self.proj.mro(c)) or c.name in SIGNALS:
            data = args[0] if args else kwargs.get("data")
            return signal(self, c, data if isinstance(data, Ten) else None)
        return super().construct(c, args, kwargs)

    def window(self, args, kwargs):
        kw = {**dict(zip(("window", "shape"), args)), **kwargs}
        return unknown_array("window", (Dict(kw),), WIN)

    def method(self, o, name, args, kwargs, fr):
        o = self.deref(o)
        if isinstance(o, Ten):
            if name == "map_blocks":
                return map_blocks(self, args[:1] + [o] + list(args[1:]) if args else [kwargs["func"], o],
                                  {k: v for k, v in kwargs.items() if k != "func"}, None)
            if name == "map_overlap":
                return map_overlap(self, args[:1] + [o] + list(args[1:]) if args else [kwargs["func"], o],
                                   {k: v for k, v in kwargs.items() if k != "func"}, None)
            if name == "store":
                target = args[0]
                if isinstance(target, Ten):
                    target.elem, target.axes = self.cast(o, target.dtype).elem if target.dtype is not None else o.elem, o.axes
                return None
        return super().method(o, name, args, kwargs, fr)

    def num(self, v):
        if isinstance(v, External) and "preferences" in v.dotted:
            return sym(v.dotted, "bool")
        return super().num(v)

    def isinst(self, v, c):
        if isinstance(v, Ten):
            cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
            if any(isinstance(x, Class) and x.name == "Window" for x in cs) and self.is_window(v):
                return True
        return super().isinst(v, c)

    def is_signal(self, o):
        return isinstance(o, Obj) and "axes_manager" in o.attrs and "data" in o.attrs

    def is_window(self, v):
        a = v.elem.single()
        return a is not None and a.fn == "sym" and str(a.args[0]).startswith("window")

    def attr(self, o, a, fr):
        if self.is_signal(o):
            m = signal_method(self, o, a)
            if m is not None:
                return Fn(a, m)
        if isinstance(o, Ten) and a == "is_valid" and self.is_window(o):
            return True
        if isinstance(o, Ten) and a == "chunks" and self.chunked is not None:
            return tuple((x.length.sub(Q.ONE), Q.ONE) if i in self.chunked else (x.length,)
                         for i, x in enumerate(o.axes))
        return super().attr(o, a, fr)


def bound(names, args, kwargs):
    return {**dict(zip(names, args)), **kwargs}


def barnes_setup(A, args, kwargs, s):
    kw = bound(("image_shape", "window"), args, kwargs)
    w = kw["window"]
    if not isinstance(w, Ten):
        return Opaque("setup")
    shape = tuple(A.num(x) for x in A.items(kw["image_shape"]))
    t = unknown_array("transfer", (shape, w), WIN)
    return (Opaque("fft_shape", (shape,) + tuple(w.axes)), t, Opaque("before", tuple(w.axes)), Opaque("after", tuple(w.axes)))


def barnes_filter(A, args, kwargs, s):
    kw = bound(("image", "transfer_function", "fft_shape", "window_shape", "offset_before_fft", "offset_after_ifft"), args, kwargs)
    image, t = kw["image"], kw["transfer_function"]
    if not isinstance(image, Ten) or not isinstance(t, Ten):
        return Opaque("filtered")
    a = kw["offset_before_fft"], kw["offset_after_ifft"], kw["fft_shape"]
    return unknown_array("filtered", (image, t) + a, image.axes)


def frequency_vectors(A, args, kwargs, s):
    sh = tuple(A.num(x) for x in A.items(args[0] if args else kwargs["shape"]))
    return unknown_array("frequencies", (sh,), SIG if len(sh) == 2 and sh[0].eq(length(SY)) and sh[1].eq(length(SX)) else SIG[::-1])


def dask_array(A, args, kwargs, s):
    sig = args[0] if args else kwargs["signal"]
    d = kwargs.get("dtype", args[1] if len(args) > 1 else None)
    t = sig.attrs["data"]
    return t.copy() if d is None else A.cast(t.copy(), d)


def out_cast(A, r, d):
    return A.cast(r, d) if isinstance(r, (Ten, Num)) and d is not None else r


def map_blocks(A, args, kwargs, s):
    kw = {k: v for k, v in kwargs.items() if k not in ("dtype", "chunks", "drop_axis", "new_axis", "meta", "name", "token",
                                                      "enforce_ndim")}
    return A.call(args[0], list(args[1:]), kw, None)


def map_overlap(A, args, kwargs, s):
    kw = {k: v for k, v in kwargs.items() if k not in ("dtype", "depth", "boundary", "trim", "align_arrays", "drop_axis",
                                                      "new_axis", "chunks", "allow_rechunk", "meta")}
    A.depths.append((kwargs.get("depth"), kwargs.get("boundary")))
    return A.call(args[0], list(args[1:]), kw, None)


def signal(A, cls, data, lazy=False, bg=None, name="s"):
    """A signal with patterns in a map."""
    o = Obj(cls, name)
    nav = [a for a in data.axes[:-2]] if data is not None else []
    o.attrs.update({
        "data": data, "_lazy": lazy, "_static_background": bg,
        "axes_manager": Obj(None, "axes_manager", {
            "signal_shape": (length(SX), length(SY)), "signal_dimension": Num.const(2),
            "signal_size": length(SX).mul(length(SY)),
            "navigation_shape": tuple(a.length for a in nav[::-1]), "navigation_dimension": Num.const(len(nav)),
            "signal_indices_in_array": (Num.const(len(nav) + 1), Num.const(len(nav)))}),
    })

    return o


def mapped(A, o, args, kwargs):
    kw = dict(kwargs)
    f = args[0] if args else kw.pop("function")
    inplace = A.truth(kw.pop("inplace", True))
    d = kw.pop("output_dtype", None)
    for k in ("show_progressbar", "lazy_output", "ragged", "navigation_chunks", "output_signal_size", "silence_warnings",
              "max_workers", "num_workers"):
        kw.pop(k, None)
    t = o.attrs["data"]
    n = len(t.axes) - 2
    r = A.call(f, [Ten(t.axes[n:], t.elem, t.dtype)], kw, None)
    r = out_cast(A, r, d)
    if isinstance(r, Ten):
        r = Ten(t.axes[:n] + r.axes, r.elem, r.dtype)
    elif isinstance(r, Num):
        r = Ten(t.axes[:n], r, None)
    else:
        r = Opaque("mapped", (r,))
    if inplace:
        o.attrs["data"] = r
        return None
    return signal_like(A, o, r)


def signal_method(A, o, name):
    """Methods of HyperSpy's signals by their contract."""
    if name == "map":
        return lambda A, args, kwargs: mapped(A, o, args, kwargs)
    if name in ("deepcopy", "as_lazy"):
        return lambda A, args, kwargs: signal_like(A, o, o.attrs["data"].copy())
    if name == "compute":
        return lambda A, args, kwargs: None
    return None


def signal_like(A, o, data):
    r = signal(A, o.cls, data if isinstance(data, Ten) else Ten((), Q.ZERO), o.attrs["_lazy"], o.attrs["_static_background"])
    r.attrs["data"] = data
    return r


def compare(res, rule, what, got, want: Ten, where):
    """The array's axes and generic element against their definition."""
    res.count("obligations")
    if isinstance(got, Num) and not want.axes:
        got = Ten((), got)
    if not isinstance(got, Ten):
        res.undecided.append(f"{what}: result not described ({str(got)[:80]})")
        return
    ga, wa = [a for a in got.axes if a.names], [a for a in want.axes if a.names]
    if len(ga) != len(wa) or not all(x.same(y) for x, y in zip(ga, wa)):
        res.add(rule, what, f"the result has axes {ga}, not {wa}", where)
        return
    if got.elem.eq(want.elem):
        res.count("proved_equal")
        return
    d = Q.differ(got.elem, want.elem)
    cut = integer_sums(got.elem)
    if d is None and cut is not None:
        # the same defect in every case: one finding of its own
        what = f"{what.split('(')[0]}: sums of window coefficients"
        if any(f.rule == rule and f.construct == what for f in res.findings):
            return
        res.add(rule, what, f"{cut!r} is cut to whole numbers, 0 for a window of small coefficients: the pixel is not "
                f"{want.elem!r}"[:500] + explained(got), where)
        return
    if d is None:
        res.undecided.append(f"{what}: {got.elem!r} vs {want.elem!r}"[:300])
        return
    res.add(rule, what, f"a pixel is {got.elem!r}, not {want.elem!r}"[:600] + explained(got, want), where)


def integer_sums(x: Num):
    """A correlation with the window cut to integers."""
    for i in x.all_atoms():
        a = Q.ATOMS[i]
        if a.fn == "cast" and str(a.args[0]).rstrip("0123456789") in ("int", "uint") and isinstance(a.args[1], Num):
            b = a.args[1].single()
            if b is not None and b.fn == "sym" and str(b.args[0]).startswith("scipy.ndimage.correlate"):
                return a.args[1]
    return None


def explained(*tens):
    """What the arrays of library functions named in the elements are of."""
    out = []
    for t in tens:
        for n in sorted(set(re.findall(r"([\w.]+)#(\d+)", repr(t.elem)))):
            k = _arrays.get(n[0], [])
            text = f"{n[0]}#{n[1]} = {n[0]}{k[int(n[1]) - 1]!r}"[:400] if int(n[1]) <= len(k) else ""
            if text and text not in out:
                out.append(text)
    return "; where " + "; ".join(out[:4]) if out else ""


def described(res, rule, what, fn, where):
    """One obligation; a call that fails for every content of the arrays
    breaks it."""
    try:
        fn()
    except PyError as e:
        res.count("obligations")
        res.add(rule, what, f"the call fails: {str(e) or 'index out of range'}", where)
    except OtherAxis as e:
        if rule == "neighbour-average":
            res.count("obligations")
            res.add(rule, what, "the window's sums are read along other axes than those of the map", where)
        else:
            res.undecided.append(f"{what}: {e}")
    except Exception as e:  # not described by the engine
        res.undecided.append(f"{what}: {type(e).__name__} {e}")


def short_of(x: Num, y: Num):
    """Whether x < y is possible."""
    d = x.sub(y)
    if d.value is not None:
        return d.value < 0
    for n in range(24):
        try:
            if Q.Point(n).ev(d) < 0:
                return True
        except (ZeroDivisionError, ValueError, OverflowError):
            pass
    return False


def patterns(name="pattern", dtype="dtype"):
    return array(name, NAV + SIG, DType(dtype))


def pattern(name="pattern", dtype="dtype"):
    t = patterns(name, dtype)
    return Ten(t.axes[2:], t.elem, t.dtype)


def window_of(std, truncate):
    side = Q.f_int(truncate.mul(std))
    w = unknown_array("window", (Dict({"window": "gaussian", "std": std, "shape": (side, side)}),), WIN)
    return Ten(w.axes, w.elem.div(Q.f_rsum(WIN, w.elem)))


def dynamic(A, p: Ten, domain, std, truncate):
    """The documented dynamic background: the pattern blurred with a
    Gaussian."""
    if domain == "spatial":
        return A.external("scipy.ndimage.gaussian_filter", [p], Dict({"sigma": std, "truncate": truncate}), None)
    _, t, b, a = barnes_setup(A, [(length(SY), length(SX)), window_of(std, truncate)], {}, None)
    return barnes_filter(A, [p], {"transfer_function": t, "fft_shape": _, "window_shape": (), "offset_before_fft": b,
                                  "offset_after_ifft": a}, None)


def public(proj, name, path="pattern"):
    return [f for f in proj.funcs.values() if f.name == name and f.cls is None and f.parent is None
            and f.qualname.split(".")[-2] in ("_pattern", "m")]


def methods(proj, name, cls="EBSD"):
    c = next((c for c in proj.classes.values() if c.name == cls), None)
    f = proj.lookup(c, name) if c is not None else None
    return [(c, f)] if f is not None else []


def scan(proj, ctx, res: Result):
    seen: set[str] = set()

    def ask(rule, what, f, make, want, cls=None, hooks=None):
        """Describe a call and compare; make(A) gives (self, args, kwargs),
        want(A) the expected array."""
        def one():
            a = Engine(proj, hooks)
            self_, args, kw = make(a)
            v = a.call_func(f, args, Dict(kw), self_=self_)
            seen.update(a.functions)
            if self_ is not None and isinstance(v, Obj):
                v = v.attrs["data"]
            elif self_ is not None and v is None:
                v = self_.attrs["data"]
            compare(res, rule, what, v, want(a), f.where)
            return a
        described(res, rule, what, one, f.where)

    p = pattern()
    P = patterns()
    pe = p.elem
    om, oM = lo(), hi()
    # --------------------------------------------------- static background
    Bt = array("background", SIG, DType("dtype"))
    for cls, f in methods(proj, "remove_static_background"):
        for op in ("subtract", "divide"):
            for scale in (False, True):
                for given in (False, True):
                    for inplace in (True, False):
                        B = array("given background" if given else "background", SIG, DType("dtype"))
                        bg = B.elem
                        if scale:
                            bg = rescaled(bg, Q.f_rmin(SIG, bg), Q.f_rmax(SIG, bg), Q.f_rmin(SIG, pe), Q.f_rmax(SIG, pe))
                        x = pe.sub(bg) if op == "subtract" else pe.div(bg)
                        want = Ten(NAV + SIG, Q.f_cast("dtype", stretched(x, om, oM)))
                        kw = {"operation": op, "scale_bg": scale, "inplace": inplace}
                        if given:
                            kw["static_bg"] = B
                        ask("static-background", f"{f.name}({op}, scale_bg={scale}, static_bg={'given' if given else None}, "
                            f"inplace={inplace})", f,
                            lambda a, kw=kw: (signal(a, cls, patterns(), bg=array("background", SIG, DType("dtype"))), [], kw),
                            lambda a, want=want: want)
    # -------------------------------------------------- dynamic background
    std, trunc = sym("std", "big"), sym("truncate", "big")
    variants = [(d, s, t) for d in ("frequency", "spatial") for s, t in ((None, None), (std, trunc))]
    width8 = length(SX).div(Num.const(8))
    for domain, s, t in variants:
        skw = {"filter_domain": domain, **({"std": s, "truncate": t} if s is not None else {})}
        S_, T_ = (s, t) if s is not None else (width8, Num.const(4))
        txt = f"{domain}, std={'given' if s is not None else None}"
        for op in ("subtract", "divide"):
            def want(a, op=op, domain=domain, S_=S_, T_=T_, nav=NAV):
                b = dynamic(a, p, domain, S_, T_)
                x = pe.sub(b.elem) if op == "subtract" else pe.div(b.elem)
                return Ten(nav + SIG, Q.f_cast("dtype", stretched(x, om, oM)))
            for cls, f in methods(proj, "remove_dynamic_background"):
                for inplace in (True, False):
                    ask("dynamic-background", f"EBSD.{f.name}({op}, {txt}, inplace={inplace})", f,
                        lambda a, kw=dict(skw, operation=op, inplace=inplace): (signal(a, cls, patterns()), [], kw), want)
            for f in public(proj, "remove_dynamic_background"):
                ask("dynamic-background", f"{f.name}({op}, {txt})", f,
                    lambda a, kw=dict(skw, operation=op): (None, [pattern()], kw),
                    lambda a, want=want: want(a, nav=()))
        for dt in (None, "other"):
            def want(a, domain=domain, S_=S_, T_=T_, nav=NAV, dt=dt):
                b = dynamic(a, p, domain, S_, T_)
                return Ten(nav + SIG, Q.f_cast(dt or "dtype", b.elem))
            for cls, f in methods(proj, "get_dynamic_background"):
                if dt is None or domain == "spatial":
                    for lazy in (False, True):
                        # patterns are converted to the output data type before they are blurred
                        def want2(a, domain=domain, S_=S_, T_=T_, dt=dt):
                            q = p if dt is None else Ten(SIG, Q.f_cast(dt, pe))
                            return Ten(NAV + SIG, Q.f_cast(dt or "dtype", dynamic(a, q, domain, S_, T_).elem))
                        kw = dict(skw, **({"dtype_out": DType(dt)} if dt else {}))
                        ask("get-background", f"EBSD.{f.name}({txt}, dtype_out={dt}, lazy={lazy})", f,
                            lambda a, kw=kw, lazy=lazy: (signal(a, cls, patterns(), lazy=lazy), [], kw), want2)
            if dt is None:
                for f in public(proj, "get_dynamic_background"):
                    ask("get-background", f"{f.name}({txt})", f,
                        lambda a, kw=skw: (None, [pattern()], kw), lambda a, want=want: want(a, nav=()))
    # --------------------------------------------------------- intensities
    norm = lambda k, root: pe.sub(mean(pe)).div(  # noqa: E731
        k.mul(Q.f_sqrt(mean(pe.sub(mean(pe)).pow(2)))).mul(Q.f_sqrt(length(SY).mul(length(SX))) if root else ONE))
    k = sym("num_std")
    for root in (False, True):
        kw = {"num_std": k, "divide_by_square_root": root}
        for f in public(proj, "normalize_intensity"):
            for dt in (None, "other"):
                w = norm(k, root)
                ask("normalize", f"{f.name}(divide_by_square_root={root}, dtype_out={dt})", f,
                    lambda a, kw=kw, dt=dt: (None, [pattern()], {**kw, "dtype_out": dt and DType(dt)}),
                    lambda a, w=w, dt=dt: Ten(SIG, Q.f_cast(dt, w) if dt else w))
        for cls, f in methods(proj, "normalize_intensity"):
            for dt in (None, "other"):
                for inplace in (True, False):
                    w = Ten(NAV + SIG, Q.f_cast(dt or "dtype", norm(k, root)))
                    ask("normalize", f"EBSD.{f.name}(divide_by_square_root={root}, dtype_out={dt}, inplace={inplace})", f,
                        lambda a, kw=kw, dt=dt, i=inplace: (signal(a, cls, patterns()), [],
                                                            {**kw, "dtype_out": dt and DType(dt), "inplace": i}),
                        lambda a, w=w: w)
    il, ih, ol, oh = (sym(n) for n in ("in_low", "in_high", "out_low", "out_high"))
    clipped = Q.f_min(Q.f_max(pe, il), ih)
    allax = NAV + SIG
    pc = (sym("numpy.nanpercentile#lower"), sym("numpy.nanpercentile#upper"))
    cases = []
    for dt in (None, "other"):
        a0, b0 = (lo(dt or "dtype"), hi(dt or "dtype"))
        for out in (False, True):
            a1, b1 = (ol, oh) if out else (a0, b0)
            base = {"dtype_out": dt and DType(dt), **({"out_range": (ol, oh)} if out else {})}
            cases += [
                (dt, "default", base, stretched(pe, a1, b1), True),
                (dt, "in_range", {**base, "in_range": (il, ih)}, rescaled(clipped, il, ih, a1, b1), True),
                (dt, "relative", {**base, "relative": True}, rescaled(
                    Q.f_min(Q.f_max(pe, Q.f_rmin(allax, pe)), Q.f_rmax(allax, pe)), Q.f_rmin(allax, pe), Q.f_rmax(allax, pe),
                    a1, b1), False),
                (dt, "percentiles", {**base, "percentiles": (sym("q1"), sym("q2"))},
                 rescaled(Q.f_min(Q.f_max(pe, pc[0]), pc[1]), pc[0], pc[1], a1, b1), True),
            ]
    for dt, name, kw, x, both in cases:
        txt = f"{name}, out_range={'given' if 'out_range' in kw else None}, dtype_out={dt}"
        if both:
            for f in public(proj, "rescale_intensity"):
                ask("rescale", f"{f.name}({txt})", f, lambda a, kw=kw: (None, [pattern()], kw),
                    lambda a, x=x, dt=dt: Ten(SIG, Q.f_cast(dt or "dtype", x)))
        for cls, f in methods(proj, "rescale_intensity"):
            for inplace in (True, False):
                ask("rescale", f"EBSD.{f.name}({txt}, inplace={inplace})", f,
                    lambda a, kw=kw, i=inplace: (signal(a, cls, patterns()), [], {**kw, "inplace": i}),
                    lambda a, x=x, dt=dt: Ten(NAV + SIG, Q.f_cast(dt or "dtype", x)))
    # -------------------------------------------------------------- Fourier
    W = array("transfer function", SIG)

    def filtered(a, q, shift):
        f = a.external("scipy.fft.fft2", [q], Dict(), None)
        f = a.external("scipy.fft.fftshift", [f], Dict(), None) if shift else f
        f = Ten(f.axes, f.elem.mul(W.elem))
        f = a.external("scipy.fft.ifftshift", [f], Dict(), None) if shift else f
        return a.external("scipy.fft.ifft2", [f], Dict(), None)
    for shift in (False, True):
        for f in public(proj, "fft_filter"):
            ask("fft-filter", f"{f.name}(shift={shift})", f,
                lambda a, s=shift: (None, [pattern(), W], {"shift": s}), lambda a, s=shift: filtered(a, p, s))
            A_ = array("apodization", SIG)
            ask("fft-filter", f"{f.name}(apodization window, shift={shift})", f,
                lambda a, s=shift: (None, [pattern(), W], {"shift": s, "apodization_window": A_}),
                lambda a, s=shift: filtered(a, Ten(SIG, pe.mul(A_.elem)), s))
        for cls, f in methods(proj, "fft_filter"):
            for inplace in (True, False):
                for lazy in (False, True):
                    ask("fft-filter", f"EBSD.{f.name}(frequency, shift={shift}, inplace={inplace}, lazy={lazy})", f,
                        lambda a, s=shift, i=inplace, z=lazy: (signal(a, cls, patterns(), lazy=z), [], {
                            "transfer_function": W, "function_domain": "frequency", "shift": s, "inplace": i}),
                        lambda a, s=shift: Ten(NAV + SIG, Q.f_cast("dtype", stretched(filtered(a, p, s).elem, om, oM))))
    for cls, f in methods(proj, "fft_filter"):
        def spatial(a):
            w = unknown_array("window", ("kernel",), WIN)
            _, t, b, c = barnes_setup(a, [(length(SY), length(SX)), w], {}, None)
            x = barnes_filter(a, [p, t, _, (), b, c], {}, None)
            return Ten(NAV + SIG, Q.f_cast("dtype", stretched(x.elem, om, oM)))
        ask("fft-filter", f"EBSD.{f.name}(spatial)", f,
            lambda a: (signal(a, cls, patterns()), [], {"transfer_function": unknown_array("window", ("kernel",), WIN),
                                                        "function_domain": "spatial"}), spatial)
    # --------------------------------------------------- frequency vectors
    for f in public(proj, "fft_frequency_vectors"):
        for sy, sx in ((1, 1), (1, 4), (2, 2), (3, 5), (4, 4), (4, 6), (5, 2), (6, 5)):
            what = f"{f.name}(({sy}, {sx}))"

            def vectors(f=f, sy=sy, sx=sx, what=what):
                A = GAlg(proj)
                got = A.grid(A.call_func(f, [(Num.const(sy), Num.const(sx))], {}))
                seen.update(A.functions)
                line = lambda i, n: i + 1 if i < n // 2 else i - n  # noqa: E731
                res.count("obligations")
                if list(got.axes) != [sy, sx]:
                    res.add("frequencies", what, f"the result has shape {tuple(got.axes)}", f.where)
                    return
                for (i, j), c in zip(itertools.product(range(sy), range(sx)), got.cells):
                    want = Num.const(line(i, sy) ** 2 + line(j, sx) ** 2 - 1)
                    if not c.eq(want):
                        if Q.differ(c, want) is not None:
                            res.add("frequencies", what, f"the value at ({i}, {j}) is {c!r}, not {want!r}", f.where)
                        else:
                            res.undecided.append(f"{what}: value at ({i}, {j}) not described")
                        return
                res.count("proved_equal")
            described(res, "frequencies", what, vectors, f.where)
    # -------------------------------------------------------- image quality
    F = lambda a: frequency_vectors(a, [(length(SY), length(SX))], {}, None)  # noqa: E731

    def quality(a, normalize, fv=None, imax=None):
        q = Ten(SIG, norm(ONE, False)) if normalize else p
        f = a.external("scipy.fft.fft2", [q], Dict(), None)
        re, im = a.attr(f, "real", None).elem, a.attr(f, "imag", None).elem
        s = Q.f_sqrt(re.pow(2).add(im.pow(2)))
        v = fv or F(a).elem
        m = imax or Q.f_rsum(SIG, v).div(length(SY).mul(length(SX)))
        return ONE.sub(Q.f_rsum(SIG, s.mul(v)).div(Q.f_rsum(SIG, s)).div(m))
    for n in (False, True):
        for cls, f in methods(proj, "get_image_quality"):
            def with_data():
                a = Engine(proj)
                v = a.call_func(f, [], {"normalize": n}, self_=signal(a, cls, patterns()))
                seen.update(a.functions)
                compare(res, "image-quality", f"EBSD.{f.name}(normalize={n})", v, Ten(NAV, quality(a, n)), f.where)
            described(res, "image-quality", f"EBSD.{f.name}(normalize={n})", with_data, f.where)
        for f in public(proj, "get_image_quality"):
            V, m = array("frequency vectors", SIG), sym("inertia_max")
            ask("image-quality", f"{f.name}(normalize={n})", f,
                lambda a, n=n: (None, [pattern()], {"normalize": n}), lambda a, n=n: Ten((), quality(a, n)))
            ask("image-quality", f"{f.name}(normalize={n}, frequency vectors given)", f,
                lambda a, n=n: (None, [pattern()], {"normalize": n, "frequency_vectors": V, "inertia_max": m}),
                lambda a, n=n: Ten((), quality(a, n, V.elem, m)))
    # ------------------------------------------------------- downsampling
    from . import cut
    for cls, f in methods(proj, "downsample"):
        for nav, sig, factor, dtype, inplace in (((), (4, 6), 2, None, True), ((2,), (4, 6), 2, None, False), ((), (4, 4), 2, "uint16", False),
                                                 ((), (3, 6), 3, "float32", True), ((1, 2), (6, 3), 3, None, True)):
            what = f"EBSD.{f.name}({factor}, dtype_out={dtype}, inplace={inplace}) of {sig} pixels in a map {nav}"

            def binned(nav=nav, sig=sig, factor=factor, dtype=dtype, inplace=inplace, what=what):
                w = cut.World(proj, nav, "one", sig=sig)
                w.A.hooks.pop("_downsample2d", None)
                new = w.call("downsample", Num.const(factor), dtype_out=dtype, inplace=inplace)
                new = w.s if inplace else new
                seen.update(w.A.functions)
                name = dtype or "uint8"
                low, high = lo(name), hi(name)
                shape = tuple(n // factor for n in sig)
                for part, cells, got in (("pattern", w.data, new.attrs["data"]), ("static background", w.bg, new.attrs["_static_background"])):
                    ns = nav if part == "pattern" else ()
                    res.count("obligations")
                    got = w.A.grid(got)
                    if tuple(got.axes) != ns + shape:
                        res.add("downsample", f"{what}: {part}", f"the shape is {tuple(got.axes)}, not {ns + shape}", f.where)
                        continue
                    want, k = [], sig[0] * sig[1]
                    for n in range(len(cells) // k):
                        c = cells[n * k:(n + 1) * k]
                        sums = []
                        for i, j in itertools.product(*map(range, shape)):
                            t = Q.ZERO
                            for a, b in itertools.product(range(factor), repeat=2):
                                t = t.add(c[(i * factor + a) * sig[1] + j * factor + b])
                            sums.append(t)
                        x, y = sums[0], sums[0]
                        for t in sums[1:]:
                            x, y = Q.f_min(x, t), Q.f_max(y, t)
                        want += [w.A.cast(rescaled(t, x, y, low, high), DType(name)) for t in sums]
                    bad = [n for n, (g, v) in enumerate(zip(got.cells, want)) if not g.eq(v)]
                    told = [n for n in bad if Q.differ(got.cells[n], want[n]) is not None]
                    if told:
                        res.add("downsample", f"{what}: {part}", f"pixel {told[0]} is {got.cells[told[0]]!r}, not {want[told[0]]!r}"[:600], f.where)
                    elif bad:
                        res.undecided.append(f"{what}: {part}: {got.cells[bad[0]]!r}"[:300])
                    else:
                        res.count("proved_equal")
            described(res, "downsample", what, binned, f.where)
    # -------------------------------------------------- neighbour averaging
    for cls, f in methods(proj, "average_neighbour_patterns"):
        def averaged(a, axes=WIN):
            w = unknown_array("window", ("kernel",), axes)
            w = Ten(w.axes + (Axis(),) * (2 - len(axes)), w.elem)
            big = Ten(w.axes + (Axis(), Axis()), w.elem)
            c = a.external("scipy.ndimage.correlate", [P], Dict({"weights": big, "mode": "constant"}), None)
            ones = Ten(NAV, ONE)
            s = a.external("scipy.ndimage.correlate", [ones], Dict({"weights": w, "mode": "constant"}), None)
            return Ten(NAV + SIG, Q.f_cast("dtype", stretched(c.elem.div(s.elem), om, oM)))
        for inplace in (True, False):
            for lazy in (False, True):
                ask("neighbour-average", f"EBSD.{f.name}(inplace={inplace}, lazy={lazy})", f,
                    lambda a, i=inplace, z=lazy: (signal(a, cls, patterns(), lazy=z), [], {
                        "window": unknown_array("window", ("kernel",), WIN), "inplace": i}), averaged)
        ask("neighbour-average", f"EBSD.{f.name}(1D window)", f,
            lambda a: (signal(a, cls, patterns()), [], {"window": unknown_array("window", ("kernel",), (WY,))}),
            lambda a: averaged(a, (WY,)))
    # each block of the map sees all patterns under the window
    for cls, f in methods(proj, "average_neighbour_patterns"):
        for axes, chunked in itertools.product((WIN, (WY,)), ((0, 1), (), (0,), (1,))):
            what = (f"EBSD.{f.name}({len(axes)}D window, "
                    + ("several chunks)" if len(chunked) == 2 else f"several chunks along map axis {chunked[0]})" if chunked else "one chunk)"))

            def overlap(axes=axes, chunked=chunked, what=what):
                a = Engine(proj)
                a.chunked = chunked
                a.call_func(f, [], Dict({"window": unknown_array("window", ("kernel",), axes)}), self_=signal(a, cls, patterns()))
                seen.update(a.functions)
                if not a.depths:
                    res.undecided.append(f"{what}: no overlapping blocks")
                    return
                res.count("obligations")
                d, boundary = a.depths[-1]
                if boundary not in ("none", Q.ZERO) and not (isinstance(boundary, Num) and boundary.value == 0):
                    res.add("block-overlap", what, f"blocks at the border of the map are padded with {boundary!r}: averages there "
                            "would include patterns which are not in the map", f.where)
                    return
                for k, w in enumerate(axes):
                    x = d.get(k) if isinstance(d, Dict) else d[k] if isinstance(d, (tuple, list)) else d
                    if not isinstance(x, Num):
                        res.undecided.append(f"{what}: overlap {x!r}"[:200])
                        return
                    need = Q.f_floor(length(w).div(TWO)) if k in chunked else Q.ZERO
                    if short_of(x, need):
                        res.add("block-overlap", what, f"blocks overlap by {x!r} patterns along map axis {k}, but a pattern is averaged "
                                f"with those up to {need!r} away", f.where)
                        return
                res.count("proved_equal")
            described(res, "block-overlap", what, overlap, f.where)
    # ----------------------------------------------- histogram equalization
    for cls, f in methods(proj, "adaptive_histogram_equalization"):
        four = Num.const(4)
        for ks, size in ((None, [Q.f_floor(length(SY).div(four)), Q.f_floor(length(SX).div(four))]),
                         ((sym("k1", "int"), sym("k2", "int")), [sym("k1", "int"), sym("k2", "int")])):
            def equalized(a, size=size):
                e = a.external("skimage.exposure.equalize_adapthist", [p, list(size), sym("clip"), sym("nbins", "int")], Dict(), None)
                return Ten(NAV + SIG, Q.f_cast("dtype", stretched(e.elem, om, oM)))
            ask("equalization", f"EBSD.{f.name}(kernel_size={'given' if ks else None})", f,
                lambda a, ks=ks: (signal(a, cls, patterns()), [], {"kernel_size": ks, "clip_limit": sym("clip"),
                                                                   "nbins": sym("nbins", "int")}), equalized)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import dask.array as da
import numpy as np
from scipy.ndimage import correlate, gaussian_filter


def stretch(x, lo, hi, a, b):
    return (x - lo) / (hi - lo) * (b - a) + a


def normalize_intensity(pattern, num_std=1, divide_by_square_root=False, dtype_out=None):
    out = (pattern - np.mean(pattern)) / np.std(pattern)
    if divide_by_square_root:
        out /= num_std * np.sqrt(pattern.size)
    return out if dtype_out is None else out.astype(dtype_out)


def rescale_intensity(pattern, in_range=None, out_range=None, dtype_out=None, percentiles=None):
    if percentiles is not None:
        in_range = tuple(np.nanpercentile(pattern, q=percentiles))
    lo, hi = (np.nanmin(pattern), np.nanmax(pattern)) if in_range is None else in_range
    return stretch(pattern, lo, hi, *out_range).astype(dtype_out)


def get_dynamic_background(pattern, filter_domain="frequency", std=None, truncate=4.0):
    if std is None:
        std = pattern.shape[0] / 8
    return gaussian_filter(pattern, std, truncate=truncate).astype(pattern.dtype)


def average(patterns, window, lo, hi, dtype_out):
    out = np.zeros(patterns.shape, dtype=dtype_out)
    p = correlate(patterns, weights=window, mode="constant")
    for i in np.ndindex(p.shape[:2]):
        out[i] = stretch(p[i], np.min(p[i]), np.max(p[i]), lo, hi)
    return out


class EBSD:
    def average_neighbour_patterns(self, window="circular", inplace=True):
        shape = window.shape
        depth = {i: shape[i] // 2 - 1 for i in range(2)}
        depth.update({2: 0, 3: 0})
        self.data = da.overlap.map_overlap(average, self.data, window=window.reshape(shape + (1, 1)), lo=0, hi=1,
                                           dtype_out=self.data.dtype, depth=depth, boundary="none")
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C43",
        explanation=(
            "value numbering of array programs: patterns, backgrounds, windows and transfer functions are arrays with named "
            "axes and an unknown generic element; indexing, broadcasting, reductions, masks, reshapes, data type changes and "
            "the loops over patterns are followed, library filters and transforms are functions of their bound arguments. The "
            "generic element and the axes of what each public operation gives are compared with its definition for every "
            "combination of the options that choose between formulas; blocks processed separately must overlap by at least "
            "half the averaging window"
        ),
        assumptions=["exact arithmetic: rounding and overflow are not considered, conversion to an integer data type is one "
                     "unknown function of the value", "SciPy's, NumPy's and scikit-image's functions are functions of their "
                     "arguments, of which those left out have the documented default",
                     "HyperSpy's map() applies the function to each pattern; dask's map_blocks() and map_overlap() apply it to blocks"],
    )
    scan(ctx.proj, ctx, res)
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "no intensity operations found")
    r = Result("C43")
    scan(project_from(dict(SELFTEST)), Ctx(ctx.proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("normalize:normalize_intensity(divide_by_square_root=False, dtype_out=None)", "rescale:rescale_intensity(in_range",
            "get-background:get_dynamic_background(spatial, std=None)",
            "block-overlap:EBSD.average_neighbour_patterns(2D window, several chunks)",
            "neighbour-average:EBSD.average_neighbour_patterns(inplace=True, lazy=False)")
    quiet = ("normalize_intensity(divide_by_square_root=True", "get_dynamic_background(spatial, std=given)", "2D window, one chunk")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}) ({r.undecided})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
