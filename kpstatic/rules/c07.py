"""C07: a detector made from another detector keeps its geometry."""

from __future__ import annotations

from ..effects import AV, Interp, Tok
from ..entries import concrete_receivers, framework_hooks, public_functions
from ..project import Class, External
from ..report import Ctx, Result
from ..selftest import project_from
from ..track import Tracer, derived
from . import cut
from .c05 import all_toks, content

DETECTOR = "EBSDDetector"
# what an operation may legitimately recompute
# parameters which are the documented result of an operation
ESTIMATED = {("fit_pc", "sample_tilt")}
RECOMPUTED = ("shape", "pc")

SELFTEST = {
    "m.py": '''
from copy import deepcopy

class EBSDDetector:
    def __init__(self, shape=(1, 1), px_size=1.0, tilt=0.0, azimuthal=0.0, pc=(0.5, 0.5, 0.5)):
        self.shape = shape
        self.px_size = px_size
        self.tilt = tilt
        self.azimuthal = azimuthal
        self._pc = pc
    @property
    def tilt(self):
        return self._tilt
    @tilt.setter
    def tilt(self, value):
        self._tilt = float(value)
    @property
    def pc(self):
        return self._pc
    def bad_missing(self):
        return EBSDDetector(shape=self.shape, pc=self.pc, tilt=self.tilt, px_size=self.px_size)
    def bad_swapped(self):
        return EBSDDetector(shape=self.shape, pc=self.pc, tilt=self.azimuthal, azimuthal=self.tilt, px_size=self.px_size)
    def bad_reset(self):
        new = deepcopy(self)
        new.tilt = 0
        return new
    def bad_helper(self):
        kw = {n: getattr(self, n) for n in ("shape", "pc", "tilt", "px_size")}
        return make(self, shape=(2, 2))
    def good(self):
        return EBSDDetector(shape=(2, 2), pc=self.pc, tilt=self.tilt, azimuthal=self.azimuthal, px_size=self.px_size)
    def good_kw(self):
        kw = dict(shape=(2, 2), pc=self.pc)
        for n in ("px_size", "tilt", "azimuthal"):
            kw[n] = getattr(self, n)
        return self.__class__(**kw)
    def good_copy(self, px_size=None):
        new = deepcopy(self)
        if px_size is not None:
            new.px_size = px_size
        new._pc = [1, 2, 3]
        return new

def make(det, shape):
    return EBSDDetector(shape=shape, pc=det.pc, tilt=det.tilt, px_size=det.px_size)
'''
}


class T(Tracer):
    def __init__(self, proj, cls, geo):
        super().__init__(proj)
        self.cls, self.geo = cls, geo
        self.made = []

    def construct(self, cls, args, kwargs, stars, dstars, e, st):
        r = super().construct(cls, args, kwargs, stars, dstars, e, st)
        if cls is self.cls or self.cls in self.proj.mro(cls):
            init = self.proj.lookup(cls, "__init__")
            names = [p.name for p in init.params if p.kind == "pos"][1:]
            given = set(names[: len(args)]) | set(kwargs)
            opaque = bool(stars) or any(not self.own_dict(st, d) for d in dstars)
            if not opaque:
                for p in names:
                    if any(self.dict_get(st, d, f"[{p!r}]") is not None for d in dstars):
                        given.add(p)
            vals = {}
            for p, flds in self.geo.items():
                t = set()
                for fld in flds:
                    for k in r.toks:
                        v = st.heap.get(Tok(k.root, k.path + (fld,)))
                        if v is not None:
                            t |= content(v, st.heap)
                vals[p] = t
            self.made.append((self.frames[-1].func, getattr(e, "lineno", 0), given, opaque, vals,
                              [f.short for f, _ in self.stack]))
        return r

    def s_Try(self, s, st):
        return Interp.s_Try(self, s, st)  # what is made when something fails counts too

    def external_call(self, d, args, kwargs, stars, dstars, e, st):
        r = super().external_call(d, args, kwargs, stars, dstars, e, st)
        if d in ("copy.deepcopy", "copy.copy") and args and args[0].types:
            # each copy is an object of its own; unassigned fields are the original's
            if self.cls in args[0].types:
                site = self.alloc(e)
                for k in [k for k in st.heap if k.root == site.root]:
                    del st.heap[k]
                for flds in self.geo.values():
                    for fld in flds:
                        v = self.read_field(st, args[0], fld)
                        st.heap[Tok(site.root, (fld,))] = AV(derived([v]) or v.toks)
                st.heap[Tok(site.root, ("@copy",))] = AV(derived([args[0]]))
                return AV([site], [self.cls])
        return r


def geometry(proj, cls: Class) -> dict[str, set[str]]:
    """Constructor parameter -> the instance fields it ends up in."""
    init = proj.lookup(cls, "__init__")
    it = Tracer(proj)
    _, heap = it.run(init, {}, cls)
    out: dict[str, set[str]] = {}
    for k, v in (heap or {}).items():
        if k.root == ("P", "self") and len(k.path) == 1:
            roots = {t.root[1] for t in content(v, heap) if t.root[0] in ("P", "V")} - {"self"}
            for p in roots:
                if init.param(p) is not None and roots - {"convention", "shape"} <= {p}:
                    out.setdefault(p, set()).add(k.path[0])
    out.pop("convention", None)
    return {p: f for p, f in out.items()}


def sources(vals, geo):
    """Detectors (access paths) two or more parameters were taken from."""
    n: dict[tuple, set] = {}
    for p, toks in vals.items():
        for t in toks:
            if t.root[0] not in ("P", "V"):
                continue
            for q, flds in geo.items():
                for i, step in enumerate(t.path):
                    if step in flds:
                        n.setdefault((t.root[1], t.path[:i]), set()).add(p)
    return [k for k, ps in n.items() if len(ps) >= 2]


def takes(toks, src, flds):
    return any(
        t.root[0] in ("P", "V") and t.root[1] == src[0] and t.path[: len(src[1])] == src[1]
        and len(t.path) > len(src[1]) and t.path[len(src[1])] in flds
        for t in toks
    )


def scan(proj, ctx: Ctx, res: Result):
    classes = [c for c in proj.classes.values() if c.name == DETECTOR]
    if not classes:
        res.undecided.append("no class EBSDDetector")
        return
    cls = classes[0]
    geo = geometry(proj, cls)
    res.coverage["geometry_parameters"] = sorted(geo)
    for f, _ in public_functions(proj) + framework_hooks(proj):
        recv = concrete_receivers(proj, f) or [None]
        for dyn in recv if ctx.thorough else recv[:1]:
            it = T(proj, cls, geo)
            ret, heap = it.run(f, {}, dyn)
            res.count("entry_contexts")
            for fn, line, given, opaque, vals, chain in it.made:
                srcs = sources(vals, geo)
                res.count("constructions")
                if opaque or not srcs:
                    continue
                res.count("derived_detectors")
                for p in geo:
                    res.count("parameter_obligations")
                    own = any(takes(vals[p], s, geo[p]) for s in srcs)
                    where = f"{fn.module.relpath}:{line}"
                    if p not in given:
                        res.add("geometry-dropped", f"{fn.short}: {p}",
                                f"a detector made from another one in {fn.short} gets the default `{p}`",
                                where, [f.short, *chain])
                    elif p not in RECOMPUTED and not own and fn.param(p) is None:
                        res.add("geometry-mixed-up", f"{fn.short}: {p}",
                                f"`{p}` of a detector made from another one in {fn.short} is not taken from the "
                                f"other detector's `{p}`", where, [f.short, *chain])
            if ret is None or heap is None:
                continue
            for tk in all_toks(ret):
                cp = heap.get(Tok(tk.root, tk.path + ("@copy",)))
                if cp is None:
                    continue
                res.count("returned_copies")
                srcs = [(t.root[1], t.path) for t in cp.toks]
                for p in geo:
                    if p in RECOMPUTED or f.param(p) is not None or (f.name, p) in ESTIMATED:
                        continue
                    res.count("parameter_obligations")
                    for fld in geo[p]:
                        v = heap.get(Tok(tk.root, tk.path + (fld,)))
                        t = content(v, heap) if v is not None else set()
                        if v is not None and srcs and not any(takes(t, s, geo[p]) for s in srcs):
                            res.add("geometry-mixed-up", f"{f.short}: {p}",
                                    f"the copy of a detector returned from {f.short} has `{p}` replaced",
                                    f.where, [f.short])


def run(ctx: Ctx) -> Result:
    res = Result(
        "C07",
        explanation=(
            "every construction of an EBSDDetector reached from a public function is examined with value "
            "provenance: if two or more of its parameters come from another detector, all parameters are passed "
            "and each angle, pixel size and binning comes from the same parameter of that detector; copies of "
            "detectors returned to the caller keep these too; detectors of signals sliced, cropped, rebinned, "
            "downsampled or reduced to a grid are described in full for small signals"
        ),
        assumptions=["shape and projection center may be recomputed by the operation (their values are decided for cropping, slicing, rebinning, downsampling and grids only)"],
    )
    scan(ctx.proj, ctx, res)
    cut.scan(ctx.proj, res, ("detector",))
    cut.detectors(ctx.proj, res)
    selftest(res)
    return res


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    r = Result("C07")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("bad_missing: azimuthal", "bad_swapped: tilt", "bad_swapped: azimuthal", "bad_reset: tilt", "m.make: azimuthal"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    for w in ("good", "good_kw", "good_copy"):
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", 8)
