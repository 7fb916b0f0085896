"""C05: signals keep what kikuchipy knows about them through operations."""

from __future__ import annotations

import itertools

from ..effects import AV, Tok
from ..entries import concrete_receivers
from ..project import Class
from ..report import Ctx, Result
from ..selftest import project_from
from ..track import Tracer, attr_names
from . import cut

SELFTEST = {
    "hyperspy_extension.yaml": "",
    "m.py": '''
from hyperspy._signals.signal2d import Signal2D
import numpy as np
from copy import deepcopy

class Sig(Signal2D):
    _signal_type = "Sig"
    _custom_attributes = ["info"]
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self._info = kwargs.get("info", {})
    @property
    def info(self):
        return self._info
    def _get(self):
        d = {}
        for name in self._custom_attributes:
            d[name] = self.__getattribute__(name)
        return d
    def _set(self, attrs):
        for name, v in attrs.items():
            self.__setattr__("_" + name, v)
    def deepcopy(self):
        new = super().deepcopy()
        new._set(self._get())
        return new
    def bad_new(self):
        return Sig(self.data + 1, axes=self.axes_manager.list(), metadata=self.metadata.as_dictionary())
    def bad_axes(self):
        return Sig(self.data + 1, metadata=self.metadata.as_dictionary(), **self._get())
    def bad_branch(self, flag=False):
        kw = dict(axes=self.axes_manager.list(), metadata=self.metadata.as_dictionary())
        if flag:
            kw.update(self._get())
        return Sig(self.data + 1, **kw)
    def good_new(self):
        return Sig(self.data + 1, axes=self.axes_manager.list(), metadata=self.metadata.as_dictionary(),
                   original_metadata=self.original_metadata.as_dictionary(), **self._get())
    def good_copy(self, inplace=True):
        s = self if inplace else self.deepcopy()
        s.data = s.data + 1
        return None if inplace else s
    def as_lazy(self, *args, **kwargs):
        return super().as_lazy(*args, **kwargs)
    def change_dtype(self, *args, **kwargs):
        a = self._get()
        super().change_dtype(*args, **kwargs)
        self._set(a)
    def crop(self, *args, **kwargs):
        super().crop(*args, **kwargs)
'''
}


def all_toks(v, depth=0):
    out = set(v.toks)
    if v.elts is not None and depth < 3:
        for x in v.elts:
            out |= all_toks(x, depth + 1)
    return out


def content(v: AV, heap, depth=0):
    """Tokens of a value and of everything it holds."""
    out, work = set(), list(all_toks(v))
    while work:
        t = work.pop()
        if t in out:
            continue
        out.add(t)
        if t.root[0] == "A" and heap is not None:
            for k, w in heap.items():
                if k.root == t.root and k.path[: len(t.path)] == t.path:
                    work.extend(all_toks(w))
    return out


def from_self(toks, *fields) -> bool:
    """Derived from (or being) the receiver's field."""
    for t in toks:
        if t.root[0] in ("P", "V") and t.root[1] == "self" and t.path and t.path[0] in fields:
            return True
    return False


def from_param(toks, name) -> bool:
    return any(t.root[0] in ("P", "V") and t.root[1] == name for t in toks)


def lost(toks):
    return [t for t in toks if t.root[0] == "LOST"]


def stale_only(toks) -> bool:
    return bool(toks) and all(t.root[0] == "STALE" for t in toks)


def configs(f):
    opts = []
    for n, vals in (("inplace", (True, False)), ("lazy_output", (None, True, False)),
                    ("return_indices", (False, True))):
        if f.param(n) is not None:
            opts.append([(n, v) for v in vals])
    for c in itertools.product(*opts):
        c = dict(c)
        if c.get("inplace") is True and c.get("lazy_output") is True:
            continue
        yield {k: v for k, v in c.items()}


#: attributes of the statement, by class
REQUIRED = {"EBSD": ("detector", "static_background", "xmap"), "EBSDMasterPattern": ("hemisphere", "phase", "projection"),
            "ECPMasterPattern": ("hemisphere", "phase", "projection")}


def scan(proj, ctx: Ctx, res: Result):
    seen = set()
    for cls in proj.classes.values():
        names = attr_names(proj, cls)
        sigtype = proj.class_attr(cls, "_signal_type")
        if not names or sigtype is None:
            continue
        res.count("signal_classes")
        for a in REQUIRED.get(cls.name.removeprefix("Lazy"), ()):
            res.count("attribute_obligations")
            if a not in names:
                res.add("attribute-unknown", f"{cls.name}: {a}",
                        f"`{a}` is not among the attributes a {cls.name} carries over", cls.name)
        methods = {}
        for c in reversed([k for k in proj.mro(cls) if isinstance(k, Class)]):
            methods.update(c.methods)
        for name, f in methods.items():
            if f.kind != "method" or (name.startswith("_") and name != "_slicer"):
                continue
            if f.is_abstract:
                continue
            for cfg in configs(f):
                it = Tracer(proj)
                ret, heap = it.run(f, cfg, cls)
                res.count("method_contexts")
                if heap is None:
                    res.count("contexts_without_normal_end")
                    continue
                tag = f.short
                # --- the receiver
                for a in names:
                    v = heap.get(Tok(("P", "self"), ("_" + a,)))
                    if v is None:
                        continue
                    t = content(v, heap)
                    res.count("attribute_obligations")
                    if lost(t) or stale_only(t):
                        res.add("attribute-lost", f"{tag}: {a}",
                                f"{f.short} leaves `{a}` of the {cls.name} it is called on "
                                + ("removed or reset" if lost(t) else "unadapted to the new shape")
                                + (f" with {cfg}" if cfg else ""), f.where, [f.short])
                # --- returned signals
                for tk in sorted(all_toks(ret), key=str):
                    if tk.root[0] != "A" or not ret.types and ret.elts is None:
                        continue
                    fields = {k.path[-1]: v for k, v in heap.items()
                              if k.root == tk.root and len(k.path) == len(tk.path) + 1}
                    if "_" + names[0] not in fields and not any("_" + a in fields for a in names):
                        continue
                    if "@axes" not in fields:
                        continue  # not a signal
                    res.count("returned_signals")
                    for a in names:
                        if "_" + a not in fields:
                            continue
                        t = content(fields["_" + a], heap)
                        res.count("attribute_obligations")
                        dflt = [x for x in t if x.root[0] == "DEFAULT" and x.root[1] == a]
                        w = fields["_" + a]
                        ok = a == "projection" and isinstance(w.const, str) or from_self(t, "_" + a, a) or f.param(a) is not None and from_param(t, a)
                        if lost(t) or dflt or stale_only(t) or not ok:
                            res.add("attribute-not-carried-over", f"{tag}: {a}",
                                    f"the signal returned from {f.short}"
                                    + (f" with {cfg}" if cfg else "")
                                    + f" does not get `{a}` from the signal it is made from",
                                    f.where, [f.short])
                    for fld, src, what in (("@axes", "axes_manager", "axes"), ("@metadata", "metadata", "metadata"),
                                           ("@original_metadata", "original_metadata", "original metadata")):
                        t = content(fields[fld], heap)
                        res.count("attribute_obligations")
                        if not from_self(t, src):
                            res.add("axes-or-metadata-dropped", f"{tag}: {what}",
                                    f"the signal returned from {f.short}"
                                    + (f" with {cfg}" if cfg else "")
                                    + f" does not get its {what} from the signal it is made from",
                                    f.where, [f.short])
                seen.add(f.short)
    res.samples = sorted(seen)
    res.coverage["methods"] = len(seen)


def run(ctx: Ctx) -> Result:
    res = Result(
        "C05",
        explanation=(
            "every public method of every signal class with custom attributes is interpreted with value "
            "provenance: in each signal it returns, and in the receiver, each custom attribute must come "
            "from the receiver's (or from an argument of that name) on every path, never be dropped by a "
            "HyperSpy method that does not know it nor be a constructor default; axes and metadata of "
            "returned signals come from the receiver's; slicing, cropping, rebinning, downsampling, grid extraction and "
            "changes of data type are interpreted for small signals where every pattern and pixel is told apart: what "
            "is left of each attribute is that of the patterns and pixels left"
        ),
        assumptions=[
            "HyperSpy's deepcopy/as_lazy/map/compute/change_dtype drop attributes they do not know, "
            "rebin/slicing/crop keep them unadapted, _deepcopy_with_new_data keeps them",
        ],
    )
    scan(ctx.proj, ctx, res)
    cut.scan(ctx.proj, res)
    res.require(res.coverage.get("signal_classes", 0) >= 1, "no signal class with _custom_attributes found")
    selftest(res)
    return res


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    proj._signal_types = {"Sig"}
    r = Result("C05")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("bad_new: info", "bad_axes: axes", "bad_branch: info", "as_lazy: info", "crop: info"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    for w in ("good_new", "good_copy", "deepcopy", "change_dtype"):
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", 9)
