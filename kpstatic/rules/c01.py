"""C01: objects passed by the caller are never changed."""

from __future__ import annotations

from ..effects import Interp, Tok
from ..entries import concrete_receivers, public_functions
from ..report import Ctx, Result
from ..selftest import project_from

# Parameters whose change is the documented purpose of the call.
EXEMPT_PARAMS = {"figure", "fig", "ax", "axes"}  # drawn into
EXEMPT = {
    # "detector is updated in-place" is what these interactive views document
    ("plot_detector_sample_geometry_side_view_interactive", "detector"),
    ("plot_detector_sample_geometry_top_view_interactive", "detector"),
}
# h5py objects are handles to a file, not data of the caller
H5 = {"File", "Group", "Dataset"}

SELFTEST = {
    "m.py": '''
import numpy as np
from copy import deepcopy

class D:
    def __init__(self, pc):
        self.pc = pc
    @property
    def pc(self):
        return self._pc
    @pc.setter
    def pc(self, value):
        self._pc = np.atleast_2d(value)
    def shift(self):
        self._pc[0] += 1

def direct(a: np.ndarray):
    a[0] = 1

def helper(x):
    y = np.asarray(x)
    y *= 2
    return y

def indirect(a: np.ndarray, flag: bool = False):
    if flag:
        return helper(a.copy())
    return helper(a.reshape(-1))

def good(a: np.ndarray, kw: dict | None = None):
    a = a.astype(float)
    a += 1
    kw = dict(kw or {})
    kw["x"] = 1
    d = deepcopy(kw)
    d["y"]["z"] = 1
    return helper(a)

def closure(opts: dict):
    def inner():
        opts["k"] = 1
    inner()
'''
}


def analyse(proj, f, dyncls, config):
    it = Interp(proj)
    ret, heap = it.run(f, config, dyncls)
    return it, ret, heap


def argument_effects(proj, f, dyncls, config, interp=None):
    it = interp or analyse(proj, f, dyncls, config)[0]
    out = []
    for e in it.effects.values():
        kind = e.tok.root[0]
        if kind not in ("P", "K"):
            continue
        name = e.tok.root[1]
        if f.self_name == name:
            continue
        out.append((name, e))
    return out


def exempt(f, name, e, config) -> bool:
    if name in EXEMPT_PARAMS:
        return True
    if (f.name, name) in EXEMPT:
        return True
    p = f.param(name)
    if p is not None and p.annotation is not None:
        import ast

        if any(
            (isinstance(n, ast.Attribute) and n.attr in H5)
            or (isinstance(n, ast.Name) and n.id in H5)
            for n in ast.walk(p.annotation)
        ):
            return True
    # a constructor with an "inplace" switch: the switch is about that argument
    if f.name in ("__init__", "__new__") and f.param("inplace") is not None and config.get("inplace") is not False:
        return True
    return False


def configs(f):
    if f.param("inplace") is not None:
        return [{"inplace": False}, {"inplace": True}]
    return [{}]


def run(ctx: Ctx) -> Result:
    proj = ctx.proj
    res = Result(
        "C01",
        explanation=(
            "interprocedural alias/effect analysis: for every public callable, every "
            "program point reachable from it that writes (item/attribute assignment, "
            "augmented assignment of arrays, mutating methods, out=, ...) is checked "
            "not to write through a value that may share memory with an argument; "
            "arguments kept by constructors/setters are checked not to be written by "
            "methods of the object later"
        ),
        assumptions=[
            "library calls behave as listed in the alias/copy/mutate tables of "
            "kpstatic/effects.py; calls on values of unknown kind do not modify them",
        ],
    )
    pub = public_functions(proj)
    res.require(len(pub) > 250, f"only {len(pub)} public functions found")
    bodies = set()
    for f, _ in pub:
        receivers = concrete_receivers(proj, f) or [None]
        if not ctx.thorough and len(receivers) > 3:
            receivers = receivers[:1] + receivers[-2:]
        nparams = len([p for p in f.params if p.name != f.self_name])
        if not nparams:
            continue
        for dyn in receivers:
            for cfg in configs(f):
                it, ret, heap = analyse(proj, f, dyn, cfg)
                res.count("entry_contexts")
                res.count("argument_obligations", nparams)
                res.count("calls_followed", it.calls)
                bodies |= it.analysed
                for name, e in argument_effects(proj, f, dyn, cfg, it):
                    if exempt(f, name, e, cfg):
                        continue
                    res.add(
                        "argument-modified",
                        f"{f.short}({name})",
                        f"argument {e.tok} may be modified by `{e.detail}` in {e.func.short}",
                        e.where,
                        [f.short, *e.chain],
                    )
    res.coverage["functions_analysed"] = len(bodies)
    res.coverage["public_functions"] = len(pub)
    retained(ctx, res)
    selftest(res)
    res.samples = [f"{f.short}({', '.join(p.name for p in f.params)})" for f, _ in pub[:: max(1, len(pub) // 10)]]
    return res


# ----------------------------------------------------------------- #
def stored_fields(proj, f, dyncls):
    """instance field -> parameters whose memory it may keep."""
    it, ret, heap = analyse(proj, f, dyncls, {})
    out = {}
    if heap is None:
        return out
    for k, v in heap.items():
        if k.root == ("P", f.self_name) and len(k.path) == 1:
            for t in v.toks:
                if t.root[0] == "P" and t.root[1] != f.self_name and not t.path:
                    p = f.param(t.root[1])
                    out.setdefault(k.path[0], set()).add(t.root[1])
    return out


def retained(ctx: Ctx, res: Result) -> None:
    proj = ctx.proj
    for c in proj.classes.values():
        if c.module.name.startswith("kikuchipy.data._dummy"):
            continue
        fields: dict[str, set] = {}
        for f in [c.methods.get("__init__"), *c.setters.values()]:
            if f is None:
                continue
            for fld, ps in stored_fields(proj, f, c).items():
                fields.setdefault(fld, set()).update(f"{f.short}({p})" for p in ps)
        if not fields:
            continue
        res.count("retaining_fields", len(fields))
        for m in list(c.methods.values()) + list(c.setters.values()):
            if m.name == "__init__" or not m.is_public or m.is_abstract:
                continue
            for cfg in configs(m):
                it, _, _ = analyse(proj, m, c, cfg)
                for e in it.effects.values():
                    if e.tok.root != ("P", m.self_name) or not e.tok.path:
                        continue
                    fld = e.tok.path[0]
                    if fld not in fields or fld in ("data", "_overlays"):
                        continue
                    # rebinding the field itself leaves the argument alone
                    if e.kind in ("setattr", "delattr") and len(e.tok.path) == 1:
                        continue
                    if proj_is_handle(proj, c, fld):
                        continue
                    for src in sorted(fields[fld]):
                        if (m.short, fld) in RETAIN_OK or src_is_inplace_ctor(proj, c):
                            continue
                        res.add(
                            "retained-argument-modified",
                            f"{src} by {m.short}",
                            f"{src} keeps the argument as .{fld}, and {m.short} modifies it in "
                            f"place with `{e.detail}` in {e.func.short}",
                            e.where,
                            [m.short, *e.chain],
                        )


RETAIN_OK: set = set()


def src_is_inplace_ctor(proj, c):
    init = c.methods.get("__init__")
    return init is not None and init.param("inplace") is not None


def proj_is_handle(proj, c, fld):
    return fld in ("file", "scan_groups")


def selftest(res: Result) -> None:
    proj = project_from(dict(SELFTEST))
    hit = set()
    for f, _ in public_functions(proj):
        for name, e in argument_effects(proj, f, f.cls, {}):
            hit.add(f.name)
    res.require({"direct", "indirect", "closure"} <= hit, f"self-test: expected findings missing ({hit})")
    res.require("good" not in hit, "self-test: false report on copied arguments")
    r2 = Result("C01")
    retained(Ctx(proj), r2)
    res.require(any("shift" in f.construct for f in r2.findings), "self-test: retained-argument rule silent")
    res.count("selftest_cases", 5)
