"""C03: a call's result does not depend on earlier calls."""

from __future__ import annotations

import ast

from ..effects import Interp
from ..entries import concrete_receivers, public_functions
from ..project import Class, External
from ..report import Ctx, Result
from ..selftest import project_from
from .c02 import MUTATORS, reach, restored_always, state_fields

# roots of values that outlive a call
SHARED = {"G": "module-level object", "CA": "class-level object",
          "D": "default argument value", "CACHE": "cached return value"}
MUTABLE = {"ndarray", "dict", "list", "set", "dask"}

# Switches of the documented kind whose purpose is process-wide state.
GLOBAL_SETTERS = {"set_log_level"}

# External process-wide state: dotted prefix of the changed object / called
# function -> what it is.
EXT_STATE_CALLS = {
    "numpy.seterr": "numpy error state",
    "numpy.random.seed": "numpy global random state",
    "numpy.set_printoptions": "numpy print options",
    "random.seed": "global random state",
    "os.chdir": "working directory",
    "os.umask": "umask",
    "os.putenv": "environment",
    "locale.setlocale": "locale",
    "matplotlib.pyplot.style.use": "matplotlib style",
    "matplotlib.style.use": "matplotlib style",
    "matplotlib.use": "matplotlib backend",
    "matplotlib.pyplot.rc": "matplotlib defaults",
    "matplotlib.rc": "matplotlib defaults",
    "numba.set_num_threads": "numba thread count",
    "dask.config.refresh": "dask configuration",
}
EXT_STATE_OBJECTS = (
    "matplotlib.pyplot.rcParams", "matplotlib.rcParams", "os.environ",
    "hyperspy.api.preferences", "dask.config.config", "numba.config",
)
EXT_RANDOM = ("numpy.random.", "random.")
RANDOM_OK = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator",
             "numpy.random.SeedSequence", "random.Random"}
# scikit-learn's RANSAC draws random samples: documented by that method
# (`PCs ... fit_pc`), not seeded by kikuchipy.

SELFTEST = {
    "m.py": '''
import functools
import numpy as np
import matplotlib.pyplot as plt

_CACHE = {}
DEFAULTS = {"a": 1}

class S:
    options: dict = {}
    shared = []
    def __init__(self, n):
        self._n = n
        self._memo = None
    @property
    def n(self):
        return self._n
    @n.setter
    def n(self, v):
        self._n = v
    def collects(self, x):
        self.options["x"] = x
    def stale(self):
        if self._memo is None:
            self._memo = self.n * 2
        return self._memo

class T:
    def __init__(self, n):
        self._n = n
        self._memo = None
    @property
    def n(self):
        return self._n
    @n.setter
    def n(self, v):
        self._n = v
        self._memo = None
    def fresh(self):
        if self._memo is None:
            self._memo = self.n * 2
        return self._memo

class U:
    def __init__(self, n):
        self.n = n
    @functools.cached_property
    def stale2(self):
        return self.n * 2

def global_write(x):
    _CACHE[1] = x

def default_write(x, acc=[]):
    acc.append(x)
    return acc

@functools.lru_cache
def _table(n):
    return np.zeros(n)

def cached_write(n):
    t = _table(n)
    t[0] = 1
    return t.sum()

def rc(x):
    plt.rcParams["a"] = x

def rng(n):
    return np.random.rand(n)

def good(n):
    d = dict(DEFAULTS)
    d["a"] = 2
    t = _table(n).copy()
    t[0] = 1
    with plt.rc_context():
        return np.random.default_rng(1).random(n)
'''
}


# ------------------------------------------------------------------ #
def shared_effects(it):
    for e in it.effects.values():
        if e.tok.root[0] in SHARED:
            if e.kind == "setattr" and restored_always(e):
                continue
            yield e


def immutable_leaf(proj, t) -> bool:
    """A token into a module-level literal table whose values are constants."""
    if t.root[0] != "G":
        return False
    modname, _, name = t.root[1].rpartition(".")
    m = proj.modules.get(modname)
    if m is None or name not in m.globals:
        return False
    node = m.globals[name]
    for _ in t.path:
        if isinstance(node, ast.Dict):
            vals = node.values
        elif isinstance(node, (ast.List, ast.Tuple, ast.Set)):
            vals = node.elts
        else:
            return False
        if all(isinstance(v, (ast.Constant, ast.JoinedStr, ast.BinOp)) for v in vals):
            return True
        if not vals:
            return False
        node = vals[0]
    return isinstance(node, (ast.Constant, ast.Tuple))


# ------------------------------------------------------------------ #
def syntactic_reads(proj, cls: Class, f, seen=None) -> set[str]:
    """Attributes of self read by `f`, following properties and methods of the
    class."""
    seen = seen if seen is not None else set()
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    me = f.self_name
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
            m = proj.lookup(cls, n.attr)
            if m is not None:
                out |= syntactic_reads(proj, cls, m, seen)
            else:
                out.add(n.attr)
    return out


def writes_of(proj, cls: Class, f, seen=None) -> set[str]:
    seen = seen if seen is not None else set()
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    me = f.self_name
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                s = proj.lookup(cls, n.attr, setter=True)
                if s is not None:
                    out |= writes_of(proj, cls, s, seen)
                else:
                    out.add(n.attr)
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me:
                m = proj.lookup(cls, fn.attr)
                if m is not None:
                    out |= writes_of(proj, cls, m, seen)
            # self.__dict__.pop("name", None) / delattr(self, "name")
            for a in n.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    t = ast.unparse(fn)
                    if t.endswith("__dict__.pop") or t in ("delattr", "setattr") or t.endswith("__delattr__"):
                        out.add(a.value)
    return out


def memo_rule(proj, res: Result):
    """Values remembered on an instance are forgotten when what they were
    computed from changes."""
    for c in proj.classes.values():
        if c.module.name.startswith(("kikuchipy.data._dummy", "kikuchipy.draw", "kikuchipy.io")):
            continue
        memos: dict[str, tuple] = {}
        for f in c.methods.values():
            if f.kind == "property" and any("cached_property" in d for d in f.decorators):
                memos[f.name] = (f, syntactic_reads(proj, c, f))
                continue
            if f.name.startswith("__") or f.kind == "setter" or f.name.startswith("set_"):
                continue
            # written and tested in one method, returned from it
            me = f.self_name
            if me is None:
                continue
            stored = {
                n.attr for n in ast.walk(f.node)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                and isinstance(n.value, ast.Name) and n.value.id == me and n.attr.startswith("_")
            }
            for a in stored:
                if proj.lookup(c, a, setter=True) is not None:
                    continue
                guarded = False
                for n in ast.walk(f.node):
                    if isinstance(n, ast.If) and (f"{me}.{a}" in ast.unparse(n.test) or f"'{a}'" in ast.unparse(n.test)):
                        guarded = True
                returned = any(
                    isinstance(n, ast.Return) and n.value is not None and f"{me}.{a}" in ast.unparse(n.value)
                    for n in ast.walk(f.node)
                )
                if guarded and returned:
                    memos[a] = (f, syntactic_reads(proj, c, f) - {a})
        for name, (f, reads) in memos.items():
            res.count("instance_memos")
            for k in [c] + proj.subclasses(c):
                for s in list(k.setters.values()) + [
                    m for m in k.methods.values()
                    if m.kind == "method" and m is not f and m.name not in ("__init__", "__new__")
                ]:
                    w = writes_of(proj, k, s)
                    if w & reads and name not in w:
                        res.add(
                            "stale-memo", f"{f.short}",
                            f"the value remembered as .{name} is computed from "
                            f"{sorted(w & reads)}, which {s.short} changes without forgetting it",
                            f"{f.module.relpath}:{f.node.lineno}", [f.short, s.short],
                        )
            # public attributes can be assigned from anywhere
            for r in sorted(reads):
                if r.startswith("_"):
                    continue
                init = proj.lookup(c, "__init__")
                if init is not None and r in writes_of(proj, c, init):
                    res.add(
                        "stale-memo", f"{f.short}",
                        f"the value remembered as .{name} is computed from the public attribute "
                        f".{r}, which can be assigned at any time",
                        f"{f.module.relpath}:{f.node.lineno}", [f.short],
                    )


# ------------------------------------------------------------------ #
def ext_state_rule(proj, res: Result):
    """Library-wide state is changed only inside a context manager that
    restores it."""
    for f in proj.all_funcs():
        if f.name in GLOBAL_SETTERS or f.module.name.startswith("kikuchipy.data._dummy"):
            continue
        mod = f.module

        def dotted(n):
            parts = []
            while isinstance(n, ast.Attribute):
                parts.append(n.attr)
                n = n.value
            if not isinstance(n, ast.Name):
                return None
            ent = proj.resolve_in_module(mod, n.id)
            if ent is None:
                for loc in ast.walk(f.node):
                    if isinstance(loc, (ast.Import, ast.ImportFrom)):
                        for a in loc.names:
                            nm = a.asname or a.name.split(".")[0]
                            if nm == n.id:
                                base = a.name if isinstance(loc, ast.Import) else f"{loc.module}.{a.name}"
                                if isinstance(loc, ast.Import) and not a.asname:
                                    base = nm
                                ent = External(base)
            if not isinstance(ent, External):
                return None
            return ".".join([ent.dotted] + parts[::-1])

        with_calls = set()
        for n in ast.walk(f.node):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    for c in ast.walk(i.context_expr):
                        with_calls.add(id(c))
        own = [n for n in ast.walk(f.node)]
        for n in own:
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d is None:
                    continue
                res.count("library_calls_checked")
                if d in EXT_STATE_CALLS and id(n) not in with_calls:
                    res.add("library-state", f"{f.short}: {d}()",
                            f"changes the {EXT_STATE_CALLS[d]} for everything that runs later",
                            f"{mod.relpath}:{n.lineno}", [f.short])
                if d == "dask.config.set" and id(n) not in with_calls:
                    res.add("library-state", f"{f.short}: {d}()",
                            "changes the dask configuration outside a with statement",
                            f"{mod.relpath}:{n.lineno}", [f.short])
                if d.startswith(EXT_RANDOM) and d not in RANDOM_OK and not d.endswith((".seed", ".Generator")):
                    res.add("global-random", f"{f.short}: {d}()",
                            "draws from the process-wide random state",
                            f"{mod.relpath}:{n.lineno}", [f.short])
                if d in ("numpy.random.default_rng", "numpy.random.RandomState", "random.Random") and not n.args and not n.keywords:
                    res.add("global-random", f"{f.short}: {d}()",
                            "uses an unseeded random generator", f"{mod.relpath}:{n.lineno}", [f.short])
                if d.startswith(EXT_STATE_OBJECTS) and d.rsplit(".", 1)[1] in ("update", "setdefault", "pop", "clear", "__setitem__"):
                    res.add("library-state", f"{f.short}: {d}()",
                            "changes library-wide defaults", f"{mod.relpath}:{n.lineno}", [f.short])
            tgts = []
            if isinstance(n, ast.Assign):
                tgts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgts = [n.target]
            elif isinstance(n, ast.Delete):
                tgts = n.targets
            for t in tgts:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        base = x.value
                        d = dotted(base)
                        if d and d.startswith(EXT_STATE_OBJECTS):
                            res.add("library-state", f"{f.short}: {d}",
                                    "changes library-wide defaults", f"{mod.relpath}:{n.lineno}", [f.short])


def scan(proj, ctx: Ctx, res: Result):
    bodies = set()
    for f, _ in public_functions(proj):
        if f.name in GLOBAL_SETTERS:
            continue
        receivers = concrete_receivers(proj, f) or [None]
        if not ctx.thorough and len(receivers) > 3:
            receivers = receivers[:1] + receivers[-2:]
        for dyn in receivers:
            it = Interp(proj)
            ret, heap = it.run(f, {}, dyn)
            bodies |= it.analysed
            res.count("entry_contexts")
            res.count("calls_followed", it.calls)
            for e in shared_effects(it):
                res.add(
                    "shared-state-modified", f"{e.func.short}: {e.tok}",
                    f"the {SHARED[e.tok.root[0]]} {e.tok} is changed by `{e.detail}`",
                    e.where, [f.short, *e.chain])
            if ret is None:
                continue
            for t in ret.toks:
                if t.root[0] not in ("G", "D", "CACHE") or immutable_leaf(proj, t):
                    continue
                if ret.types is not None and not ret.types & MUTABLE:
                    continue
                if any("cache" in d for d in f.decorators):
                    continue
                res.add(
                    "shared-state-returned", f"{f.short}: {t}",
                    f"returns the {SHARED[t.root[0]]} {t} itself, so that a caller's change to "
                    "the result shows in later calls", f"{f.module.relpath}:{f.node.lineno}", [f.short])
    res.coverage["functions_analysed"] = len(bodies)
    ext_state_rule(proj, res)
    memo_rule(proj, res)


def run(ctx: Ctx) -> Result:
    res = Result(
        "C03",
        explanation=(
            "interprocedural effect analysis with module-level objects, class-level "
            "objects, default argument values and cached return values as tracked "
            "objects: no public callable may write or return one; library-wide state "
            "(matplotlib, dask, numpy, environment) only changes inside context managers; "
            "no draw from process-wide random state; values remembered on instances are "
            "forgotten by everything that changes their inputs"
        ),
        assumptions=[
            "third-party libraries are history independent; RANSAC in "
            "EBSDDetector.fit_pc/extrapolate_pc is random by documentation",
        ],
    )
    scan(ctx.proj, ctx, res)
    res.require(res.coverage["entry_contexts"] > 400, "too few entries")
    res.require(res.coverage.get("library_calls_checked", 0) > 300, "library calls not resolved")
    selftest(res)
    return res


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    r = Result("C03")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("S.collects", "S.stale", "U.stale2", "global_write", "default_write",
              "cached_write", "m.rc", "m.rng"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    res.require("good" not in txt and "fresh" not in txt, f"self-test: false report ({txt})")
    res.count("selftest_cases", 10)
