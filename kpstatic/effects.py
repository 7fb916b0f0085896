"""Interprocedural alias and effect analysis (abstract interpretation).

For one entry function at a time, the analysis follows every value that may
share memory with an object the entry did not create itself: the caller's
arguments, class-level and module-level mutable objects, mutable default
arguments, values remembered by caches.  Calls inside kikuchipy are followed
(context-sensitively, with constant flags such as ``inplace`` propagated and
branches decided by such constants pruned); calls into libraries are described
by a table of alias/copy/mutate facts.  The result is the set of *effects*: the
program points at which such a foreign object may be changed.

Nothing is executed; the domain is finite (access paths are cut at a fixed
length, loops are iterated to a small bound on a domain whose joins are unions).
"""

from __future__ import annotations

import ast
import builtins
from dataclasses import dataclass, field

from .project import (
    AnalysisBroken,
    Class,
    External,
    Func,
    GlobalVar,
    Module,
    Project,
    dotted_of,
)

NC = object()  # "not constant"
MAXPATH = 4
MAXDEPTH = 22

IMM = {"tuple", "str", "num", "bool", "none", "func", "mod", "type", "dtype", "slice"}
H5 = {"ext:File", "ext:Group", "ext:Dataset"}
REBIND_AUG = IMM | {"dask"}


@dataclass(frozen=True)
class Tok:
    root: tuple
    path: tuple = ()

    def ext(self, step: str) -> "Tok":
        if len(self.path) >= MAXPATH:
            return self
        return Tok(self.root, self.path + (step,))

    def __str__(self):
        s = self.root[1] if len(self.root) > 1 else self.root[0]
        if self.root[0] in ("CA", "D"):
            s = ".".join(str(x) for x in self.root[1:])
        for p in self.path:
            s += p if p.startswith("[") else "." + p
        return str(s)


class FuncRef:
    __slots__ = ("func", "bound", "env", "pargs", "pkw", "ext", "dyncls")

    def __init__(self, func=None, bound=None, env=None, pargs=(), pkw=None, ext=None,
                 dyncls=None):
        self.func, self.bound, self.env = func, bound, env
        self.pargs, self.pkw, self.ext, self.dyncls = pargs, pkw or {}, ext, dyncls


class AV:
    __slots__ = ("toks", "types", "const", "elts", "fns")

    def __init__(self, toks=frozenset(), types=None, const=NC, elts=None, fns=frozenset()):
        self.toks = frozenset(toks)
        self.types = None if types is None else frozenset(types)
        self.const = const
        self.elts = elts
        self.fns = frozenset(fns)

    def with_(self, **kw):
        d = dict(toks=self.toks, types=self.types, const=self.const, elts=self.elts,
                 fns=self.fns)
        d.update(kw)
        return AV(**d)

    def __eq__(self, o):
        return (
            isinstance(o, AV) and self.toks == o.toks and self.types == o.types
            and (self.const is o.const or (type(self.const) is type(o.const)
                                           and self.const == o.const))
            and self.elts == o.elts and self.fns == o.fns
        )

    def __hash__(self):
        return hash((self.toks, self.types))

    def __repr__(self):
        return f"AV({','.join(map(str, self.toks))}|{self.types}|{self.const if self.const is not NC else ''})"


FRESH = AV()


def typed(*t):
    return AV(types=t)


NUM = typed("num")
BOOL = typed("bool")
STR = typed("str")
NONE = AV(types=["none"], const=None)
ARR = typed("ndarray")
ARRNUM = typed("ndarray", "num")
DASK = typed("dask")


def const_av(v):
    t = ("none" if v is None else "bool" if isinstance(v, bool) else "str"
         if isinstance(v, (str, bytes)) else "num" if isinstance(v, (int, float, complex))
         else "tuple" if isinstance(v, tuple) else None)
    return AV(types=[t] if t else None, const=v)


def join(a: AV | None, b: AV | None) -> AV:
    if a is None:
        return b
    if b is None:
        return a
    if a is b or a == b:
        return a
    types = None if a.types is None or b.types is None else a.types | b.types
    const = NC
    if a.const is not NC and b.const is not NC and type(a.const) is type(b.const) and a.const == b.const:
        const = a.const
    elts = None
    if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
        elts = tuple(join(x, y) for x, y in zip(a.elts, b.elts))
    return AV(a.toks | b.toks, types, const, elts, a.fns | b.fns)


class State:
    __slots__ = ("vars", "heap")

    def __init__(self, vars, heap):
        self.vars, self.heap = vars, heap

    def copy(self):
        return State(dict(self.vars), dict(self.heap))


ABSENT = Tok(("ABSENT",))


def join_states(a: State | None, b: State | None) -> State | None:
    if a is None:
        return b
    if b is None:
        return a
    vars = {}
    for k in a.vars.keys() | b.vars.keys():
        x, y = a.vars.get(k), b.vars.get(k)
        vars[k] = join(x, y)
    heap = {}
    made = None
    for k in a.heap.keys() | b.heap.keys():
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None or y is None:
            v = x if y is None else y
            root = k.root
            if root[0] == "A" and k.path and k.path[-1].startswith("["):
                if made is None:
                    made = [{q.root for q in h if q.path and q.path[-1] == "__new__"} for h in (a.heap, b.heap)]
                if root in made[0 if x is None else 1]:
                    # the dictionary exists there, without this key
                    v = v.with_(toks=v.toks | {ABSENT})
            if root[0] != "A" and k.path and not k.path[-1].startswith("__"):
                # missing means: still the original object
                v = join(v, AV([k]))
            heap[k] = v
        else:
            heap[k] = join(x, y)
    return State(vars, heap)


@dataclass
class Effect:
    tok: Tok
    kind: str
    func: Func
    line: int
    detail: str
    chain: tuple

    @property
    def construct(self):
        return f"{self.func.short}: {self.detail}"

    @property
    def where(self):
        return f"{self.func.module.relpath}:{self.line}"


class Frame:
    def __init__(self, func: Func, module: Module, dyncls: Class | None):
        self.func, self.module, self.dyncls = func, module, dyncls
        self.ret: AV | None = None
        self.ret_state: State | None = None
        self.loops: list = []
        self.globals: set = set()
        self.nonlocals: set = set()
        self.yields: AV | None = None
        self.entry_vars: State | None = None


# ------------------------------------------------------------------ #
# Library tables
ALIAS_FUNCS = {
    "numpy." + n for n in (
        "asarray asanyarray atleast_1d atleast_2d atleast_3d ravel reshape squeeze "
        "transpose swapaxes moveaxis rollaxis expand_dims broadcast_to "
        "ascontiguousarray asfortranarray require flip flipud fliplr rot90 diagonal real imag "
        "broadcast_arrays split array_split hsplit vsplit asmatrix matrix_transpose permute_dims"
    ).split()
} | {"numpy.ma.masked_array", "numpy.ma.asarray", "numpy.lib.stride_tricks.as_strided",
     "numpy.lib.stride_tricks.sliding_window_view", "numpy.ma.array", "skimage.util.view_as_windows"}
ALIAS_METHODS = {"reshape", "ravel", "transpose", "squeeze", "view", "swapaxes", "diagonal",
                 "newbyteorder", "to_numpy"}
ALIAS_ATTRS = {"T", "real", "imag", "flat", "mT", "base"}
ELEM_FUNCS = {"zip", "enumerate", "reversed", "sorted", "map", "filter", "iter", "next",
              "itertools.chain", "itertools.product", "itertools.cycle",
              "itertools.zip_longest", "max", "min", "tqdm.tqdm"}
ARG0_MUTATORS = {"numpy.copyto", "numpy.put", "numpy.place", "numpy.putmask",
                 "numpy.fill_diagonal", "numpy.random.shuffle", "random.shuffle",
                 "numpy.put_along_axis", "heapq.heappush", "heapq.heapify",
                 "numpy.add.at", "numpy.subtract.at", "numpy.multiply.at",
                 "numpy.maximum.at", "numpy.minimum.at", "bisect.insort"}
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}
DICT_MUT = {"update", "setdefault", "pop", "popitem", "clear"}
SET_MUT = {"add", "discard", "remove", "pop", "clear", "update",
           "difference_update", "intersection_update"}
ARR_MUT = {"fill", "sort", "resize", "partition", "put", "itemset", "setflags",
           "byteswap_inplace"}
UNKNOWN_MUT = {"append", "extend", "insert", "setdefault", "popitem", "fill",
               "itemset", "sort", "reverse", "difference_update", "update"}
UFUNC2 = {"numpy." + n for n in (
    "add subtract multiply divide true_divide floor_divide power maximum minimum fmax fmin arctan2 "
    "hypot mod remainder bitwise_and bitwise_or bitwise_xor logical_and logical_or"
).split()}
UFUNC1 = {"numpy." + n for n in (
    "sqrt square exp log log10 abs absolute negative sin cos tan arcsin arccos arctan deg2rad "
    "rad2deg radians degrees floor ceil rint sign conjugate logical_not invert nan_to_num"
).split()}
REDUCTIONS = set("sum mean std var min max amin amax median nanmin nanmax nanmean argmin argmax dot vdot inner".split())
HS_INPLACE = {"change_dtype", "crop", "compute", "set_signal_type", "close_file",
              "set_signal_dimension", "set_signal_origin", "crop_signal", "crop_image",
              "decomposition", "normalize_decomposition_components", "swap_axes_inplace"}
HS_VIEWS = {"as_lazy", "_slicer", "as_signal2D", "as_signal1D", "transpose", "swap_axes",
            "split", "squeeze"}
MUTABLE_CALLS = {"dict", "list", "set", "collections.defaultdict", "collections.OrderedDict",
                 "numpy.array", "numpy.zeros", "numpy.ones", "numpy.empty", "defaultdict",
                 "collections.deque"}


def is_mutable_literal(node, proj=None, mod=None) -> bool:
    if isinstance(node, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(node, ast.Call):
        d = dotted_of(node.func)
        if d is None:
            return False
        if d in MUTABLE_CALLS:
            return True
        if proj is not None and mod is not None:
            head, _, rest = d.partition(".")
            ent = proj.resolve_in_module(mod, head)
            for p in rest.split(".") if rest else []:
                ent = proj.member(ent, p) if ent is not None else None
            if isinstance(ent, External):
                return ent.dotted in MUTABLE_CALLS
            if isinstance(ent, Class):
                return True
    return False


STR_PURE = {
    "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "replace",
    "title", "capitalize", "removeprefix", "removesuffix",
}


class Diverged(Exception):
    """The evaluated call never returns normally."""


class Interp:
    """One analysis run for one entry function."""

    def __init__(self, proj: Project):
        self.proj = proj
        self.effects: dict[tuple, Effect] = {}
        self.stack: list[tuple[Func, int]] = []
        self.frames: list[Frame] = []
        self.calls = 0
        self.analysed: set[str] = set()
        self.unresolved: dict[str, int] = {}
        self.mapped: list = []  # (FuncRef, node, frame.func) handed to a scheduler
        self.calls_log: list = []
        self.on_call = None
        self.in_mapped = 0
        self._attr_types: dict = {}
        self._inst_assigned: dict = {}
        self._modconst: dict = {}
        self.mapped_effects: dict[tuple, Effect] = {}
        self.mapped_allocs: set = set()
        self._memo_depth = 0
        # opt-in: a call that never returns ends the calling path
        self.follow_noreturn = False
        self.partial = 0

    # ---------------------------------------------------------- entry
    def run(self, f: Func, config: dict | None = None, dyncls: Class | None = None):
        config = config or {}
        vars: dict[str, AV] = {}
        dyncls = dyncls or f.cls
        for i, p in enumerate(f.params):
            if p.name in config:
                vars[p.name] = const_av(config[p.name])
                continue
            if i == 0 and f.kind in ("method", "property", "setter"):
                vars[p.name] = AV([Tok(("P", p.name))], [dyncls] if dyncls else None)
                continue
            if i == 0 and f.kind == "class":
                vars[p.name] = AV(types=["type"], fns=[FuncRef(ext=dyncls)])
                continue
            if p.kind == "kwarg":
                vars[p.name] = AV([Tok(("K", p.name))], ["dict"])
                continue
            if p.kind == "vararg":
                vars[p.name] = AV([Tok(("K", p.name))], ["tuple"])
                continue
            types = self.ann_types(f.module, p.annotation)
            toks = {Tok(("P", p.name))}
            if p.default is not None and is_mutable_literal(p.default, self.proj, f.module):
                toks.add(Tok(("D", f.short, p.name)))
            if types is not None and p.default is not None and isinstance(p.default, ast.Constant) and p.default.value is None:
                types = types | {"none"}
            vars[p.name] = AV(toks, types)
        st = State(vars, {})
        return self.exec_func(f, st, dyncls)

    def exec_func(self, f: Func, st: State, dyncls, env=None):
        """Run the body in state `st` (vars are the callee's).  Returns
        (ret AV, heap)."""
        fr = Frame(f, f.module, dyncls)
        self.frames.append(fr)
        self.analysed.add(f.qualname)
        self.calls += 1
        try:
            out = self.block(f.body(), st)
        finally:
            self.frames.pop()
        final = join_states(out, fr.ret_state)
        ret = fr.ret
        if out is not None:
            ret = join(ret, NONE) if ret is not None else NONE
        if fr.yields is not None:
            site = self.alloc(f.node)
            heap = final.heap if final else st.heap
            ret = self.new_container("list", site, fr.yields, heap)
        if ret is None:
            ret = AV(types=[])
        self.raw_ret = ret
        if ret.types is None and not isinstance(f.node, ast.Lambda) and getattr(f.node, "returns", None) is not None:
            t = self.ann_types(f.module, f.node.returns)
            if t is not None:
                ret = ret.with_(types=t)
        return ret, (final.heap if final is not None else None)

    # ---------------------------------------------------------- types
    def ann_types(self, mod: Module, node) -> frozenset | None:
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if node.value is None:
                return frozenset(["none"])
            if isinstance(node.value, str):
                try:
                    return self.ann_types(mod, ast.parse(node.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a, b = self.ann_types(mod, node.left), self.ann_types(mod, node.right)
            return None if a is None or b is None else a | b
        if isinstance(node, ast.Subscript):
            d = dotted_of(node.value) or ""
            base = d.split(".")[-1]
            if base in ("Optional",):
                a = self.ann_types(mod, node.slice)
                return None if a is None else a | {"none"}
            if base in ("Union",):
                elts = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
                out = frozenset()
                for e in elts:
                    t = self.ann_types(mod, e)
                    if t is None:
                        return None
                    out |= t
                return out
            if base == "Literal":
                return frozenset(["str", "num"])
            return self.ann_types(mod, node.value)
        d = dotted_of(node)
        if d is None:
            return None
        base = d.split(".")[-1]
        simple = {
            "int": "num", "float": "num", "complex": "num", "Number": "num", "bool": "bool",
            "str": "str", "bytes": "str", "dict": "dict", "Dict": "dict", "list": "list",
            "List": "list", "tuple": "tuple", "Tuple": "tuple", "set": "set", "ndarray": "ndarray",
            "Callable": "func", "type": "type", "dtype": "dtype", "None": "none", "Path": "ext:Path",
            "Iterable": "seq", "Sequence": "seq", "ArrayLike": None, "DTypeLike": "dtype", "Any": None,
            "slice": "slice",
        }
        if base in simple and d not in self.proj.classes:
            v = simple[base]
            return None if v is None else frozenset([v])
        head, _, rest = d.partition(".")
        ent = self.proj.resolve_in_module(mod, head)
        for p in rest.split(".") if rest else []:
            ent = self.proj.member(ent, p) if ent is not None else None
        if isinstance(ent, Class):
            return frozenset([ent])
        if isinstance(ent, External) and base == "Self":
            if self.frames:
                fr = self.frames[-1]
                c = fr.dyncls or fr.func.cls
                if isinstance(c, Class):
                    return frozenset([c])
            return None
        if isinstance(ent, External):
            if ent.dotted.startswith("dask") and ent.dotted.endswith("Array"):
                return frozenset(["dask"])
            return frozenset(["ext:" + ent.dotted.split(".")[-1]])
        for c in self.proj.classes.values():
            if c.name == base:
                return frozenset([c])
        return None

    def attr_type(self, cls: Class, name: str):
        key = (cls, name)
        if key in self._attr_types:
            return self._attr_types[key]
        self._attr_types[key] = None
        res = None
        for k in self.proj.mro(cls):
            if not isinstance(k, Class):
                continue
            if name in k.attr_ann:
                res = self.ann_types(k.module, k.attr_ann[name])
                break
            init = k.methods.get("__init__")
            if init is None:
                continue
            for n in ast.walk(init.node):
                tgt = val = ann = None
                if isinstance(n, ast.AnnAssign):
                    tgt, val, ann = n.target, n.value, n.annotation
                elif isinstance(n, ast.Assign):
                    tgt, val = n.targets[0], n.value
                if (
                    isinstance(tgt, ast.Attribute) and tgt.attr == name
                    and isinstance(tgt.value, ast.Name) and tgt.value.id == init.self_name
                ):
                    if ann is not None:
                        res = self.ann_types(k.module, ann)
                    elif isinstance(val, ast.Name) and init.param(val.id):
                        res = self.ann_types(k.module, init.param(val.id).annotation)
                    elif isinstance(val, ast.Call):
                        d = dotted_of(val.func)
                        if d:
                            ent = self.proj.resolve_in_module(k.module, d.split(".")[0])
                            if isinstance(ent, Class):
                                res = frozenset([ent])
                    break
            if res is not None:
                break
        self._attr_types[key] = res
        return res

    def instance_assigned(self, cls: Class, name: str) -> bool:
        """Does construction of `cls` always give the instance its own value?"""
        key = (cls, name)
        if key in self._inst_assigned:
            return self._inst_assigned[key]
        res = False
        for k in self.proj.mro(cls):
            if isinstance(k, Class):
                if any(str(d).endswith("dataclass") for d in
                       [dotted_of(x.func if isinstance(x, ast.Call) else x) for x in k.node.decorator_list]):
                    if name in k.attr_ann:
                        v = k.attrs.get(name)
                        res = True if not (v is not None and isinstance(v, (ast.Dict, ast.List))) else False
                        # a dataclass field() gives each instance its own
                        if isinstance(v, ast.Call):
                            res = True
                        if res:
                            break
                init = k.methods.get("__init__")
                if init is None:
                    continue
                for s in init.body():  # unconditional statements only
                    for n in ([s] if isinstance(s, (ast.Assign, ast.AnnAssign)) else []):
                        tgts = n.targets if isinstance(n, ast.Assign) else [n.target]
                        for t in tgts:
                            for tt in ast.walk(t):
                                if (
                                    isinstance(tt, ast.Attribute) and tt.attr == name
                                    and isinstance(tt.value, ast.Name)
                                    and tt.value.id == init.self_name
                                ):
                                    res = True
                if res:
                    break
        self._inst_assigned[key] = res
        return res

    def stored_anywhere(self, cls: Class, name: str) -> bool:
        """May some code give an instance its own value of a class attribute?"""
        stored = self.proj.__dict__.get("_stored_attrs")
        if stored is None:
            stored = self.proj.__dict__["_stored_attrs"] = set()
            for m in self.proj.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        stored.add(n.attr)
                    elif isinstance(n, ast.Call) and dotted_of(n.func) == "setattr":
                        c = n.args[1] if len(n.args) > 1 else None
                        stored.add(c.value if isinstance(c, ast.Constant) else "*")
        return name in stored or "*" in stored and name.startswith("_")

    # --------------------------------------------------------- effects
    def effect(self, toks, kind, node, detail, step=None):
        fr = self.frames[-1]
        for t in toks:
            if t.path and t.path[-1] == "~view":
                if kind in ("setattr", "delattr"):
                    continue  # attribute of the view object, not of its base
                t = Tok(t.root, t.path[:-1])
            if step is not None:
                t = Tok(t.root, t.path + (step,)) if len(t.path) < MAXPATH + 1 else t
            if t.root[0] == "ABSENT":
                continue
            if t.root[0] == "A":
                if self.in_mapped and t.root not in self.mapped_allocs:
                    key = (t, kind, fr.func.qualname, detail)
                    chain = tuple(f"{f.short}" for f, _ in self.stack)
                    self.mapped_effects.setdefault(key, Effect(
                        t, kind, fr.func, getattr(node, "lineno", 0), detail, chain))
                continue
            if t.root[0] == "K" and kind != "deep" and len(t.path) <= (1 if step else 0):
                continue
            key = (t, kind, fr.func.qualname, detail)
            if key not in self.effects:
                chain = tuple(f"{f.short}" for f, _ in self.stack)
                self.effects[key] = Effect(t, kind, fr.func, getattr(node, "lineno", 0), detail, chain)
            if self.in_mapped:
                self.mapped_effects.setdefault(key, self.effects[key])

    def alloc(self, node) -> Tok:
        key = tuple(l for _, l in self.stack[-3:])
        t = Tok(("A", (key, id(node), self.in_mapped)))
        if self.in_mapped:
            self.mapped_allocs.add(t.root)
        return t

    def new_container(self, kind, tok, content: AV | None, heap) -> AV:
        if content is not None and (content.toks or content.fns or content.types):
            heap[Tok(tok.root, ("[]",))] = content
        return AV([tok], [kind])

    # --------------------------------------------------- heap access
    def read_field(self, st: State, av: AV, step: str, types=None) -> AV:
        out = None
        for t in av.toks:
            out = join(out, self._read_tok(st, t, step, types, 0))
        if out is None:
            out = AV(types=types)
        return out

    def _read_tok(self, st, t: Tok, step, types, depth) -> AV:
        k = Tok(t.root, t.path + (step,))
        h = st.heap.get(k)
        if h is not None:
            return h
        res = None
        if step.startswith("[") and step != "[]":
            g = st.heap.get(Tok(t.root, t.path + ("[]",)))
            if g is not None:
                res = g
        if step == "[]":
            pre = t.path
            for kk, v in st.heap.items():
                if kk.root == t.root and len(kk.path) == len(pre) + 1 and kk.path[:-1] == pre and kk.path[-1].startswith("["):
                    res = join(res, v)
        proto = st.heap.get(Tok(t.root, t.path + ("__proto__",)))
        if proto is not None and depth < 4:
            for pt in proto.toks:
                if pt != t:
                    res = join(res, self._read_tok(st, pt, step, types, depth + 1))
        if t.root[0] == "A":
            return res if res is not None else AV(types=types)
        if res is not None and proto is not None:
            return res
        base = AV([t.ext(step)], types)
        return join(res, base) if res is not None else base

    def write_field(self, st: State, av: AV, step: str, val: AV, weak=False):
        strong = len(av.toks) == 1 and not weak
        for t in av.toks:
            k = Tok(t.root, t.path + (step,))
            if strong:
                st.heap[k] = val
                # forget deeper facts of the replaced object
                n = len(k.path)
                for kk in [x for x in st.heap if x.root == t.root and len(x.path) > n and x.path[:n] == k.path]:
                    del st.heap[kk]
            else:
                old = st.heap.get(k)
                if old is None and t.root[0] != "A":
                    old = AV([t.ext(step)])
                st.heap[k] = join(old, val) if old is not None else val
            if step == "[]":
                # an unknown key may be any of the known ones
                n = len(t.path)
                for kk in [x for x in st.heap if x.root == t.root and len(x.path) == n + 1
                           and x.path[:n] == t.path and x.path[n].startswith("[") and x.path[n] != "[]"]:
                    st.heap[kk] = join(st.heap[kk], val)

    # --------------------------------------------------------- blocks
    def block(self, stmts, st: State | None) -> State | None:
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st: State) -> State | None:
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            try:
                return m(s, st)
            except Diverged:
                return None
        return st

    def s_Pass(self, s, st):
        return st

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                ent = self.proj.modules.get(a.name) or External(a.name)
                st.vars[a.asname] = self.entity_av(ent)
            else:
                n = a.name.split(".")[0]
                st.vars[n] = self.entity_av(self.proj.modules.get(n) or External(n))
        return st

    def s_ImportFrom(self, s, st):
        mod = self.frames[-1].module
        for alias, target in self.proj._import_bindings(mod, s):
            if target[0] == "from":
                ent = self.proj.resolve_from(target[1], target[2])
            else:
                ent = External(target[1])
            st.vars[alias] = self.entity_av(ent)
        return st

    def s_FunctionDef(self, s, st):
        f = self.proj.nested_func(self.frames[-1].func, s)
        fr = FuncRef(func=f, env=None, dyncls=self.frames[-1].dyncls)
        st.vars[s.name] = AV(types=["func"], fns=[fr])
        fr.env = dict(st.vars)
        fr.env[s.name] = st.vars[s.name]
        for d in s.decorator_list:
            self.ev(d, st)
        return st

    def s_ClassDef(self, s, st):
        return st

    def s_Global(self, s, st):
        self.frames[-1].globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.frames[-1].nonlocals.update(s.names)
        return st

    def s_Return(self, s, st):
        fr = self.frames[-1]
        v = self.ev(s.value, st) if s.value is not None else NONE
        fr.ret = join(fr.ret, v) if fr.ret is not None else v
        fr.ret_state = join_states(fr.ret_state, st)
        return None

    def s_Raise(self, s, st):
        if s.exc is not None:
            self.ev(s.exc, st)
        return None

    def s_Assert(self, s, st):
        self.ev(s.test, st)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                self.ev(t.slice, st)
                self.mutate(b, "delitem", t, f"del {ast.unparse(t)}")
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.effect(b.toks, "delattr", t, f"del {ast.unparse(t)}", step=t.attr)
            elif isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            if v.types is None:
                t = self.ann_types(self.frames[-1].module, s.annotation)
                if t is not None:
                    v = v.with_(types=t)
            self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        txt = f"{ast.unparse(t)} {type(s.op).__name__}="
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, st)
            self.aug_value(cur, v, s, txt, st)
            st.vars[t.id] = self.aug_result(cur, v)
            if t.id in self.frames[-1].globals:
                self.effect([Tok(("G", f"{self.frames[-1].module.name}.{t.id}"))], "rebind", s, txt)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            cur = self.get_attr(base, t.attr, st, t)
            self.aug_value(cur, v, s, txt, st)
            self.set_attr(base, t.attr, self.aug_result(cur, v), st, t, txt)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.mutate(base, "setitem", t, txt)
        return st

    def aug_value(self, cur: AV, v: AV, node, txt, st):
        if cur.types is not None and not (cur.types - REBIND_AUG):
            return
        if cur.types is None:
            # of unknown kind: in-place only if it certainly is an array/list
            return
        if cur.types & {"ndarray", "list", "set", "dict"}:
            self.effect(cur.toks, "augassign", node, txt)

    def aug_result(self, cur, v):
        if cur.types is not None and not (cur.types - REBIND_AUG):
            t = set(cur.types) | set(v.types or [])
            if v.types is None:
                return AV()
            if "ndarray" in t:
                return ARR
            return AV(types=t)
        return cur.with_(const=NC)

    def assign(self, t, v: AV, st: State, node):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            if t.id in fr.globals:
                self.effect([Tok(("G", f"{fr.module.name}.{t.id}"))], "rebind", node, f"global {t.id} =")
            st.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, AV(self.elem(v, st).toks, ["list"]), st, node)
                elif v.elts is not None and not star and len(v.elts) == n:
                    self.assign(e, v.elts[i], st, node)
                else:
                    self.assign(e, self.elem(v, st, iterate=True), st, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.set_attr(base, t.attr, v, st, t, f"{ast.unparse(t)} =")
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            idx = self.ev(t.slice, st)
            self.mutate(base, "setitem", t, f"{ast.unparse(t)} =")
            if base.types is None or not (base.types <= {"ndarray", "dask"}):
                self.write_field(st, base, self.key_step(idx), v, weak=idx.const is NC)

    def key_step(self, idx: AV):
        if idx.const is not NC and isinstance(idx.const, (str, int)):
            return f"[{idx.const!r}]"
        return "[]"

    def mutate(self, av: AV, kind, node, detail):
        if av.types is not None and not (av.types - IMM):
            return
        self.effect(av.toks, kind, node, detail)

    def s_If(self, s, st):
        c = self.test(s.test, st)
        if c is True:
            return self.block(s.body, self.refine(s.test, True, st))
        if c is False:
            return self.block(s.orelse, self.refine(s.test, False, st))
        a = self.block(s.body, self.refine(s.test, True, st.copy()))
        b = self.block(s.orelse, self.refine(s.test, False, st.copy()))
        return join_states(a, b)

    def s_While(self, s, st):
        fr = self.frames[-1]
        out = None
        cur = st
        for _ in range(2):
            fr.loops.append([None, None])
            c = self.test(s.test, cur)
            out = join_states(out, cur.copy()) if c is not True else out
            b = self.block(s.body, cur.copy()) if c is not False else None
            brk, cont = fr.loops.pop()
            out = join_states(out, brk)
            nxt = join_states(b, cont)
            if nxt is None:
                break
            cur = join_states(cur, nxt)
        else:
            out = join_states(out, cur)
        if s.orelse and out is not None:
            out = self.block(s.orelse, out)
        return out

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        el = self.elem(it, st, iterate=True)
        fr = self.frames[-1]
        if it.elts is not None and 0 < len(it.elts) <= 6:
            # a short sequence with known elements: unrolled
            cur, out = st, None
            for e in it.elts:
                fr.loops.append([None, None])
                self.assign(s.target, e, cur, s)
                b = self.block(s.body, cur)
                brk, cont = fr.loops.pop()
                out = join_states(out, brk)
                cur = join_states(b, cont)
                if cur is None:
                    return out
            return join_states(out, self.block(s.orelse, cur))
        cur = st
        out = None
        for _ in range(2):
            fr.loops.append([None, None])
            w = cur.copy()
            self.assign(s.target, el, w, s)
            b = self.block(s.body, w)
            brk, cont = fr.loops.pop()
            out = join_states(out, brk)
            nxt = join_states(b, cont)
            if nxt is None:
                break
            cur = join_states(cur, nxt)
            el = join(el, self.elem(it, cur, iterate=True))
        out = join_states(out, self.block(s.orelse, cur))
        return out

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1][0] = join_states(fr.loops[-1][0], st)
        return None

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loops:
            fr.loops[-1][1] = join_states(fr.loops[-1][1], st)
        return None

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        fr = self.frames[-1]
        ret0 = fr.ret_state
        body = self.block(s.body, st)
        hstart = join_states(pre, body.copy() if body is not None else None)
        hstart = join_states(hstart, fr.ret_state) if body is None and fr.ret_state is not ret0 else hstart
        out = self.block(s.orelse, body) if body is not None else None
        for h in s.handlers:
            if body is not None and all(self.cannot_raise(x, pre) for x in s.body):
                break
            w = hstart.copy()
            if h.name:
                w.vars[h.name] = FRESH
            out = join_states(out, self.block(h.body, w))
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, hstart.copy())
            else:
                out = self.block(s.finalbody, out)
        return out

    def cannot_raise(self, x, st) -> bool:
        """Statements that only deep-copy a value into a name or container."""
        if isinstance(x, ast.Pass):
            return True
        if not isinstance(x, ast.Assign) or not isinstance(x.value, ast.Call):
            return False
        fv = self.ev(x.value.func, st.copy())
        return bool(fv.fns) and all(
            isinstance(f.ext, External) and f.ext.dotted == "copy.deepcopy" for f in fv.fns
        )

    # ---------------------------------------------------- conditions
    def test(self, e, st) -> bool | None:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            r = self.test(e.operand, st)
            return None if r is None else not r
        if isinstance(e, ast.BoolOp):
            vals = []
            w = st
            for v in e.values:
                r = self.test(v, w)
                if isinstance(e.op, ast.And):
                    if r is False:
                        return False
                    w = self.refine(v, True, w.copy())
                else:
                    if r is True:
                        return True
                    w = self.refine(v, False, w.copy())
                vals.append(r)
            if all(r is True for r in vals):
                return True
            if all(r is False for r in vals):
                return False
            return None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a = self.ev(e.left, st)
            b = self.ev(e.comparators[0], st)
            op = e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = None
                if b.const is None:
                    if a.const is None:
                        r = True
                    elif a.const is not NC or (a.types is not None and "none" not in a.types):
                        r = False
                elif a.const is not NC and b.const is not NC and isinstance(b.const, bool):
                    r = a.const is b.const
                if r is None:
                    return None
                return r if isinstance(op, ast.Is) else not r
            if a.const is not NC and b.const is not NC:
                try:
                    if isinstance(op, ast.Eq):
                        return bool(a.const == b.const)
                    if isinstance(op, ast.NotEq):
                        return bool(a.const != b.const)
                    if isinstance(op, ast.Lt):
                        return bool(a.const < b.const)
                    if isinstance(op, ast.Gt):
                        return bool(a.const > b.const)
                    if isinstance(op, ast.LtE):
                        return bool(a.const <= b.const)
                    if isinstance(op, ast.GtE):
                        return bool(a.const >= b.const)
                except TypeError:
                    return None
            if isinstance(op, (ast.In, ast.NotIn)) and a.const is not NC and b.elts is not None:
                cs = [x.const for x in b.elts]
                if all(c is not NC for c in cs):
                    r = a.const in cs
                    return r if isinstance(op, ast.In) else not r
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b.const, str) and isinstance(a.const, str):
                r = a.const in b.const
                return r if isinstance(op, ast.In) else not r
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            if e.func.id == "isinstance" and len(e.args) == 2:
                a = self.ev(e.args[0], st)
                want = self.class_types(e.args[1], st)
                if want is None or a.types is None:
                    return None
                rel = [self.type_rel(t, want) for t in a.types]
                if rel and all(r is True for r in rel):
                    return True
                if rel and all(r is False for r in rel):
                    return False
                return None
            if e.func.id == "callable":
                a = self.ev(e.args[0], st)
                if a.fns and not a.toks:
                    return True
                return None
        v = self.ev(e, st)
        if v.const is not NC:
            return bool(v.const)
        if v.types is not None and v.types and v.types <= {"none"}:
            return False
        if v.types and all(isinstance(t, Class) and self.always_true(t) for t in v.types):
            return True
        return None

    def always_true(self, c: Class) -> bool:
        """Instances have no way to be false (a signal has length >= 1)."""
        if self.is_signal(c):
            return True
        mro = self.proj.mro(c)
        return all(
            isinstance(k, Class) and not {"__len__", "__bool__"} & k.methods.keys()
            or isinstance(k, External) and k.dotted.split(".")[-1] in ("ABC", "object")
            for k in mro
        )

    def class_types(self, node, st):
        nodes = node.elts if isinstance(node, ast.Tuple) else [node]
        out = set()
        for n in nodes:
            t = self.ann_types(self.frames[-1].module, n)
            if t is None:
                return None
            out |= t
        return out

    def type_rel(self, t, want):
        """True: certainly an instance; False: certainly not; None: unknown."""
        if isinstance(t, Class):
            for w in want:
                if isinstance(w, Class) and w in self.proj.mro(t):
                    return True
                if isinstance(w, Class) and t in self.proj.mro(w):
                    return None
                if isinstance(w, str) and w.startswith("ext:"):
                    return None
            exts = {k.dotted.split(".")[-1] for k in self.proj.mro(t) if isinstance(k, External)}
            if exts & {w for w in want if isinstance(w, str)}:
                return True
            return False
        if t in want:
            if t in ("num",):
                return None  # int/float distinction is lost
            return True
        if isinstance(t, str) and t in ("seq",):
            return None
        if isinstance(t, str) and t.startswith("ext:"):
            return None if any(isinstance(w, str) and w.startswith("ext:") for w in want) else False
        if t == "bool" and "num" in want:
            return None
        if any(isinstance(w, str) and w.startswith(("ext:", "seq")) for w in want):
            return None
        return False

    def refine(self, e, truth: bool, st: State) -> State:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not truth, st)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) and truth or isinstance(e.op, ast.Or) and not truth:
                for v in e.values:
                    st = self.refine(v, truth, st)
            return st
        if isinstance(e, ast.Name):
            v = st.vars.get(e.id)
            if v is not None and v.const is NC:
                if truth and v.types is not None and "none" in v.types:
                    st.vars[e.id] = v.with_(types=v.types - {"none"})
                elif v.types is not None and v.types and v.types <= {"bool"}:
                    st.vars[e.id] = const_av(truth)
            return st
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            tgt = e.left
            op = e.ops[0]
            rhs = e.comparators[0]
            if isinstance(tgt, ast.Name) and tgt.id in st.vars:
                v = st.vars[tgt.id]
                if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(rhs, ast.Constant) and rhs.value is None:
                    isnone = truth == isinstance(op, ast.Is)
                    if isnone:
                        st.vars[tgt.id] = NONE
                    elif v.types is not None:
                        st.vars[tgt.id] = v.with_(types=v.types - {"none"})
                elif isinstance(op, ast.Eq) and truth and isinstance(rhs, ast.Constant) and v.const is NC:
                    if v.types is None or v.types <= {"str", "num", "none", "bool"}:
                        st.vars[tgt.id] = const_av(rhs.value)
            return st
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            tgt = e.args[0]
            if isinstance(tgt, ast.Name) and tgt.id in st.vars:
                v = st.vars[tgt.id]
                want = self.class_types(e.args[1], st)
                if want is not None:
                    if truth:
                        if v.types is None:
                            if not any(isinstance(w, str) and w.startswith(("ext:", "seq")) for w in want):
                                st.vars[tgt.id] = v.with_(types=want)
                        else:
                            keep = [t for t in v.types if self.type_rel(t, want) is not False]
                            st.vars[tgt.id] = v.with_(types=keep or want)
                    elif v.types is not None:
                        keep = [t for t in v.types if self.type_rel(t, want) is not True]
                        st.vars[tgt.id] = v.with_(types=keep if keep else v.types)
        return st

    # --------------------------------------------------- expressions
    def ev(self, e, st: State) -> AV:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return FRESH
        return m(e, st)

    def e_Constant(self, e, st):
        return const_av(e.value)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                parts.append(x.const if v.conversion == -1 and v.format_spec is None else NC)
            else:
                parts.append(v.value)
        if all(isinstance(x, str) for x in parts):
            return const_av("".join(parts))
        return STR

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return typed("slice")

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        fr = self.frames[-1]
        fr.yields = join(fr.yields, v) if fr.yields is not None else v
        return FRESH

    def e_YieldFrom(self, e, st):
        v = self.elem(self.ev(e.value, st), st)
        fr = self.frames[-1]
        fr.yields = join(fr.yields, v) if fr.yields is not None else v
        return FRESH

    def e_Name(self, e, st):
        return self.lookup_name(e.id, st)

    def lookup_name(self, name, st) -> AV:
        if name in st.vars:
            v = st.vars[name]
            return v if v is not None else FRESH
        mod = self.frames[-1].module
        ent = self.proj.resolve_in_module(mod, name)
        if ent is None:
            if hasattr(builtins, name):
                return AV(types=["func"], fns=[FuncRef(ext=External(name))])
            return FRESH
        return self.entity_av(ent)

    def entity_av(self, ent) -> AV:
        if isinstance(ent, Func):
            return AV(types=["func"], fns=[FuncRef(func=ent)])
        if isinstance(ent, Class):
            return AV(types=["type"], fns=[FuncRef(ext=ent)])
        if isinstance(ent, External):
            return AV(types=None, fns=[FuncRef(ext=ent)])
        if isinstance(ent, Module):
            return AV(types=["mod"], fns=[FuncRef(ext=ent)])
        if isinstance(ent, GlobalVar):
            mod = self.proj.modules[ent.module]
            val = mod.globals.get(ent.name)
            if isinstance(val, ast.Constant):
                if self.proj.global_changed(ent.module, ent.name):
                    return FRESH
                return const_av(val.value)
            if isinstance(val, (ast.Tuple, ast.List)):
                elts = []
                for x in val.elts:
                    elts.append(const_av(x.value) if isinstance(x, ast.Constant) else FRESH)
                if isinstance(val, ast.Tuple):
                    return AV(types=["tuple"], elts=tuple(elts))
                if self.proj.global_changed(ent.module, ent.name):
                    elts = None
                return AV([Tok(("G", ent.dotted))], ["list"], elts=None if elts is None else tuple(elts))
            if isinstance(val, ast.Dict):
                return AV([Tok(("G", ent.dotted))], ["dict"])
            if isinstance(val, ast.Lambda):
                return FRESH
            types = None
            if isinstance(val, ast.Call):
                d = dotted_of(val.func)
                if d:
                    h, _, rest = d.partition(".")
                    t = self.proj.resolve_in_module(mod, h)
                    for p in rest.split(".") if rest else []:
                        t = self.proj.member(t, p) if t is not None else None
                    if isinstance(t, Class):
                        types = [t]
                    elif isinstance(t, External) and t.dotted.startswith("numpy."):
                        types = ["ndarray"]
            return AV([Tok(("G", ent.dotted))], types)
        return FRESH

    def e_Attribute(self, e, st):
        v = e.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            fr = self.frames[-1]
            selfav = st.vars.get(fr.func.self_name) if fr.func.self_name else None
            dyn = fr.dyncls or fr.func.cls
            if selfav is not None and isinstance(dyn, Class) and fr.func.cls is not None:
                m = self.proj.lookup_after(dyn, fr.func.cls, e.attr)
                if m is not None and m.kind == "property":
                    return self.call_func(m, [selfav], {}, st, e, dyncls=dyn)
                if m is not None:
                    return AV(types=["func"], fns=[FuncRef(func=m, bound=selfav, dyncls=dyn)])
        base = self.ev(e.value, st)
        return self.get_attr(base, e.attr, st, e)

    def get_attr(self, base: AV, name: str, st: State, node) -> AV:
        out = None
        if name == "__class__" and base.types and all(isinstance(t, Class) for t in base.types):
            return AV(types=["type"], fns=[FuncRef(ext=t) for t in base.types])
        # namespaces
        for fr in base.fns:
            ent = fr.ext
            if isinstance(ent, (External, Module)):
                m = self.proj.member(ent, name)
                if m is not None:
                    out = join(out, self.entity_av(m))
            elif isinstance(ent, Class):
                m = self.proj.lookup(ent, name)
                if m is not None:
                    out = join(out, AV(types=["func"], fns=[FuncRef(func=m, bound=None, dyncls=ent)]))
                else:
                    ca = self.proj.class_attr(ent, name)
                    if ca is not None:
                        out = join(out, self.class_attr_av(ca[0], name, ca[1]))
        if base.fns and out is not None and not base.toks:
            return out
        handled = False
        if base.types:
            for t in base.types:
                if isinstance(t, Class):
                    m = self.proj.lookup(t, name)
                    if m is not None:
                        handled = True
                        if m.kind == "property":
                            sub = base.with_(types=[t], fns=frozenset())
                            # strong field facts win over recomputation
                            out = join(out, self.call_func(m, [sub], {}, st, node, dyncls=t))
                        else:
                            b = base.with_(types=[t], fns=frozenset())
                            if m.kind == "static":
                                b = None
                            out = join(out, AV(types=["func"], fns=[FuncRef(func=m, bound=b, dyncls=t)]))
                        continue
                    if name in ("inav", "isig") and self.is_signal(t):
                        handled = True
                        out = join(out, base.with_(types=["hsslice:" + t.qualname], fns=frozenset()))
                        continue
                    ca = self.proj.class_attr(t, name)
                    if ca is not None and not self.instance_assigned(t, name):
                        handled = True
                        v = self.class_attr_av(ca[0], name, ca[1])
                        if v.const is not NC and self.stored_anywhere(t, name):
                            at = self.attr_type(t, name)
                            v = AV(types=None if at is None else at | v.types)
                        # an instance override, if any
                        for tk in base.toks:
                            h = st.heap.get(Tok(tk.root, tk.path + (name,)))
                            if h is not None:
                                v = h
                        out = join(out, v)
                        continue
        if handled:
            return out
        if base.types is not None and base.types and base.types <= {"ndarray", "dask"}:
            if name in ALIAS_ATTRS:
                return base.with_(elts=None, const=NC)
            if name in ("shape", "chunks", "strides"):
                return typed("tuple")
            if name in ("ndim", "size", "nbytes", "itemsize"):
                return NUM
            if name == "dtype":
                return typed("dtype")
        types = None
        if base.types:
            ts = set()
            for t in base.types:
                if isinstance(t, Class):
                    at = self.attr_type(t, name)
                    if at is None and self.is_signal(t) and name == "data":
                        at = frozenset(["ndarray", "dask"])
                    if at is None:
                        ts = None
                        break
                    ts |= at
                else:
                    ts = None
                    break
            types = ts if ts else None
        if name in ALIAS_ATTRS and base.types is None:
            v = base.with_(elts=None, const=NC, fns=frozenset())
        else:
            if name in ("shape", "ndim", "size", "dtype"):
                types = types or {"shape": ["tuple"], "ndim": ["num"], "size": ["num"], "dtype": ["dtype"]}[name]
            v = self.read_field(st, base, name, types)
        if name == "data" and v.types is None:
            v = v.with_(types=["ndarray", "dask"])
        return join(out, v) if out is not None else v

    def class_attr_av(self, cls: Class, name, val) -> AV:
        if isinstance(val, ast.Constant):
            return const_av(val.value)
        if val is None:
            return FRESH
        if isinstance(val, ast.Dict):
            return AV([Tok(("CA", cls.qualname, name))], ["dict"])
        if isinstance(val, ast.List):
            elts = tuple(const_av(x.value) if isinstance(x, ast.Constant) else FRESH for x in val.elts)
            return AV([Tok(("CA", cls.qualname, name))], ["list"], elts=elts)
        if is_mutable_literal(val, self.proj, cls.module):
            return AV([Tok(("CA", cls.qualname, name))])
        return FRESH

    def is_signal(self, c: Class) -> bool:
        for k in self.proj.mro(c):
            if isinstance(k, External) and k.dotted.startswith("hyperspy"):
                return True
        return False

    def set_attr(self, base: AV, name, v: AV, st: State, node, txt):
        plain = AV()
        done = False
        if base.types:
            for t in base.types:
                if isinstance(t, Class):
                    m = self.proj.lookup(t, name, setter=True)
                    if m is not None:
                        done = True
                        self.call_func(m, [base.with_(types=[t]), v], {}, st, node, dyncls=t)
        if done:
            return
        for fr in base.fns:
            if isinstance(fr.ext, Class):
                self.effect([Tok(("CA", fr.ext.qualname, name))], "setattr", node, txt)
            elif isinstance(fr.ext, (Module, External)):
                d = fr.ext.name if isinstance(fr.ext, Module) else fr.ext.dotted
                self.effect([Tok(("G", f"{d}.{name}"))], "setattr", node, txt)
        self.effect(base.toks, "setattr", node, txt, step=name)
        self.write_field(st, base, name, v)

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        idx = self.ev(e.slice, st)
        return self.subscript(base, idx, e, st)

    def subscript(self, base: AV, idx: AV, e, st) -> AV:
        if base.elts is not None and isinstance(idx.const, int) and not isinstance(idx.const, bool):
            if -len(base.elts) <= idx.const < len(base.elts):
                return base.elts[idx.const]
        if base.types:
            hs = [t for t in base.types if isinstance(t, str) and t.startswith("hsslice:")]
            if hs:
                cls = self.proj.classes[hs[0].split(":")[1]]
                m = self.proj.lookup(cls, "_slicer")
                b = base.with_(types=[cls])
                if m is not None:
                    return self.call_func(m, [b], {}, st, e, dyncls=cls)
                return self.hs_view(b, cls, st, e)
        if base.types is not None and base.types and base.types <= H5:
            return AV(types=None)
        arr = base.types is not None and bool(base.types & {"ndarray", "dask"})
        only_arr = base.types is not None and base.types and base.types <= {"ndarray", "dask"}
        # numpy advanced indexing copies
        if arr or base.types is None:
            parts = e.slice.elts if isinstance(getattr(e, "slice", None), ast.Tuple) else [getattr(e, "slice", None)]
            fancy = False
            if idx.types is not None and idx.types and idx.types <= {"ndarray", "list"}:
                fancy = True
            if idx.elts is not None:
                for p in idx.elts:
                    if p.types is not None and p.types and p.types <= {"ndarray", "list"}:
                        fancy = True
            for p in parts:
                if isinstance(p, (ast.Compare, ast.ListComp, ast.List)):
                    fancy = True
                if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Invert):
                    fancy = True
            if only_arr:
                if fancy:
                    return AV(types=base.types)
                return base.with_(const=NC, elts=None)
            if fancy and base.types is None:
                return FRESH
        if base.types is not None and base.types and base.types <= {"str"}:
            return STR
        if isinstance(e.slice, ast.Slice) if hasattr(e, "slice") else False:
            # list/tuple slicing: a new sequence with the same elements
            if base.types is not None and base.types <= {"list", "tuple"}:
                site = self.alloc(e)
                st.heap[Tok(site.root, ("[]",))] = self.elem(base, st)
                return AV([site], base.types)
        v = self.read_field(st, base, self.key_step(idx))
        if base.types is None and base.toks:
            # may be an array view
            v = join(v, AV(base.toks))
        elif arr:
            v = join(v, AV(base.toks, ["ndarray"]))
        if base.elts is not None:
            for x in base.elts:
                v = join(v, x)
        return v

    def elem(self, av: AV, st, iterate=False) -> AV:
        if av.elts is not None and av.elts:
            out = None
            for x in av.elts:
                out = join(out, x)
            return out
        if av.types is not None and av.types and av.types <= {"ndarray", "dask"}:
            return av.with_(const=NC, elts=None)
        if av.types is not None and av.types and av.types <= {"num", "str", "bool", "none"}:
            return typed("num") if av.types <= {"num"} else typed("str")
        v = self.read_field(st, av, "[]")
        if av.types is not None and "ndarray" in av.types:
            v = join(v, AV(av.toks, ["ndarray"]))
        return v

    def e_Tuple(self, e, st):
        elts = []
        flat = True
        for x in e.elts:
            v = self.ev(x, st)
            if isinstance(x, ast.Starred):
                flat = False
                v = self.elem(v, st)
            elts.append(v)
        if not flat:
            site = self.alloc(e)
            c = None
            for v in elts:
                c = join(c, v)
            return self.new_container("tuple", site, c, st.heap)
        const = NC
        if all(v.const is not NC for v in elts):
            const = tuple(v.const for v in elts)
        # elements keep their own tokens; the tuple object itself is immutable
        toks = set()
        return AV(toks, ["tuple"], const=const, elts=tuple(elts))

    def e_List(self, e, st):
        site = self.alloc(e)
        c = None
        elts = []
        flat = True
        for x in e.elts:
            v = self.ev(x, st)
            if isinstance(x, ast.Starred):
                v = self.elem(v, st)
                flat = False
            elts.append(v)
            c = join(c, v)
        st.heap.pop(Tok(site.root, ("[]",)), None)
        av = self.new_container("list", site, c, st.heap)
        return av.with_(elts=tuple(elts)) if flat and elts else av

    def e_Set(self, e, st):
        site = self.alloc(e)
        c = None
        for x in e.elts:
            c = join(c, self.ev(x, st))
        return self.new_container("set", site, c, st.heap)

    def e_Dict(self, e, st):
        site = self.alloc(e)
        for k in [k for k in st.heap if k.root == site.root]:
            del st.heap[k]
        st.heap[Tok(site.root, ("__new__",))] = FRESH
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st)
            if k is None:
                self.add_proto(st, site, vv)
                continue
            kk = self.ev(k, st)
            step = self.key_step(kk)
            key = Tok(site.root, (step,))
            st.heap[key] = vv if step != "[]" else join(st.heap.get(key), vv)
        return AV([site], ["dict"])

    def add_proto(self, st, site: Tok, src: AV):
        key = Tok(site.root, site.path + ("__proto__",))
        old = st.heap.get(key)
        st.heap[key] = join(old, AV(src.toks)) if old is not None else AV(src.toks)

    def shallow_copy(self, av: AV, st, node, types=None) -> AV:
        site = self.alloc(node)
        for k in [k for k in st.heap if k.root == site.root]:
            del st.heap[k]
        self.add_proto(st, site, av)
        c = None
        if av.elts:
            for x in av.elts:
                c = join(c, x)
            st.heap[Tok(site.root, ("[]",))] = c
        return AV([site], types if types is not None else av.types, elts=av.elts)

    def e_comp(self, e, st, elt_nodes):
        w = State(dict(st.vars), st.heap)
        self.partial += 1
        try:
            for g in e.generators:
                it = self.ev(g.iter, w)
                self.assign(g.target, self.elem(it, w, iterate=True), w, e)
                for i in g.ifs:
                    self.ev(i, w)
            out = [self.ev(n, w) for n in elt_nodes]
        finally:
            self.partial -= 1
        st.heap = w.heap
        return out

    def e_ListComp(self, e, st):
        (v,) = self.e_comp(e, st, [e.elt])
        return self.new_container("list", self.alloc(e), v, st.heap)

    def e_SetComp(self, e, st):
        (v,) = self.e_comp(e, st, [e.elt])
        return self.new_container("set", self.alloc(e), v, st.heap)

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        _, v = self.e_comp(e, st, [e.key, e.value])
        return self.new_container("dict", self.alloc(e), v, st.heap)

    def e_Lambda(self, e, st):
        f = self.proj.nested_func(self.frames[-1].func, e)
        return AV(types=["func"], fns=[FuncRef(func=f, env=dict(st.vars), dyncls=self.frames[-1].dyncls)])

    def e_IfExp(self, e, st):
        c = self.test(e.test, st)
        if c is True:
            return self.ev(e.body, self.refine(e.test, True, st))
        if c is False:
            return self.ev(e.orelse, self.refine(e.test, False, st))
        wa = self.refine(e.test, True, st.copy())
        wb = self.refine(e.test, False, st.copy())
        self.partial += 1
        try:
            a = self.ev(e.body, wa)
            b = self.ev(e.orelse, wb)
        finally:
            self.partial -= 1
        st.heap = join_states(State({}, wa.heap), State({}, wb.heap)).heap
        return join(a, b)

    def e_BoolOp(self, e, st):
        out = None
        for i, v in enumerate(e.values):
            self.partial += i > 0
            try:
                x = self.ev(v, st)
            finally:
                self.partial -= i > 0
            last = i == len(e.values) - 1
            if x.const is not NC and not last:
                if isinstance(e.op, ast.Or):
                    if x.const:
                        return join(out, x)
                    continue
                else:
                    if not x.const:
                        return join(out, x)
                    continue
            out = join(out, x)
        return out if out is not None else FRESH

    def e_Compare(self, e, st):
        vals = [self.ev(e.left, st)] + [self.ev(c, st) for c in e.comparators]
        if any(v.types is not None and "ndarray" in v.types for v in vals) and not any(
            isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops
        ):
            return ARR
        r = None
        if len(e.ops) == 1:
            r = self.test(e, st)
        if r is not None:
            return const_av(r)
        return BOOL if all(v.types is not None for v in vals) else AV()

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            r = self.test(e, st)
            return const_av(r) if r is not None else BOOL
        if v.const is not NC and isinstance(v.const, (int, float)):
            try:
                return const_av(-v.const if isinstance(e.op, ast.USub) else +v.const if isinstance(e.op, ast.UAdd) else ~v.const)
            except TypeError:
                pass
        return AV(types=v.types)

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        ta, tb = a.types, b.types
        if isinstance(e.op, ast.Mod) and ta is not None and ta <= {"str"}:
            return STR
        if isinstance(e.op, (ast.Add, ast.Mult)) and (
            (ta is not None and ta and ta <= {"list", "tuple"}) or (tb is not None and tb and tb <= {"list", "tuple"})
        ) and not ((ta and "ndarray" in ta) or (tb and "ndarray" in tb)):
            site = self.alloc(e)
            c = join(self.elem(a, st), self.elem(b, st)) if isinstance(e.op, ast.Add) else join(
                self.elem(a, st) if ta and ta <= {"list", "tuple"} else None,
                self.elem(b, st) if tb and tb <= {"list", "tuple"} else None)
            kind = "list" if (ta and "list" in ta) or (tb and "list" in tb) else "tuple"
            if isinstance(e.op, ast.Add) and a.elts is not None and b.elts is not None:
                return AV([site], [kind], elts=a.elts + b.elts)
            return self.new_container(kind, site, c, st.heap)
        if isinstance(e.op, ast.BitOr) and ta is not None and "dict" in ta:
            site = self.alloc(e)
            self.add_proto(st, site, a)
            self.add_proto(st, site, b)
            return AV([site], ["dict"])
        if isinstance(e.op, ast.Add) and isinstance(a.const, str) and isinstance(b.const, str):
            return const_av(a.const + b.const)
        if a.const is not NC and b.const is not NC and isinstance(a.const, (int, float)) and isinstance(b.const, (int, float)):
            return NUM
        if (ta and "dask" in ta) or (tb and "dask" in tb):
            return AV(types=["dask"] if not ((ta and "ndarray" in ta and "dask" in ta) or (tb and "ndarray" in tb and "dask" in tb)) else ["dask", "ndarray"])
        if (ta and "ndarray" in ta) or (tb and "ndarray" in tb):
            sure = ta is not None and tb is not None and (ta <= {"ndarray"} or tb <= {"ndarray"})
            return ARRNUM if not sure and (ta and "num" in ta or tb and "num" in tb) else ARR
        if ta is not None and tb is not None and ta <= {"num", "bool"} and tb <= {"num", "bool"}:
            return NUM
        if ta is not None and ta <= {"str"}:
            return STR
        return FRESH

    # ---------------------------------------------------------- calls
    def e_Call(self, e, st):
        # super()
        if (
            isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call)
            and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"
        ):
            return self.super_call(e, st)
        args, kwargs, stars, dstars = self.ev_args(e, st)
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, st)
            if e.func.attr == "__class__":
                return self.call_value(self.get_attr(base, "__class__", st, e), args, kwargs, stars, dstars, e, st)
            return self.method_call(base, e.func.attr, args, kwargs, stars, dstars, e, st)
        fv = self.ev(e.func, st)
        return self.call_value(fv, args, kwargs, stars, dstars, e, st)

    def ev_args(self, e, st):
        args, kwargs, stars, dstars = [], {}, [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.elts is not None:
                    args.extend(v.elts)
                else:
                    stars.append(v)
            else:
                if stars:
                    stars.append(AV(elts=(self.ev(a, st),)))
                else:
                    args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                dstars.append(v)
            else:
                kwargs[k.arg] = v
        return args, kwargs, stars, dstars

    def call_value(self, fv: AV, args, kwargs, stars, dstars, e, st) -> AV:
        out = None
        many = len(fv.fns) > 1
        self.partial += many
        try:
            for fr in fv.fns:
                out = join(out, self.call_ref(fr, args, kwargs, stars, dstars, e, st))
        finally:
            self.partial -= many
        if not fv.fns:
            self.note_unresolved(e)
            # calling an unknown callable: hand-over of callbacks is still modelled
            self.callbacks(args, kwargs, st, e)
            return FRESH
        return out

    def note_unresolved(self, e):
        k = ast.unparse(e.func) if isinstance(e, ast.Call) else "?"
        self.unresolved[k] = self.unresolved.get(k, 0) + 1

    def call_ref(self, fr: FuncRef, args, kwargs, stars, dstars, e, st) -> AV:
        args = list(fr.pargs) + list(args)
        if fr.pkw:
            kwargs = {**fr.pkw, **kwargs}
        if fr.func is not None:
            a = ([fr.bound] if fr.bound is not None else []) + args
            return self.call_func(fr.func, a, kwargs, st, e, stars, dstars, fr.dyncls, fr.env)
        ent = fr.ext
        if isinstance(ent, Class):
            return self.construct(ent, args, kwargs, stars, dstars, e, st)
        if isinstance(ent, External):
            return self.external_call(ent.dotted, args, kwargs, stars, dstars, e, st)
        return FRESH

    def super_call(self, e, st):
        frm = self.frames[-1]
        args, kwargs, stars, dstars = self.ev_args(e, st)
        f = frm.func
        while f.parent is not None:
            f = f.parent
        sname = f.self_name
        selfav = st.vars.get(sname) if sname else None
        if selfav is None or f.cls is None:
            return FRESH
        name = e.func.attr
        dyn = frm.dyncls or f.cls
        m = self.proj.lookup_after(dyn, f.cls, name)
        if m is not None:
            if m.kind == "property":
                return FRESH
            return self.call_func(m, [selfav] + args, kwargs, st, e, stars, dstars, dyn)
        if name == "__init__":
            data = args[0] if args else kwargs.get("data")
            if data is not None:
                self.write_field(st, selfav, "data", data)
            for k, v in kwargs.items():
                if k != "data":
                    pass
            for d in dstars:
                if data is None:
                    self.write_field(st, selfav, "data", self.read_field(st, d, "['data']"))
            return NONE
        return self.ext_method(selfav, dyn, name, args, kwargs, stars, dstars, e, st)

    def construct(self, cls: Class, args, kwargs, stars, dstars, e, st) -> AV:
        site = self.alloc(e)
        for k in [k for k in st.heap if k.root == site.root]:
            del st.heap[k]
        av = AV([site], [cls])
        init = self.proj.lookup(cls, "__init__")
        if init is not None:
            self.call_func(init, [av] + list(args), kwargs, st, e, stars, dstars, cls)
        elif any(cls2.attr_ann for cls2 in self.proj.mro(cls) if isinstance(cls2, Class)):
            for k, v in kwargs.items():
                self.write_field(st, av, k, v)
        return av

    def method_call(self, base: AV, name, args, kwargs, stars, dstars, e, st) -> AV:
        out = None
        res = False
        # functions reached through namespaces / classes / bound methods
        if base.fns:
            nsv = self.get_attr(base.with_(toks=frozenset(), types=None), name, st, e)
            if nsv.fns:
                out = join(out, self.call_value(nsv, args, kwargs, stars, dstars, e, st))
                res = True
            elif not base.toks:
                for fr in base.fns:
                    if fr.ext is not None and isinstance(fr.ext, Class):
                        # classmethod from an external base etc.
                        return AV(types=[fr.ext])
                return FRESH
        if base.types:
            for t in base.types:
                if isinstance(t, Class):
                    b = base.with_(types=[t], fns=frozenset())
                    m = self.proj.lookup(t, name)
                    one = len(base.types) == 1
                    if m is not None and m.kind != "property":
                        pre = [] if m.kind == "static" else [b]
                        self.partial += not one
                        try:
                            out = join(out, self.call_func(m, pre + list(args), kwargs, st, e, stars, dstars, t))
                        finally:
                            self.partial -= not one
                        res = True
                    elif m is not None:
                        v = self.get_attr(b, name, st, e)
                        out = join(out, self.call_value(v, args, kwargs, stars, dstars, e, st))
                        res = True
                    else:
                        fv = self.read_field(st, b, name)
                        if fv.fns:
                            out = join(out, self.call_value(fv, args, kwargs, stars, dstars, e, st))
                        else:
                            out = join(out, self.ext_method(b, t, name, args, kwargs, stars, dstars, e, st))
                        res = True
            rest = frozenset(t for t in base.types if not isinstance(t, Class))
            if not rest - {"none"} and res:
                return out
            base = base.with_(types=rest)
        elif res and not base.toks:
            return out
        # a callable stored in a field
        fv = self.read_field(st, base, name) if base.toks else FRESH
        if fv.fns:
            return join(out, self.call_value(fv, args, kwargs, stars, dstars, e, st))
        return join(out, self.builtin_method(base, name, args, kwargs, stars, dstars, e, st))

    # --------------------------------------------- external receivers
    def hs_view(self, b: AV, cls, st, e):
        site = self.alloc(e)
        for k in [k for k in st.heap if k.root == site.root]:
            del st.heap[k]
        d = self.get_attr(b, "data", st, e)
        st.heap[Tok(site.root, ("data",))] = d
        return AV([site], [cls])

    def ext_method(self, b: AV, cls: Class, name, args, kwargs, stars, dstars, e, st) -> AV:
        """A method of an in-project class inherited from a library class."""
        txt = f"{ast.unparse(e.func)}()" if isinstance(e, ast.Call) else name
        if name in ("__setattr__", "__delattr__"):
            nm = args[0].const if args and isinstance(args[0].const, str) else "?"
            self.effect(b.toks, "setattr", e, txt, step=nm)
            self.write_field(st, b, nm, args[1] if len(args) > 1 else FRESH)
            return NONE
        if name == "__getattribute__":
            if args and isinstance(args[0].const, str):
                return self.get_attr(b, args[0].const, st, e)
            return FRESH
        if not self.is_signal(cls):
            return self.builtin_method(b.with_(types=None), name, args, kwargs, stars, dstars, e, st)
        if name == "map":
            return self.hs_map(b, cls, args, kwargs, dstars, e, st, txt)
        if name in HS_INPLACE:
            self.effect(b.toks, "call", e, txt, step="data")
            self.write_field(st, b, "data", typed("ndarray", "dask"))
            return NONE
        if name in HS_VIEWS:
            return self.hs_view(b, cls, st, e)
        if name == "_deepcopy_with_new_data":
            site = self.alloc(e)
            data = args[0] if args else kwargs.get("data", FRESH)
            st.heap[Tok(site.root, ("data",))] = data
            return AV([site], [cls])
        if name in ("deepcopy", "rebin", "mean", "sum", "max", "min", "nansum", "nanmean", "std", "var",
                    "get_decomposition_model", "_get_current_data", "copy", "diff", "integrate_simpson"):
            site = self.alloc(e)
            for k in [k for k in st.heap if k.root == site.root]:
                del st.heap[k]
            return AV([site], [cls])
        self.callbacks(args, kwargs, st, e)
        return FRESH

    def hs_map(self, b, cls, args, kwargs, dstars, e, st, txt):
        kw = dict(kwargs)
        fn = args[0] if args else kw.pop("function", FRESH)
        inplace = kw.pop("inplace", const_av(True))
        for k in ("show_progressbar", "output_dtype", "output_signal_size", "lazy_output",
                  "num_workers", "navigation_chunks", "silence_warnings", "ragged"):
            kw.pop(k, None)
        data = self.get_attr(b, "data", st, e)
        blockav = AV(data.toks, ["ndarray"])
        self.call_mapped(fn, [blockav], kw, dstars, e, st)
        if inplace.const is not False:
            self.effect(b.toks, "call", e, txt + " in place", step="data")
            if inplace.const is True:
                return NONE
        site = self.alloc(e)
        for k in [k for k in st.heap if k.root == site.root]:
            del st.heap[k]
        return AV([site], [cls])

    def call_mapped(self, fn: AV, args, kwargs, dstars, e, st):
        scal = {"num", "bool", "str", "none", "func", "type"}

        def shared(key, v):
            """Values without identity so far are one object for all calls."""
            if not isinstance(v, AV) or v.toks or v.fns and v.types is None:
                return v
            if v.types is not None and v.types <= scal or v.const is not NC:
                return v
            if v.elts is not None:
                v = v.with_(elts=tuple(shared(f"{key}.{i}", x) for i, x in enumerate(v.elts)))
                if v.types is not None and v.types <= {"tuple"}:
                    return v
            return v.with_(toks=[Tok(("A", ("shared", id(e), key)))])

        args = [shared(i, a) for i, a in enumerate(args)]
        kwargs = {k: shared(k, v) for k, v in kwargs.items()}
        fn = fn.with_(fns=[
            FuncRef(fr.func, fr.bound and shared("self", fr.bound),
                    fr.env and {k: shared(k, v) for k, v in fr.env.items()},
                    [shared(f"p{i}", v) for i, v in enumerate(fr.pargs)],
                    {k: shared(k, v) for k, v in fr.pkw.items()}, fr.ext, fr.dyncls)
            for fr in fn.fns
        ])
        self.in_mapped += 1
        try:
            for fr in fn.fns:
                if fr.func is not None:
                    self.mapped.append((fr, e, self.frames[-1].func))
                self.call_ref(fr, args, kwargs, [], dstars, e, st)
        finally:
            self.in_mapped -= 1

    def callbacks(self, args, kwargs, st, e):
        """Function values handed to code outside kikuchipy: assume called."""
        for v in list(args) + list(kwargs.values()):
            for fr in v.fns:
                if fr.func is not None and fr.func not in [f for f, _ in self.stack]:
                    kw = {k: x for k, x in kwargs.items() if k in fr.func.param_names}
                    self.call_ref(fr, [], kw, [], [], e, st)

    def builtin_method(self, base: AV, name, args, kwargs, stars, dstars, e, st) -> AV:
        t = base.types
        txt = f"{ast.unparse(e.func)}()" if isinstance(e, ast.Call) else name
        unk = t is None
        has = lambda *x: t is not None and bool(t & set(x))
        if name in ("map_blocks", "map_overlap"):
            return self.ext_map_blocks([base] + list(args), kwargs, dstars, e, st, method=True)
        if name == "deepcopy":
            return AV(types=t)
        if isinstance(base.const, str) and name in STR_PURE and not kwargs and not stars and not dstars \
                and all(isinstance(a.const, (str, int)) for a in args):
            try:
                return const_av(getattr(base.const, name)(*[a.const for a in args]))
            except (TypeError, ValueError):
                return STR
        if name in ("__setattr__",):
            nm = args[0].const if args and isinstance(args[0].const, str) else "?"
            self.effect(base.toks, "setattr", e, txt, step=nm)
            self.write_field(st, base, nm, args[1] if len(args) > 1 else FRESH)
            return NONE
        if name == "store" and args:
            # dask.array.Array.store(target)
            self.effect(args[0].toks, "call", e, txt)
            return FRESH
        out_kw = kwargs.get("out")
        if out_kw is not None:
            self.mutate(out_kw, "out=", e, txt + " out=")
        if name == "sort" and has("ndarray"):
            self.effect(base.toks, "method", e, txt)
            return NONE
        muts = set()
        if has("list"):
            muts |= LIST_MUT
        if has("dict"):
            muts |= DICT_MUT
        if has("set"):
            muts |= SET_MUT
        if has("ndarray"):
            muts |= ARR_MUT
        if unk or has("seq"):
            muts |= UNKNOWN_MUT
            if name in ("update", "pop", "clear") and base.toks and all(
                len(x.path) == 0 or x.root[0] in ("K",) for x in base.toks
            ):
                muts |= {"update", "pop", "clear"} if unk else set()
        if name in muts:
            self.effect(base.toks, "method", e, txt)
        if name == "byteswap" and has("ndarray"):
            if kwargs.get("inplace", args[0] if args else FRESH).const is True:
                self.effect(base.toks, "method", e, txt)
        if t is not None and any(isinstance(x, str) and x.startswith("ext:") for x in t) and name.startswith("set_"):
            self.effect(base.toks, "method", e, txt)
        # content flow
        if name in ("append", "add", "insert", "extend"):
            v = args[-1] if args else FRESH
            if name == "extend":
                v = self.elem(v, st)
            self.write_field(st, base, "[]", v, weak=True)
            return NONE
        if name == "update" and (unk or has("dict", "set")):
            for a in args:
                if not self.closed_dict(st, a):
                    for k in list(base.toks):
                        self.add_proto(st, k, a) if k.root[0] == "A" else None
                for tk in a.toks:
                    for kk, v in list(st.heap.items()):
                        if kk.root == tk.root and len(kk.path) == len(tk.path) + 1 and kk.path[-1].startswith("["):
                            self.write_field(st, base, kk.path[-1], v, weak=False)
            for k, v in kwargs.items():
                self.write_field(st, base, f"[{k!r}]", v)
            return NONE
        if name in ("get", "pop", "setdefault") and (unk or has("dict", "list")) and not (t and t <= {"ndarray", "dask"}):
            idx = args[0] if args else FRESH
            v = self.read_field(st, base, self.key_step(idx))
            if name in ("get", "pop") and idx.const is not NC and self.dict_has(st, base, self.key_step(idx)):
                if name == "pop" and len(base.toks) == 1:
                    (tk,) = base.toks
                    st.heap.pop(Tok(tk.root, tk.path + (self.key_step(idx),)), None)
                return v
            if name in ("get", "pop") and idx.const is not NC:
                v = v.with_(toks=v.toks - {ABSENT})
                if self.closed_dict(st, base) and not any(
                    Tok(k.root, k.path + (self.key_step(idx),)) in st.heap for k in base.toks
                ):
                    return args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if len(args) > 1 or "default" in kwargs:
                v = join(v, args[1] if len(args) > 1 else kwargs["default"])
            elif name == "get":
                v = join(v, NONE) if v.types is not None else v
            if name == "setdefault" and len(args) > 1:
                self.write_field(st, base, self.key_step(idx), args[1], weak=True)
            return v
        if name in ("values",):
            return self.new_container("list", self.alloc(e), self.elem(base, st), st.heap)
        if name == "items":
            known = self.known_items(base, st)
            if known is not None:
                elts = tuple(AV(types=["tuple"], elts=(const_av(k), v)) for k, v in known)
                c = None
                for x in elts:
                    c = join(c, x)
                out_ = self.new_container("list", self.alloc(e), c, st.heap)
                return out_.with_(elts=elts)
            el = AV(types=["tuple"], elts=(STR, self.read_field(st, base, "[]")))
            site = self.alloc(e)
            st.heap[Tok(site.root, ("[]",))] = el
            return AV([site], ["list"])
        if name == "keys":
            return typed("list")
        if name == "copy":
            if has("dict", "list", "set") and not has("ndarray"):
                return self.shallow_copy(base, st, e)
            if has("dict", "list", "set"):
                sc = self.shallow_copy(base, st, e)
                return sc
            return AV(types=t)
        if name == "astype":
            c = kwargs.get("copy")
            if c is not None and c.const is not True and c.const is not NC or (c is not None and c.const is NC):
                return base.with_(const=NC, elts=None)
            return AV(types=t if t else ["ndarray"])
        if name == "view":
            return AV([t_ if t_.path and t_.path[-1] == "~view" else Tok(t_.root, t_.path + ("~view",)) for t_ in base.toks], ["ndarray"])
        if name in ALIAS_METHODS:
            return base.with_(const=NC, elts=None, types=t)
        if name in ("compute", "persist"):
            return AV(base.toks if False else frozenset(), ["ndarray"])
        if name in ("tolist",):
            return typed("list")
        if name in ("split", "join", "format", "lower", "upper", "strip", "replace", "startswith",
                    "endswith", "rsplit", "encode", "decode"):
            return typed("list") if "split" in name else STR
        if name in ("min", "max", "sum", "mean", "std", "var", "any", "all", "prod", "argmax", "argmin",
                    "flatten", "repeat", "clip", "round", "dot", "cumsum", "nonzero", "argsort", "take",
                    "conj", "conjugate", "tobytes", "searchsorted") and (has("ndarray", "dask") or unk):
            return AV(types=["ndarray"]) if has("ndarray") else FRESH
        if name in ("rechunk",) and has("dask"):
            return base
        self.callbacks(args, kwargs, st, e)
        if unk:
            self.note_unresolved(e)
        return FRESH

    def known_items(self, base, st):
        """(key, value) pairs of a dictionary built here with constant keys."""
        if len(base.toks) != 1:
            return None
        (t,) = base.toks
        if t.root[0] != "A":
            return None
        n = len(t.path)
        out = []
        for k, v in st.heap.items():
            if k.root == t.root and len(k.path) == n + 1 and k.path[:n] == t.path:
                step = k.path[-1]
                if step in ("__proto__", "[]"):
                    return None
                if step.startswith("["):
                    out.append((ast.literal_eval(step[1:-1]), v))
        return out if 0 < len(out) <= 6 else None

    def ext_map_blocks(self, args, kwargs, dstars, e, st, method=False):
        kw = dict(kwargs)
        if method:
            arrs = args[:1]
            rest = args[1:]
            fn = kw.pop("func", None)
            if fn is None and rest:
                fn, rest = rest[0], rest[1:]
            arrs = arrs + list(rest)
        else:
            fn = kw.pop("func", None)
            arrs = list(args)
            if fn is None and arrs:
                fn, arrs = arrs[0], arrs[1:]
        for k in ("dtype", "chunks", "drop_axis", "new_axis", "meta", "name", "token", "depth",
                  "boundary", "trim", "align_arrays", "allow_rechunk", "enforce_ndim", "concatenate",
                  "output_dtypes", "axes", "keepdims", "output_sizes", "vectorize", "signature", "axis"):
            if fn is not None and any(f.func is not None and k in f.func.param_names for f in fn.fns):
                continue
            kw.pop(k, None)
        blocks = [AV(a.toks, ["ndarray"]) if a.types is not None and "dask" in a.types or a.toks and a.types is None
                  else a for a in arrs]
        if fn is not None:
            self.call_mapped(fn, blocks, kw, dstars, e, st)
        return DASK

    def external_call(self, d: str, args, kwargs, stars, dstars, e, st) -> AV:
        txt = f"{d}()"
        short = d.split(".")[-1]
        for k in ("out", "output"):
            out_kw = kwargs.get(k)
            if out_kw is not None:
                self.mutate(out_kw, f"{k}=", e, f"{d}({k}=)")
        if d in UFUNC2 and len(args) >= 3:
            self.mutate(args[2], "out=", e, f"{d}(out=)")
        if d in UFUNC1 and len(args) >= 2 and short != "nan_to_num":
            self.mutate(args[1], "out=", e, f"{d}(out=)")
        if d in ARG0_MUTATORS and args:
            self.mutate(args[0], "call", e, txt)
            return FRESH
        if d == "copy.deepcopy":
            a = args[0] if args else FRESH
            if a.types and any(isinstance(t, Class) for t in a.types):
                outv = None
                for t in a.types:
                    if isinstance(t, Class):
                        m = self.proj.lookup(t, "__deepcopy__")
                        if m is not None:
                            outv = join(outv, self.call_func(m, [a.with_(types=[t])], {}, st, e, dyncls=t))
                        else:
                            outv = join(outv, AV([self.alloc(e)], [t]))
                return outv
            if a.elts is not None or (a.types is not None and a.types & {"dict", "list"}):
                return AV([self.alloc(e)], a.types, elts=tuple(AV(types=x.types, const=x.const) for x in a.elts) if a.elts else None)
            return AV(types=a.types, const=a.const)
        if d == "copy.copy":
            a = args[0] if args else FRESH
            if a.types is not None and a.types and a.types <= {"ndarray"}:
                return ARR
            return self.shallow_copy(a, st, e)
        if d in ("dict", "list", "tuple", "set", "frozenset", "collections.OrderedDict"):
            kind = "dict" if "ict" in d else d
            if args and kind != "dict":
                a = args[0]
                site = self.alloc(e)
                st.heap[Tok(site.root, ("[]",))] = self.elem(a, st, iterate=True)
                return AV([site], [kind], elts=a.elts)
            site = self.alloc(e)
            for k in [k for k in st.heap if k.root == site.root]:
                del st.heap[k]
            for a in args + dstars:
                self.add_proto(st, site, a)
            for k, v in kwargs.items():
                st.heap[Tok(site.root, (f"[{k!r}]",))] = v
            st.heap[Tok(site.root, ("__new__",))] = FRESH
            return AV([site], [kind])
        if d == "vars" and args:
            return self.read_field(st, args[0], "__dict__", ["dict"])
        if d == "getattr" and len(args) >= 2:
            if isinstance(args[1].const, str):
                v = self.get_attr(args[0], args[1].const, st, e)
                if len(args) > 2:
                    v = join(v, args[2])
                return v
            return FRESH
        if d in ("setattr", "object.__setattr__") and len(args) >= 2:
            nm = args[1].const if isinstance(args[1].const, str) else "?"
            if nm != "?":
                self.set_attr(args[0], nm, args[2] if len(args) > 2 else FRESH, st, e, f"setattr({nm!r})")
            else:
                self.effect(args[0].toks, "setattr", e, "setattr(<computed name>)", step="?")
            return NONE
        if d == "delattr" and args:
            self.effect(args[0].toks, "delattr", e, txt, step="?")
            return NONE
        if d == "type" and len(args) == 1:
            fns = [FuncRef(ext=t) for t in (args[0].types or []) if isinstance(t, Class)]
            return AV(types=["type"], fns=fns)
        if d in ("zip", "enumerate", "itertools.product", "itertools.zip_longest"):
            site = self.alloc(e)
            elts = [self.elem(a, st, iterate=True) for a in args]
            for s_ in stars:
                elts = None
                break
            if d == "enumerate":
                elts = [NUM] + (elts[:1] if elts else [])
            if elts is None:
                c = self.elem(self.elem(stars[0], st), st)
                inner = self.new_container("tuple", self.alloc(e.args[0]), c, st.heap)
                st.heap[Tok(site.root, ("[]",))] = inner
            else:
                st.heap[Tok(site.root, ("[]",))] = AV(types=["tuple"], elts=tuple(elts))
            return AV([site], ["list"])
        if d in ("map", "filter") and args:
            fn = args[0]
            el = [self.elem(a, st, iterate=True) for a in args[1:]]
            r = self.call_value(fn, el, {}, [], [], e, st) if fn.fns else FRESH
            if d == "filter":
                r = el[0] if el else FRESH
            return self.new_container("list", self.alloc(e), r, st.heap)
        if d in ELEM_FUNCS:
            c = None
            for a in args:
                c = join(c, self.elem(a, st, iterate=True))
            if short in ("next", "max", "min"):
                if short in ("max", "min") and len(args) > 1:
                    c = None
                    for a in args:
                        c = join(c, a)
                return (c or FRESH).with_(const=NC, elts=None)
            if c is None:
                return typed("list")
            return self.new_container("list", self.alloc(e), c, st.heap)
        if d in ("len", "int", "float", "abs", "round", "sum", "id", "hash", "complex", "ord"):
            return NUM if d != "sum" and d != "abs" or not (args and args[0].types and "ndarray" in args[0].types) else ARR
        if d in ("isinstance", "issubclass", "hasattr", "bool", "any", "all", "callable"):
            r = self.test(e, st) if d in ("isinstance",) else None
            return const_av(r) if r is not None else BOOL
        if d in ("str", "repr", "format", "chr"):
            return STR
        if d == "range":
            return AV(types=["seqnum"])
        if d == "functools.partial" and args:
            fns = []
            for fr in args[0].fns:
                n = FuncRef(fr.func, fr.bound, fr.env, tuple(fr.pargs) + tuple(args[1:]), {**fr.pkw, **kwargs}, fr.ext, fr.dyncls)
                fns.append(n)
            return AV(types=["func"], fns=fns)
        if d in ("dask.delayed", "dask.delayed.delayed") and args:
            fns = []
            for fr in args[0].fns:
                fns.append(FuncRef(fr.func, fr.bound, fr.env, fr.pargs, fr.pkw, fr.ext, fr.dyncls))
                if fr.func is not None:
                    self.mapped.append((fr, e, self.frames[-1].func))
            if fns:
                return AV(types=["delayed"], fns=fns)
            return args[0]
        if d in ("dask.array.map_blocks", "dask.array.map_overlap", "dask.array.apply_gufunc",
                 "dask.array.blockwise", "dask.array.apply_along_axis", "dask.array.overlap.map_overlap"):
            if short == "apply_gufunc" and "signature" not in kwargs and len(args) > 1:
                args = args[:1] + args[2:]
            return self.ext_map_blocks(args, kwargs, dstars, e, st)
        if d in ("dask.array.from_array", "dask.array.asarray", "dask.array.asanyarray"):
            a = args[0] if args else kwargs.get("x", FRESH)
            return AV(a.toks, ["dask"])
        if d.startswith("dask.array."):
            a = args[0] if args else FRESH
            if short in ("rechunk", "reshape", "transpose", "squeeze", "ravel", "overlap", "trim_internal", "expand_dims"):
                return AV(a.toks, ["dask"])
            if short == "store" and len(args) >= 2:
                self.effect(args[1].toks, "call", e, txt)
            self.callbacks(args, kwargs, st, e)
            return DASK
        if d in ("dask.compute",):
            return typed("tuple")
        if d in ALIAS_FUNCS:
            a = args[0] if args else FRESH
            if a.types is not None and a.types and not (a.types & {"ndarray", "dask"}) and a.types <= {"list", "tuple", "num", "seq", "bool", "none", "str", "seqnum"}:
                return ARR
            if kwargs.get("copy", FRESH).const is True:
                return ARR
            if len(args) > 1 and short in ("atleast_1d", "atleast_2d", "broadcast_arrays"):
                return self.new_container("list", self.alloc(e), AV(frozenset().union(*[x.toks for x in args]), ["ndarray"]), st.heap)
            keep = a.toks if a.types is None or a.types & {"ndarray"} else frozenset()
            if a.types is not None and "dask" in a.types:
                keep = a.toks
            return AV(keep, ["ndarray"])
        if d in ("numpy.array", "numpy.nan_to_num"):
            c = kwargs.get("copy")
            a = args[0] if args else FRESH
            if c is not None and c.const is not True and (a.types is None or a.types & {"ndarray"}):
                return AV(a.toks, ["ndarray"])
            return ARR
        if d in ("numpy.errstate", "numpy.random.default_rng", "numpy.dtype", "numpy.iinfo", "numpy.finfo"):
            self.callbacks(args, kwargs, st, e)
            return typed("dtype") if short == "dtype" else FRESH
        if d.startswith("numpy."):
            self.callbacks(args, kwargs, st, e)
            if short in ("float32", "float64", "int64", "int32", "prod", "isscalar", "ndim", "size", "pi"):
                return NUM
            if short in ("allclose", "array_equal", "issubdtype"):
                return BOOL
            if short in ("unravel_index", "where", "nonzero", "meshgrid", "unique"):
                return FRESH if short != "where" or len(args) < 2 else ARR
            if (d in UFUNC1 or d in UFUNC2) and not any(a.types and a.types <= {"ndarray"} for a in args) or (
                    short in REDUCTIONS and "axis" not in kwargs and len(args) < 2):
                return ARRNUM
            return ARR
        self.callbacks(args, kwargs, st, e)
        if short[:1].isupper() or d in ("nlopt.opt",):
            # a library object: remember which arguments it holds
            site = self.alloc(e)
            for k in [k for k in st.heap if k.root == site.root]:
                del st.heap[k]
            for k, v in kwargs.items():
                st.heap[Tok(site.root, (k,))] = v
            return AV([site], ["ext:" + short])
        return FRESH

    # ------------------------------------------------ in-project calls
    def call_func(self, f: Func, args, kwargs, st: State, node, stars=(), dstars=(), dyncls=None, env=None) -> AV:
        if self.on_call is not None:
            self.on_call(self, f, args, kwargs, stars, dstars, node, st)
        if len(self.stack) >= MAXDEPTH or sum(1 for g, _ in self.stack if g is f) >= 2:
            return FRESH
        if f.is_abstract:
            # dispatch to all implementations if the receiver is abstract
            impls = []
            if f.cls is not None:
                for c in self.proj.subclasses(f.cls):
                    m = c.methods.get(f.name)
                    if m is not None and not m.is_abstract:
                        impls.append((c, m))
            out = None
            self.partial += 1
            for c, m in impls:
                a = [args[0].with_(types=[c])] + list(args[1:]) if args else args
                out = join(out, self.call_func(m, a, kwargs, st, node, stars, dstars, c))
            self.partial -= 1
            return out if out is not None else FRESH
        vars = self.bind(f, args, kwargs, st, node, stars, dstars)
        if env is not None:
            base = dict(env)
            base.update(vars)
            vars = base
        # memo: calls that cannot reach a foreign object have no visible effect
        inner = State(vars, st.heap)
        self.stack.append((f, getattr(node, "lineno", 0)))
        saved, self.partial = self.partial, 0
        try:
            ret, heap = self.exec_func(f, State(vars, dict(st.heap)), dyncls or f.cls)
        finally:
            self.stack.pop()
            self.partial = saved
        if heap is not None:
            st.heap = heap
        elif self.follow_noreturn and not self.partial:
            raise Diverged
        if "cache" in " ".join(f.decorators) and f.kind != "property":
            ret = AV(ret.toks | {Tok(("CACHE", f.short))}, ret.types, fns=ret.fns)
        return ret

    def bind(self, f: Func, args, kwargs, st: State, node, stars, dstars) -> dict:
        vars: dict[str, AV] = {}
        pos = [p for p in f.params if p.kind == "pos"]
        kwonly = [p for p in f.params if p.kind == "kwonly"]
        va = next((p for p in f.params if p.kind == "vararg"), None)
        ka = next((p for p in f.params if p.kind == "kwarg"), None)
        args = list(args)
        for p, a in zip(pos, args):
            vars[p.name] = a
        extra = args[len(pos):]
        starel = None
        for s_ in stars:
            starel = join(starel, self.elem(s_, st))
        kw = dict(kwargs)
        for p in pos[len(args):] + kwonly:
            if p.name in kw:
                vars[p.name] = kw.pop(p.name)
                continue
            v = None
            for ds in dstars:
                step = f"[{p.name!r}]"
                got = self.dict_get(st, ds, step)
                if got is not None:
                    v = join(v, got)
            if starel is not None and p.kind == "pos":
                v = join(v, starel)
            definite = any(self.dict_has(st, ds, f"[{p.name!r}]") for ds in dstars)
            if p.default is not None and not definite:
                dv = self.default_av(f, p)
                v = join(v, dv) if v is not None else dv
            if v is None:
                v = FRESH
            vars[p.name] = v
        for p in pos[: len(args)]:
            kw.pop(p.name, None)
        if va is not None:
            site = Tok(("A", (tuple(l for _, l in self.stack[-3:]), f.qualname, "va", id(node))))
            if self.in_mapped:
                self.mapped_allocs.add(site.root)
            c = starel
            for x in extra:
                c = join(c, x)
            v = self.new_container("tuple", site, c, st.heap)
            vars[va.name] = v.with_(elts=tuple(extra)) if not stars else v
        if ka is not None:
            site = Tok(("A", (tuple(l for _, l in self.stack[-3:]), f.qualname, "kw", id(node))))
            if self.in_mapped:
                self.mapped_allocs.add(site.root)
            for k in [k for k in st.heap if k.root == site.root]:
                del st.heap[k]
            st.heap[Tok(site.root, ("__new__",))] = FRESH
            for k, v in kw.items():
                st.heap[Tok(site.root, (f"[{k!r}]",))] = v
            for ds in dstars:
                self.add_proto(st, site, ds)
            vars[ka.name] = AV([site], ["dict"])
        # declared types help when the argument's own type is unknown
        for p in f.params:
            v = vars.get(p.name)
            if v is not None and v.types is None and p.annotation is not None and p.kind in ("pos", "kwonly"):
                t = self.ann_types(f.module, p.annotation)
                if t is not None:
                    vars[p.name] = v.with_(types=t | ({"none"} if isinstance(p.default, ast.Constant) and p.default.value is None else set()))
        return vars

    def dict_has(self, st, d: AV, step, depth=0) -> bool:
        """Whether every dictionary `d` may be certainly has the key."""
        return bool(d.toks) and all(self._has(st, t, step, depth) for t in d.toks)

    def _has(self, st, t, step, depth) -> bool:
        if t.root[0] != "A":
            return False
        v = st.heap.get(Tok(t.root, t.path + (step,)))
        if v is not None:
            return ABSENT not in v.toks
        pr = st.heap.get(Tok(t.root, t.path + ("__proto__",)))
        return pr is not None and depth < 4 and any(self._has(st, q, step, depth + 1) for q in pr.toks)

    def closed_dict(self, st, d: AV) -> bool:
        """All keys are known: made here from constant keys only."""
        return bool(d.toks) and all(
            t.root[0] == "A"
            and Tok(t.root, t.path + ("__new__",)) in st.heap
            and Tok(t.root, t.path + ("[]",)) not in st.heap
            and Tok(t.root, t.path + ("__proto__",)) not in st.heap
            for t in d.toks
        )

    def dict_get(self, st, d: AV, step, depth=0):
        out = None
        for t in d.toks:
            h = st.heap.get(Tok(t.root, t.path + (step,)))
            if h is not None:
                out = join(out, h)
                continue
            if t.root[0] == "A":
                g = st.heap.get(Tok(t.root, t.path + ("[]",)))
                if g is not None:
                    out = join(out, g)
                pr = st.heap.get(Tok(t.root, t.path + ("__proto__",)))
                if pr is not None and depth < 4:
                    g = self.dict_get(st, pr, step, depth + 1)
                    if g is not None:
                        out = join(out, g)
            else:
                out = join(out, AV([t.ext(step)]))
        return out

    def default_av(self, f: Func, p) -> AV:
        dflt = p.default
        if isinstance(dflt, ast.Constant):
            return const_av(dflt.value)
        if isinstance(dflt, ast.UnaryOp) and isinstance(dflt.operand, ast.Constant):
            return NUM
        if is_mutable_literal(dflt, self.proj, f.module):
            t = "dict" if isinstance(dflt, ast.Dict) else "list" if isinstance(dflt, ast.List) else None
            return AV([Tok(("D", f.short, p.name))], [t] if t else None)
        if isinstance(dflt, ast.Tuple):
            elts = tuple(const_av(x.value) if isinstance(x, ast.Constant) else FRESH for x in dflt.elts)
            return AV(types=["tuple"], elts=elts)
        d = dotted_of(dflt)
        if d:
            h, _, rest = d.partition(".")
            ent = self.proj.resolve_in_module(f.module, h)
            for x in rest.split(".") if rest else []:
                ent = self.proj.member(ent, x) if ent is not None else None
            if ent is not None:
                return self.entity_av(ent)
        return FRESH
