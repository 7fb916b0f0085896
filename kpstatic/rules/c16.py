"""C16: every option reaches the parameter it names and none is ignored."""

from __future__ import annotations

import ast

from ..effects import AV, Interp, Tok
from ..entries import api_functions, concrete_receivers
from ..project import Class
from ..report import Ctx, Result
from ..selftest import project_from


def origin(av):
    """The parameter of the root function this value is, unchanged."""
    if not isinstance(av, AV) or len(av.toks) != 1:
        return None
    (t,) = av.toks
    return t.root[1] if t.root[0] == "P" and not t.path else None


class Flow(Interp):
    def __init__(self, proj, root):
        super().__init__(proj)
        self.root = root
        self.names = {p.name for p in root.params} - {"self", "cls"}
        self.bound: list = []      # (caller, callee, parameter, origin, node)
        self.dropped: list = []    # (callee, parameter, node)
        self.root_calls: dict = {}      # id of a call node of the root -> [(callee, {arg node id: parameter})]
        self.stores: list = []     # (what, name, origin, node)
        self.seen: set = set()       # names evaluated
        self.live: set = set()       # names evaluated while they hold the argument
        self.on_call = self._called

    def e_Name(self, e, st):
        v = super().e_Name(e, st)
        if e.id in self.names:
            self.seen.add(id(e))
            if isinstance(v, AV) and any(t.root[1] == e.id for t in v.toks if t.root[0] in ("P", "K")):
                self.live.add(id(e))
        return v

    def _called(self, it, g, args, kwargs, stars, dstars, node, st):
        pos = [p for p in g.params if p.kind == "pos"]
        given = [(p.name, a) for p, a in zip(pos, args)] + list(kwargs.items())
        here = self.frames[-1].func
        for y, a in given:
            x = origin(a)
            if x is not None:
                self.bound.append((here, g, y, x, node))
        if len(self.frames) == 1:
            if isinstance(node, ast.Call):
                off = len(args) - sum(not isinstance(a, ast.Starred) for a in node.args)
                m = {}
                for i, a in enumerate(node.args):
                    if not isinstance(a, ast.Starred) and 0 <= i + off < len(pos):
                        m[id(a)] = pos[i + off].name
                for k in node.keywords:
                    if k.arg is not None:
                        m[id(k.value)] = k.arg
                self.root_calls.setdefault(id(node), []).append((g, m))
                if not stars and not dstars:
                    have = {y for y, _ in given}
                    for p in g.params:
                        if p.name in self.names and p.name not in have and p.default is not None:
                            self.dropped.append((g, p.name, node))

    def ev_args(self, e, st):
        r = super().ev_args(e, st)
        if len(self.frames) == 1:
            for k, v in r[1].items():
                x = origin(v)
                if x is not None:
                    self.stores.append(("the keyword", k, x, e))
        return r

    def e_Dict(self, e, st):
        out = super().e_Dict(e, st)
        if len(self.frames) == 1:
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    x = origin(self.ev(v, st))
                    if x is not None:
                        self.stores.append(("the entry", k.value, x, e))
        return out

    def set_attr(self, base, name, v, st, node, txt):
        if len(self.frames) == 1:
            x = origin(v)
            if x is not None:
                self.stores.append(("the attribute", name.lstrip("_"), x, node))
        return super().set_attr(base, name, v, st, node, txt)


def loads(f):
    """Loads of each parameter in the body, with the call they are an argument of."""
    out = {p.name: [] for p in f.params}
    def visit(n, call, shadow):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in out and n.id not in shadow:
                out[n.id].append((n, call))
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n is not f.node:
            a = n.args
            inner = shadow | {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, *filter(None, (a.vararg, a.kwarg)))}
            for d in (*a.defaults, *filter(None, a.kw_defaults)):
                visit(d, None, shadow)
            for b in n.body if isinstance(n.body, list) else [n.body]:
                visit(b, None, inner)
            return
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in out:
            out[n.target.id].append((n.target, None))   # reads it, too
        if isinstance(n, ast.Call):
            visit(n.func, None, shadow)
            for a in n.args:
                visit(a, n, shadow)
            for k in n.keywords:
                visit(k.value, n, shadow)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, None, shadow)
    for b in f.body():
        visit(b, None, frozenset())
    return out


def trivial(f):
    """Bodies without an implementation."""
    for b in f.body():
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
            continue
        if isinstance(b, (ast.Pass, ast.Raise)):
            continue
        if isinstance(b, ast.Return) and (b.value is None or isinstance(b.value, ast.Constant) or isinstance(b.value, ast.Name)
                                          and b.value.id == "NotImplemented"):
            continue
        return False
    return True


def overrides(proj, f, p, api, fls):
    """`f` takes its signature from elsewhere and has no use for `p`."""
    if f.cls is None:
        # the readers and writers called alike by load() and save()
        return f.parent is None and f.name in ("file_reader", "file_writer") and ".io.plugins." in f.module.name
    if any(g.name == f.name and g is not f and g.param(p) for fl in fls for c in fl.root_calls.values() for g, _ in c):
        return False    # leaves the work to another implementation, which has the option
    for c in proj.mro(f.cls)[1:]:
        if isinstance(c, Class) and f.name in c.methods:
            return True
        if not isinstance(c, Class) and f not in api:
            return True     # perhaps called by the library
    return any(f.name in c.methods for c in proj.subclasses(f.cls))


def contributes(f, p, g, node):
    """The option takes part in the call in another way: the call's other arguments, its condition, or a statement
    with what it returns or changes."""
    if g.name == "__init__":
        return True     # may be set afterwards
    body = list(f.body())
    assigns = []
    for b in body:
        for s in ast.walk(b):
            if isinstance(s, ast.Assign):
                assigns.append((s.targets, s.value, s))
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)) and s.value is not None:
                assigns.append(([s.target], s.value, s))
            elif isinstance(s, (ast.For, ast.comprehension)):
                assigns.append(([s.target], s.iter, s))
            elif isinstance(s, (ast.If, ast.While, ast.IfExp)):
                if p in idents(s.test) and any(x is node or isinstance(x, (ast.Return, ast.Continue, ast.Break))
                                               for x in ast.walk(s)):
                    return True
    def grow(start):
        names, n = set(start), -1
        while n != len(names):
            n = len(names)
            for ts, v, s in assigns:
                if idents(v) & names:
                    for t in ts:
                        names |= idents(t)
        return names
    from_p = grow({p})
    call = idents(node) if node is not None else set()
    if call & from_p:
        return True
    made = {x for ts, v, s in assigns if any(y is node for y in ast.walk(s)) for t in ts for x in idents(t)}
    rest = grow(made) - {"self", "np", "da"}
    for b in body:
        for s in ast.walk(b):
            if isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.AugAssign)):
                ids = idents(s)
                if ids & rest and ids & from_p:
                    return True
    return False


def idents(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def scan(proj, ctx: Ctx, res: Result):
    flows, uses = {}, {}
    api = {f for f, _ in api_functions(proj)}
    for f in proj.all_funcs():
        if f.is_abstract or f.module.name.startswith("kikuchipy.data._dummy_files"):
            continue
        recv = concrete_receivers(proj, f) or [None]
        for dyn in recv if ctx.thorough else recv[:1]:
            fl = Flow(proj, f)
            fl.run(f, {}, dyn)
            flows.setdefault(f, []).append(fl)
        uses[f] = loads(f)
        res.count("functions_analysed")
    # --- values given to a parameter although their own exists
    for f, fls in flows.items():
        for fl in fls:
            for here, g, y, x, node in fl.bound:
                res.count("arguments_traced")
                if x != y and g.param(x) is not None and x in fl.names:
                    at = here.short if here is not None else f.short
                    res.add("option-swapped", f"{f.short}: {x}",
                            f"`{x}` of {f.short} is given to `{y}` of {g.short}, which has a parameter `{x}`",
                            f"{(here or f).module.relpath}:{getattr(node, 'lineno', 0)}", [f.short, at, g.short])
            for what, k, x, node in fl.stores:
                res.count("stores_traced")
                # a helper's own parameter may share its name with another option
                called = [g for g, _ in fl.root_calls.get(id(node), ())] if what == "the keyword" else []
                if called and all(g.name.startswith("_") and not g.name.startswith("__") and g.param(x) is None for g in called):
                    continue
                if k != x and k in fl.names:
                    res.add("option-swapped", f"{f.short}: {x}",
                            f"{what} `{k}` in {f.short} gets its parameter `{x}`, not `{k}`",
                            f"{f.module.relpath}:{getattr(node, 'lineno', 0)}", [f.short])
    # --- parameters never used, directly or by the functions they are handed to
    used = {(f, p): False for f in uses for p in uses[f]}
    change = True
    while change:
        change = False
        for (f, p), u in list(used.items()):
            if u:
                continue
            if any(is_use(f, p, n, call, flows[f], used) for n, call in uses[f][p]):
                used[(f, p)] = change = True
    for (f, p), u in used.items():
        prm = f.param(p)
        if p in ("self", "cls") or p.startswith("_") or prm.kind in ("vararg",):
            continue
        res.count("parameters")
        if u or trivial(f) or overrides(proj, f, p, api, flows[f]):
            continue
        res.add("option-ignored", f"{f.short}: {p}", f"`{p}` of {f.short} has no effect", f.where, [f.short])
    # --- options handed on by one call and left out by another
    for f, fls in flows.items():
        for fl in fls:
            for g, p, node in fl.dropped:
                ls = uses[f][p]
                if ls and (all(is_forward(n, call, fl) for n, call in ls) and not handed_on(f, ls, node)
                           or not contributes(f, p, g, node)):
                    res.add("option-left-out", f"{f.short}: {p}",
                            f"`{p}` of {f.short} has no influence on the call of {g.short}, which has it too",
                            f"{f.module.relpath}:{getattr(node, 'lineno', 0)}", [f.short, g.short])


def handed_on(f, ls, node):
    """Another call gets the option together with what this one returns."""
    made = {x for b in f.body() for s in ast.walk(b) if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is node
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for x in idents(t)}
    return any(call is not None and call is not node and idents(call) & made for _, call in ls)


def is_forward(n, call, fl):
    return call is not None and any(id(n) in m for _, m in fl.root_calls.get(id(call), ()))


def is_use(f, p, n, call, fls, used):
    if any(id(n) in fl.seen for fl in fls) and not any(id(n) in fl.live for fl in fls):
        return False    # replaced before
    if call is None:
        return True
    got = [(g, m) for fl in fls for g, m in fl.root_calls.get(id(call), ())]
    if not got:
        return True
    for g, m in got:
        q = m.get(id(n))
        if q is None or used.get((g, q), True):
            return True
    return False


SELFTEST = {
    "m.py": '''
def inner(a, dtype=None, progress=False):
    return a.astype(dtype) if progress else a


def bad_swap(a, dtype=None, progress=False):
    return inner(a, progress, dtype)


def bad_key(a, dtype=None, progress=False):
    return {"dtype": progress, "n": dtype, "a": a}


def bad_unused(a, dtype=None):
    return a


def forwards(a, dtype=None):
    return bad_unused(a, dtype)


def bad_replaced(a, dtype=None):
    dtype = "f4"
    return a.astype(dtype)


def bad_left_out(a, b, progress=False):
    c = inner(a, progress=progress)
    return c + inner(b)


def good(a, dtype=None, progress=False):
    dtype = dtype or "f4"
    if progress is True:
        return inner(a, progress=progress, dtype=dtype)
    return inner(a, dtype)


def good_scaled(a, factor=2, dtype=None):
    factor *= 2
    return inner(a * factor, dtype)
''',
}


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    r = Result("C16")
    scan(proj, Ctx(proj, "quick"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("option-swapped:m.bad_swap: dtype", "option-swapped:m.bad_key: progress", "option-ignored:m.bad_unused: dtype",
              "option-ignored:m.forwards: dtype", "option-ignored:m.bad_replaced: dtype",
              "option-left-out:m.bad_left_out: progress"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    res.require("good" not in txt, f"self-test: false report ({txt})")
    res.count("selftest_cases", 8)


def run(ctx: Ctx) -> Result:
    res = Result("C16", explanation=(
        "Every function is interpreted with one symbol per parameter; symbols are followed through assignments, calls of any "
        "depth, keyword arguments, dictionary entries and attributes. Rules: (swapped) a parameter's own value is bound to a "
        "parameter, keyword, entry or attribute of another name where the receiver (or the function itself) has one of that "
        "name for it; (ignored) no load of a parameter holds its value, or every one hands it to an in-project parameter that "
        "itself is ignored (least fixpoint); (left out) a parameter that is only handed on is left out of a call to a function that has it."))
    res.assumptions = [
        "A use by the code of another library is a use.",
        "Readers and writers of file formats share one signature; an option a format has no use for is not reported there, "
        "nor are parameters of methods that share a signature with another class's.",
    ]
    selftest(res)
    scan(ctx.proj, ctx, res)
    res.require(res.coverage.get("arguments_traced", 0) > 1000, "too few arguments traced")
    res.samples = [f.short for f in list(ctx.proj.all_funcs())[:10]]
    return res
