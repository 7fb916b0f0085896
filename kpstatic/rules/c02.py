"""C02: operations that return something new leave the object they are called
on as it was; in-place operations change it and return nothing."""

from __future__ import annotations

import ast

from ..effects import Interp, Tok
from ..entries import concrete_receivers, public_functions
from ..project import Class
from ..report import Ctx, Result
from ..selftest import project_from

# Methods whose documented purpose is to change the object; one reason each.
MUTATORS = {
    "crop": "HyperSpy: crops in place",
    "change_dtype": "HyperSpy: changes in place",
    "compute": "HyperSpy: makes a lazy signal non-lazy in place",
    "make_lines": "documented: draws the calibration lines",
    "make_circular": "documented: makes the window circular in place",
    "setup": "overlay protocol: called by the widget to prepare the overlay",
    "show": "interactive widget: starts the display",
}
# classes which are stateful by nature (open files, widgets)
STATEFUL = ("io.plugins.", "io._", "draw.", "data._")
STATE_MODULES_OK = ("kikuchipy.io.plugins", "kikuchipy.draw", "kikuchipy.data")

SELFTEST = {
    "m.py": '''
import numpy as np
from copy import deepcopy

class S:
    def __init__(self, data):
        self.data = np.asarray(data)
        self._info = {}
        self._n = 0
    def bad(self, inplace: bool = True):
        if inplace:
            self.data += 1
            return None
        self.data += 1
        return S(self.data.copy())
    def shares(self, inplace: bool = True):
        if inplace:
            self.data += 1
        else:
            return S(self.data)
    def good(self, inplace: bool = True, lazy_output: bool | None = None):
        if lazy_output and inplace:
            raise ValueError
        if inplace:
            self.data += 1
            out = None
        else:
            out = S(self.data + 1)
        if out:
            return out
    def noraise(self, inplace: bool = True, lazy_output: bool | None = None):
        if inplace:
            self.data += 1
        else:
            return S(self.data + 1)
    def forgets(self, inplace: bool = True):
        out = S(self.data + 1)
        if inplace:
            return
        if out.data.size > 4:
            return out
    def touch(self):
        self._info["k"] = 1
        return 1
    def temporary(self):
        old = self._n
        self._n = 4
        try:
            return self.touch2()
        finally:
            self._n = old
    def temporary_bad(self):
        old = self._n
        self._n = 4
        out = self.touch2()
        self._n = old
        return out
    def touch2(self):
        return self._n
    def as_other(self, kind):
        if kind == "same":
            return self
        return S(self.data * 2)
    def cached(self):
        self._cache = 1
        return self._cache
    def deepcopy(self):
        new = S(self.data.copy())
        new._info = self._info
        return new
'''
}


def state_fields(proj, cls: Class) -> set[str] | None:
    """Attribute names that make up an instance's state (anything assigned in
    constructors or setters, declared on the class, or public)."""
    out = set()
    for c in proj.mro(cls):
        if not isinstance(c, Class):
            continue
        out |= set(c.attrs) | set(c.attr_ann) | set(c.methods)
        for m in [c.methods.get("__init__"), c.methods.get("__new__"),
                  c.methods.get("__array_finalize__"), *c.setters.values()]:
            if m is None:
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    out.add("*")
        ca = c.attrs.get("_custom_attributes")
        if ca is not None:
            for n in ast.walk(ca):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add("_" + n.value)
    return out


def receiver_effects(it, f, fields):
    for e in it.effects.values():
        if e.tok.root != ("P", f.self_name):
            continue
        path = e.tok.path
        if path and path[-1].startswith("__"):
            continue
        # a private attribute unknown to constructors and setters is a memo
        first = path[0] if path else None
        if e.kind == "setattr" and restored_always(e):
            continue
        if first and first.startswith("_") and first not in fields and "?" not in first and "*" not in fields:
            continue
        yield e


def _paths(target):
    for n in ast.walk(target):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
            yield ast.unparse(n)


def restored_always(e) -> bool:
    """The write is a temporary change which a ``finally`` block undoes."""
    for blk in _blocks(e.func.node):
        for i, s in enumerate(blk):
            if not isinstance(s, ast.Try) or not s.finalbody:
                continue
            undone = set()
            for f in s.finalbody:
                for n in ast.walk(f):
                    for t in getattr(n, "targets", []) if isinstance(n, ast.Assign) else []:
                        undone |= set(_paths(t))
            spans = [s] + ([blk[i - 1]] if i else [])
            for sp in spans:
                for n in ast.walk(sp):
                    if isinstance(n, ast.Assign) and n.lineno <= e.line <= n.end_lineno:
                        if {p for t in n.targets for p in _paths(t)} <= undone:
                            return True
            # two statements may precede the try block
            j = i - 1
            while j >= 0 and isinstance(blk[j], ast.Assign):
                n = blk[j]
                ps = {p for t in n.targets for p in _paths(t)}
                if not ps or not ps <= undone:
                    break
                if n.lineno <= e.line <= n.end_lineno:
                    return True
                j -= 1
    return False


def _blocks(node):
    for n in ast.walk(node):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def reach(ret, heap):
    seen = set()
    work = list(ret.toks)
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        if heap is None:
            continue
        for k, v in heap.items():
            if k.root == t.root and len(k.path) > len(t.path) and k.path[: len(t.path)] == t.path:
                work.extend(v.toks)
    return seen


def may_be_none(ret) -> bool:
    return ret is not None and ret.types is not None and "none" in ret.types


def only_none(ret) -> bool:
    return ret is not None and ret.types is not None and ret.types <= {"none"}


def has_lazy(f):
    return f.param("lazy_output") is not None


def check_inplace(proj, f, dyn, res: Result, add):
    """Methods with an `inplace` switch."""
    fields = state_fields(proj, dyn or f.cls)
    # --- False
    it = Interp(proj)
    ret, heap = it.run(f, {"inplace": False}, dyn)
    raw = it.raw_ret
    res.count("inplace_obligations", 4)
    for e in receiver_effects(it, f, fields):
        add("receiver-modified", f"{f.short}(inplace=False): {e.tok}",
            f"{e.tok} is changed by `{e.detail}` in {e.func.short} although inplace=False",
            e.where, [f.short, *e.chain])
    if may_be_none(raw):
        add("returns-nothing", f"{f.short}(inplace=False)",
            "some path returns None although inplace=False promises a new object",
            f"{f.module.relpath}:{f.node.lineno}", [f.short])
    for t in reach(ret, heap):
        if t.root == ("P", f.self_name) and (not t.path or t.path[0] == "data"):
            add("result-shares-data", f"{f.short}(inplace=False)",
                f"the returned object is, or keeps, {t} of the receiver",
                f"{f.module.relpath}:{f.node.lineno}", [f.short])
    # --- True
    it = Interp(proj)
    ret, heap = it.run(f, {"inplace": True}, dyn)
    raw = it.raw_ret
    if raw is not None and heap is not None and raw.types is not None and not only_none(raw) and raw.types:
        add("inplace-returns-object", f"{f.short}(inplace=True)",
            "some path returns an object although the change is made in place",
            f"{f.module.relpath}:{f.node.lineno}", [f.short])
    if not any(e.tok.root == ("P", f.self_name) for e in it.effects.values()):
        add("inplace-no-effect", f"{f.short}(inplace=True)",
            "no path changes the object although inplace=True",
            f"{f.module.relpath}:{f.node.lineno}", [f.short])
    # --- lazy output of an in-place operation has to be refused
    if has_lazy(f):
        res.count("lazy_inplace_obligations")
        it = Interp(proj)
        it.follow_noreturn = True
        ret, heap = it.run(f, {"inplace": True, "lazy_output": True}, dyn)
        if heap is not None:
            add("lazy-inplace-accepted", f"{f.short}(inplace=True, lazy_output=True)",
                "returns normally although a lazy output of an in-place operation is to be refused",
                f"{f.module.relpath}:{f.node.lineno}", [f.short])
        elif any(e.tok.root == ("P", f.self_name) for e in it.effects.values()):
            add("refused-after-change", f"{f.short}(inplace=True, lazy_output=True)",
                "the object is changed before the call is refused",
                f"{f.module.relpath}:{f.node.lineno}", [f.short])


def is_mutator(f) -> bool:
    return (
        f.kind == "setter"
        or f.name.startswith("set_")
        or f.name in MUTATORS
        or (f.name.startswith("__"))
    )


def scan(proj, ctx, res: Result):
    def add(*a):
        res.add(*a)

    for f, _ in public_functions(proj):
        if f.cls is None or f.kind not in ("method", "property") or f.cls.name.startswith("_"):
            continue
        receivers = concrete_receivers(proj, f) or [f.cls]
        if not ctx.thorough and len(receivers) > 3:
            receivers = receivers[:1] + receivers[-2:]
        for dyn in receivers:
            if f.param("inplace") is not None and not f.name.startswith("__"):
                check_inplace(proj, f, dyn, res, add)
                res.samples.append(f"{f.short} on {dyn.name}: inplace False/True")
                continue
            if is_mutator(f) or f.module.name.startswith(STATE_MODULES_OK):
                continue
            it = Interp(proj)
            ret, heap = it.run(f, {}, dyn)
            res.count("read_only_methods")
            res.count("calls_followed", it.calls)
            fields = state_fields(proj, dyn)
            for e in receiver_effects(it, f, fields):
                add("receiver-modified", f"{f.short}: {e.tok}",
                    f"{e.tok} is changed by `{e.detail}` in {e.func.short}",
                    e.where, [f.short, *e.chain])
            if ret is not None and f.kind == "method" and any(
                    t.root == ("P", f.self_name) and not t.path for t in ret.toks):
                add("returns-itself", f"{f.short}", "some path returns the object itself, so that changing the result changes it",
                    f"{f.module.relpath}:{f.node.lineno}", [f.short])
            if f.name in ("deepcopy", "__deepcopy__"):
                res.count("deepcopy_methods")
                for t in reach(ret, heap):
                    if t.root == ("P", f.self_name):
                        add("copy-shares", f"{f.short}",
                            f"the copy keeps {t} of the original",
                            f"{f.module.relpath}:{f.node.lineno}", [f.short])


def run(ctx: Ctx) -> Result:
    res = Result(
        "C02",
        explanation=(
            "interprocedural effect analysis of every public method with the "
            "receiver as the tracked object: with inplace=False nothing reachable from "
            "the receiver is written, a result is returned on every path and does not "
            "keep the receiver's data; with inplace=True the receiver is written and "
            "None returned; lazy_output with inplace is refused before any change; "
            "methods without the switch (outside a table of documented mutators) write "
            "nothing and never return the object itself; deepcopy() results reach nothing of the original"
        ),
        assumptions=[
            "HyperSpy's map(inplace=False), deepcopy and array operations return new "
            "data; private attributes never assigned by constructors or setters are memos",
        ],
    )
    scan(ctx.proj, ctx, res)
    res.require(res.coverage.get("inplace_obligations", 0) >= 40, "too few in-place operations found")
    res.require(res.coverage.get("read_only_methods", 0) >= 100, "too few methods found")
    selftest(res)
    return res


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    r = Result("C02")
    scan(proj, Ctx(proj, "thorough"), r)
    got = {(f.rule, f.construct.split("(")[0].split(":")[0].split(".")[-1]) for f in r.findings}
    want = {
        ("receiver-modified", "bad"), ("result-shares-data", "shares"),
        ("lazy-inplace-accepted", "noraise"), ("returns-nothing", "forgets"),
        ("inplace-no-effect", "forgets"),
        ("receiver-modified", "touch"), ("returns-itself", "as_other"), ("receiver-modified", "temporary_bad"), ("copy-shares", "deepcopy"),
    }
    res.require(want <= got, f"self-test: missing {want - got}")
    res.require(not {g for g in got if g[1] in ("good", "cached", "temporary")}, f"self-test: false report {got}")
    res.count("selftest_cases", len(want) + 2)
