"""The effect interpreter with value provenance.

In addition to aliases, values carry *derived-from* tokens: the result of a
library call, a subscript or an arithmetic expression is marked with every
tracked access path its operands came from.  Signals returned by library
methods which build a new object (or re-initialise the present one) start with
their custom attributes marked LOST (or STALE when the library copies them
without adapting them to the new shape); assigning the attribute replaces the
mark.
"""

from __future__ import annotations

import ast

from .effects import AV, FRESH, NC, NONE, Interp, State, Tok, const_av, join
from .project import Class

LOST = ("LOST",)
STALE = ("STALE",)
DEFAULT = ("DEFAULT",)

# library methods of a signal returning a new one: what becomes of attributes
# that only kikuchipy knows about
NEW_LOST = {"deepcopy", "as_lazy"}
NEW_STALE = {"rebin", "_slicer"}
NEW_KEPT = {"_deepcopy_with_new_data", "get_decomposition_model"}
SELF_LOST = {"compute", "change_dtype", "set_signal_type", "_assign_subclass"}
SELF_STALE = {"crop"}


def derived(vals, depth=0) -> frozenset:
    out = set()
    for v in vals:
        if not isinstance(v, AV):
            continue
        for t in v.toks:
            if t.root[0] in ("P", "V"):
                out.add(Tok(("V", *t.root[1:]), t.path))
            elif t.root[0] == "STALE":
                out.add(Tok(("V", "self"), ("_" + t.root[1],)))
        if v.elts is not None and depth < 3:
            out |= derived(v.elts, depth + 1)
    return frozenset(out)


def attr_names(proj, cls: Class) -> list[str]:
    ca = proj.class_attr(cls, "_custom_attributes")
    if ca is None or not isinstance(ca[1], (ast.List, ast.Tuple)):
        return []
    return [x.value for x in ca[1].elts if isinstance(x, ast.Constant)]


class Tracer(Interp):
    def __init__(self, proj):
        super().__init__(proj)
        self.constructed: list = []

    # ------------------------------------------------ provenance of results
    def _mark(self, v: AV, inputs) -> AV:
        if v is None or v.const is not NC or (v.types is not None and v.types <= {"none"}):
            return v
        if v.types and v.types <= {"dict", "list", "set", "tuple"} and any(t.root[0] == "A" for t in v.toks):
            return v  # its content is tracked
        d = derived(inputs)
        return v.with_(toks=v.toks | d) if d else v

    def external_call(self, d, args, kwargs, stars, dstars, e, st):
        r = super().external_call(d, args, kwargs, stars, dstars, e, st)
        return self._mark(r, [*args, *kwargs.values(), *stars])

    def builtin_method(self, base, name, args, kwargs, stars, dstars, e, st):
        dflt = (
            name in ("get", "pop") and args and isinstance(args[0].const, str)
            and self.own_dict(st, base) and not self.dict_has(st, base, self.key_step(args[0]))
        )
        r = super().builtin_method(base, name, args, kwargs, stars, dstars, e, st)
        if dflt:
            return r.with_(toks=r.toks | {Tok((*DEFAULT, args[0].const))}, const=NC)
        if name in ("items", "keys", "values", "get", "pop", "update", "append"):
            return r
        return self._mark(r, [base, *args, *kwargs.values(), *stars])

    def own_dict(self, st, d: AV, depth=0) -> bool:
        """Built by the code under analysis: no part comes from a caller."""
        if not d.toks or depth > 4 or any(t.root[0] not in ("A", "ABSENT") for t in d.toks):
            return False
        for t in d.toks:
            pr = st.heap.get(Tok(t.root, t.path + ("__proto__",)))
            if pr is not None and not self.own_dict(st, pr, depth + 1):
                return False
        return True

    def e_BinOp(self, e, st):
        r = super().e_BinOp(e, st)
        return self._mark(r, [self.ev(e.left, st), self.ev(e.right, st)])

    def e_UnaryOp(self, e, st):
        r = super().e_UnaryOp(e, st)
        return self._mark(r, [self.ev(e.operand, st)])

    def subscript(self, base, idx, e, st):
        r = super().subscript(base, idx, e, st)
        if base.types is not None and base.types & {"dict", "list", "tuple"}:
            return r
        return self._mark(r, [base])

    def _read_tok(self, st, t, step, types, depth):
        r = super()._read_tok(st, t, step, types, depth)
        if not r.toks and r.const is NC and t.root[0] in ("P", "V"):
            # immutable values have no identity, but come from somewhere
            r = r.with_(toks=[Tok(("V", *t.root[1:]), t.path + (step,))])
        return r

    def e_Compare(self, e, st):
        r = super().e_Compare(e, st)
        if r.const is not NC:
            return r
        return self._mark(r, [self.ev(x, st) for x in (e.left, *e.comparators)])

    # ------------------------------------------------------------- signals
    def signal_types(self):
        """Signal types registered in hyperspy_extension.yaml."""
        if not hasattr(self.proj, "_signal_types"):
            out = set()
            p = self.proj.src / "kikuchipy" / "hyperspy_extension.yaml"
            if p.exists():
                for line in p.read_text().splitlines():
                    k, _, v = line.strip().partition(":")
                    if k == "signal_type":
                        out.add(v.strip().strip("'\""))
            self.proj._signal_types = out
        return self.proj._signal_types

    def get_attr(self, base, name, st, node):
        if name == "_signal_type" and base.types and not base.fns:
            out = None
            for t in base.types:
                ca = self.proj.class_attr(t, name) if isinstance(t, Class) else None
                v = ca[1] if ca is not None else None
                out = join(out, const_av(v.value) if isinstance(v, ast.Constant) else AV())
            return out
        if name == "_lazy" and base.types and not base.fns and all(
            isinstance(t, Class) and self.is_signal(t) for t in base.types
        ):
            out = None
            for t in base.types:
                lazy = any(
                    (k.name if isinstance(k, Class) else k.dotted.split(".")[-1]).startswith("Lazy")
                    for k in self.proj.mro(t)
                )
                out = join(out, const_av(lazy))
            return out
        return super().get_attr(base, name, st, node)

    def test(self, e, st):
        r = super().test(e, st)
        if r is None and isinstance(e, ast.Compare) and len(e.ops) == 1 \
                and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            a, b = self.ev(e.left, st), self.ev(e.comparators[0], st)
            if isinstance(a.const, str) and a.const in self.signal_types() \
                    and any(t.root[0] == "G" for t in b.toks):
                return isinstance(e.ops[0], ast.In)
        return r

    def write_field(self, st, av, step, val, weak=False):
        """One of several possible objects is written: a mark of a lost value
        is taken to be replaced in each of them."""
        if len(av.toks) > 1 and step.startswith("_"):
            for t in av.toks:
                k = Tok(t.root, t.path + (step,))
                old = st.heap.get(k)
                if old is not None and any(x.root[0] in ("LOST", "STALE") for x in old.toks):
                    st.heap[k] = old.with_(toks=[x for x in old.toks if x.root[0] not in ("LOST", "STALE")])
        super().write_field(st, av, step, val, weak)

    def attach(self, st, av: AV, src: AV | None, cls: Class, how):
        """Set the state of the custom attributes of a signal."""
        for a in attr_names(self.proj, cls):
            if how == "kept" and src is not None:
                v = AV(derived([self.read_field(st, src, "_" + a)]))
            else:
                v = AV([Tok((*how, a))])
            self.write_field(st, av, "_" + a, v)
        if src is not None and av is not src:
            for f, g in (("@axes", "axes_manager"), ("@metadata", "metadata"), ("@original_metadata", "original_metadata")):
                d = set()
                for t in src.toks:
                    one = AV([t], src.types)
                    have = st.heap.get(Tok(t.root, t.path + (f,)))
                    d |= have.toks if have is not None else derived([self.read_field(st, one, g)])
                self.write_field(st, av, f, AV(d))

    def ext_method(self, b, cls, name, args, kwargs, stars, dstars, e, st):
        if not self.is_signal(cls):
            return super().ext_method(b, cls, name, args, kwargs, stars, dstars, e, st)
        if name in NEW_LOST | NEW_STALE | NEW_KEPT:
            super().ext_method(b, cls, name, args, kwargs, stars, dstars, e, st)
            site = self.alloc(e)
            for k in [k for k in st.heap if k.root == site.root]:
                del st.heap[k]
            av = AV([site], [cls])
            if name == "_deepcopy_with_new_data":
                st.heap[Tok(site.root, ("data",))] = args[0] if args else kwargs.get("data", FRESH)
            self.attach(st, av, b, cls, LOST if name in NEW_LOST else STALE if name in NEW_STALE else "kept")
            return av
        if name in SELF_LOST | SELF_STALE:
            super().ext_method(b, cls, name, args, kwargs, stars, dstars, e, st)
            self.attach(st, b, b, cls, LOST if name in SELF_LOST else STALE)
            return NONE
        return super().ext_method(b, cls, name, args, kwargs, stars, dstars, e, st)

    def hs_map(self, b, cls, args, kwargs, dstars, e, st, txt):
        r = super().hs_map(b, cls, args, kwargs, dstars, e, st, txt)
        if r.types is not None and cls in r.types and r.toks:
            self.attach(st, r, b, cls, LOST)
        else:
            self.attach(st, b, b, cls, LOST)
        return r

    def hs_view(self, b, cls, st, e):
        r = super().hs_view(b, cls, st, e)
        return r

    def super_call(self, e, st):
        frm = self.frames[-1]
        if e.func.attr == "__init__" and frm.func.self_name:
            selfav = st.vars.get(frm.func.self_name)
            dyn = frm.dyncls or frm.func.cls
            if selfav is not None and isinstance(dyn, Class) and self.is_signal(dyn) \
                    and self.proj.lookup_after(dyn, frm.func.cls, "__init__") is None:
                r = super().super_call(e, st)
                args, kwargs, stars, dstars = self.ev_args(e, st)
                for f, k in (("@axes", "axes"), ("@metadata", "metadata"), ("@original_metadata", "original_metadata")):
                    v = kwargs.get(k)
                    for d in dstars:
                        g = self.dict_get(st, d, f"[{k!r}]")
                        if g is not None:
                            v = g
                    self.write_field(st, selfav, f, v if v is not None else AV([Tok((*LOST, k))]))
                return r
        return super().super_call(e, st)

    # Only paths without exceptions are of interest here
    def s_Try(self, s, st):
        pre = st.copy()
        body = self.block(s.body, st)
        out = self.block(s.orelse, body) if body is not None else None
        if out is None and not s.finalbody and body is None and s.handlers:
            for h in s.handlers:
                w = pre.copy()
                if h.name:
                    w.vars[h.name] = FRESH
                out = out or self.block(h.body, w)
        if s.finalbody:
            out = self.block(s.finalbody, out if out is not None else pre.copy()) if out is not None else out
        return out
