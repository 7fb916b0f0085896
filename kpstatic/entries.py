"""Which functions users call, and on which concrete classes."""

from __future__ import annotations

import ast

from .project import Class, Func, Project

SKIP_MODULES = ("kikuchipy.data._dummy_files",)


def public_functions(proj: Project):
    """(function, concrete class) pairs: module-level public functions, and
    public methods for the defining class and every subclass using them."""
    out = []
    for f in proj.all_funcs():
        if f.is_abstract or f.parent is not None:
            continue
        if f.module.name.startswith(SKIP_MODULES):
            continue
        if not f.is_public:
            continue
        out.append((f, f.cls))
    return out


def framework_hooks(proj: Project):
    """Private methods which extend a method of a library's base class: the
    library calls them on behalf of its own public methods."""
    out = []
    for f in proj.all_funcs():
        if f.cls is None or f.parent is not None or f.is_public or f.name.startswith("__"):
            continue
        for n in ast.walk(f.node):
            if (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name
                    and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name)
                    and n.func.value.func.id == "super"):
                out.append((f, f.cls))
                break
    return out


def concrete_receivers(proj: Project, f: Func) -> list[Class]:
    """Classes on whose instances `f` runs (defining class and inheritors)."""
    if f.cls is None:
        return []
    res = []
    for c in [f.cls] + proj.subclasses(f.cls):
        m = proj.lookup(c, f.name, setter=f.kind == "setter")
        if m is f:
            res.append(c)
    return res


def _all_of(tree):
    for n in tree.body if tree is not None else ():
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets) \
                and isinstance(n.value, (ast.List, ast.Tuple)):
            return [x.value for x in n.value.elts if isinstance(x, ast.Constant)]
    return None


def exported(proj: Project):
    """Functions and classes importable under a name without underscores."""
    out = set()
    for m in proj.modules.values():
        if any(p.startswith("_") for p in m.name.split(".")) or m.name.startswith(SKIP_MODULES):
            continue
        names = _all_of(m.stub) or _all_of(m.tree)
        if names is None:
            names = [n for n in (*m.funcs, *m.classes) if not n.startswith("_")]
        for n in names:
            ent = proj.resolve_in_module(m, n)
            if isinstance(ent, (Func, Class)):
                out.add(ent)
    return out


def api_functions(proj: Project):
    """Exported functions and the public methods of exported classes."""
    exp = exported(proj)
    out = []
    for f, c in public_functions(proj):
        if f in exp or c is not None and (c in exp or any(s in exp for s in proj.subclasses(c))):
            out.append((f, c))
    return out
