"""Loading and name resolution of the kikuchipy source tree.

Everything here works on the syntax trees of the *current* working tree
of /repo.  Nothing of kikuchipy is imported or executed.
"""

from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field
from pathlib import Path

from .desugar import desugar

REPO = Path(os.environ.get("KP_REPO", "/repo"))
SRC = REPO / "src"
PKG = "kikuchipy"


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone (reported as an error exit)."""


# --------------------------------------------------------------------- #
@dataclass
class Param:
    name: str
    kind: str  # pos, kwonly, vararg, kwarg
    annotation: ast.AST | None
    default: ast.AST | None


@dataclass(eq=False)
class Func:
    name: str
    qualname: str
    module: "Module"
    node: ast.AST  # FunctionDef / Lambda
    cls: "Class | None" = None
    parent: "Func | None" = None
    kind: str = "function"  # function, method, property, setter, static, class
    decorators: list[str] = field(default_factory=list)
    params: list[Param] = field(default_factory=list)
    nested: dict[str, "Func"] = field(default_factory=dict)

    def __repr__(self):
        return f"<Func {self.qualname}>"

    @property
    def where(self) -> str:
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def short(self) -> str:
        return self.qualname.removeprefix(PKG + ".")

    @property
    def is_public(self) -> bool:
        if self.parent is not None:
            return False
        if self.name.startswith("_") and not (
            self.name.startswith("__") and self.name.endswith("__")
        ):
            return False
        if self.cls is not None and self.cls.name.startswith("_"):
            return False
        return True

    @property
    def param_names(self) -> list[str]:
        return [p.name for p in self.params]

    def param(self, name: str) -> Param | None:
        for p in self.params:
            if p.name == name:
                return p
        return None

    @property
    def self_name(self) -> str | None:
        if self.kind in ("method", "property", "setter", "class") and self.params:
            return self.params[0].name
        return None

    @property
    def is_overload(self) -> bool:
        return any(d.endswith("overload") for d in self.decorators)

    @property
    def is_abstract(self) -> bool:
        return any(d.endswith("abstractmethod") for d in self.decorators)

    def body(self) -> list[ast.stmt]:
        if isinstance(self.node, ast.Lambda):
            return [ast.copy_location(ast.Return(self.node.body), self.node.body)]
        return strip_docstring(self.node.body)


@dataclass(eq=False)
class Class:
    name: str
    qualname: str
    module: "Module"
    node: ast.ClassDef
    base_exprs: list[ast.AST] = field(default_factory=list)
    methods: dict[str, Func] = field(default_factory=dict)  # getters, methods
    setters: dict[str, Func] = field(default_factory=dict)
    attrs: dict[str, ast.AST | None] = field(default_factory=dict)  # class-level
    attr_ann: dict[str, ast.AST] = field(default_factory=dict)

    def __repr__(self):
        return f"<Class {self.qualname}>"


@dataclass(eq=False)
class Module:
    name: str
    path: Path
    tree: ast.Module
    is_pkg: bool
    src: str
    bindings: dict[str, list] = field(default_factory=dict)
    funcs: dict[str, Func] = field(default_factory=dict)
    classes: dict[str, Class] = field(default_factory=dict)
    globals: dict[str, ast.AST] = field(default_factory=dict)
    stub: ast.Module | None = None

    @property
    def relpath(self) -> str:
        rel = self.__dict__.get("_rel")
        return rel if rel else str(self.path.relative_to(REPO))


@dataclass(frozen=True)
class External:
    dotted: str

    def __repr__(self):
        return f"<Ext {self.dotted}>"


@dataclass(frozen=True)
class GlobalVar:
    module: str
    name: str

    @property
    def dotted(self):
        return f"{self.module}.{self.name}"


def strip_docstring(body: list[ast.stmt]) -> list[ast.stmt]:
    if (
        body
        and isinstance(body[0], ast.Expr)
        and isinstance(body[0].value, ast.Constant)
        and isinstance(body[0].value.value, str)
    ):
        return body[1:]
    return body


def dotted_of(node: ast.AST) -> str | None:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Project:
    def __init__(self, src: Path = SRC) -> None:
        self.src = src
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self.by_node: dict[int, Func] = {}
        self._mro_cache: dict[Class, list] = {}
        self._load()

    # ------------------------------------------------------------ load
    def _load(self) -> None:
        root = self.src / PKG
        if not root.is_dir():
            raise AnalysisBroken(f"package directory {root} not found")
        digest = hashlib.sha256()
        for path in sorted(root.rglob("*.py")):
            rel = path.relative_to(self.src)
            parts = list(rel.with_suffix("").parts)
            if "tests" in parts or "__pycache__" in parts:
                continue
            is_pkg = parts[-1] == "__init__"
            if is_pkg:
                parts = parts[:-1]
            name = ".".join(parts)
            text = path.read_text(encoding="utf-8")
            digest.update(text.encode())
            try:
                tree = desugar(ast.parse(text, filename=str(path)))
            except SyntaxError as e:  # pragma: no cover
                raise AnalysisBroken(f"cannot parse {path}: {e}") from e
            mod = Module(name, path, tree, is_pkg, text)
            stub = path.with_suffix(".pyi")
            if stub.exists():
                mod.stub = ast.parse(stub.read_text(encoding="utf-8"))
            self.modules[name] = mod
        self.digest = digest.hexdigest()
        for mod in self.modules.values():
            self._index_module(mod)

    def _index_module(self, mod: Module) -> None:
        self._index_body(mod, mod.tree.body)
        if mod.stub is not None:
            for n in mod.stub.body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for alias, target in self._import_bindings(mod, n):
                        mod.bindings.setdefault(alias, []).append(target)

    def _index_body(self, mod: Module, body) -> None:
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for alias, target in self._import_bindings(mod, n):
                    mod.bindings.setdefault(alias, []).append(target)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._make_func(mod, n, None, None)
                mod.funcs[n.name] = f
                mod.bindings.setdefault(n.name, []).append(("func", f))
            elif isinstance(n, ast.ClassDef):
                c = self._make_class(mod, n)
                mod.classes[n.name] = c
                mod.bindings.setdefault(n.name, []).append(("class", c))
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                for fieldname in ("body", "orelse", "finalbody"):
                    self._index_body(mod, getattr(n, fieldname, []) or [])
                for h in getattr(n, "handlers", []) or []:
                    self._index_body(mod, h.body)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name):
                            if n.value is not None:
                                mod.globals[nm.id] = n.value
                            mod.bindings.setdefault(nm.id, []).append(("global", nm.id))

    def global_changed(self, modname: str, name: str) -> bool:
        """Whether a module-level variable is assigned more than once or
        changed anywhere in its module."""
        cache = self.__dict__.setdefault("_changed_globals", {})
        if modname not in cache:
            tree = self.modules[modname].tree
            seen: dict[str, int] = {}
            changed = set()
            local = {
                id(x)
                for f in ast.walk(tree)
                if isinstance(f, (ast.FunctionDef, ast.Lambda, ast.ClassDef))
                for x in ast.walk(f)
            }
            for n in ast.walk(tree):
                if isinstance(n, ast.Global):
                    changed |= set(n.names)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if id(n) not in local:
                        seen[n.id] = seen.get(n.id, 0) + 1
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name):
                        changed.add(n.value.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if isinstance(n.func.value, ast.Name) and n.func.attr in (
                        "append", "extend", "insert", "update", "add", "setdefault", "pop",
                        "remove", "clear", "sort", "reverse", "discard",
                    ):
                        changed.add(n.func.value.id)
            cache[modname] = changed | {k for k, v in seen.items() if v > 1}
        return name in cache[modname]

    def _import_bindings(self, mod: Module, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    yield a.asname, ("import", a.name)
                else:
                    yield a.name.split(".")[0], ("import", a.name.split(".")[0])
        else:
            base = n.module or ""
            if n.level:
                parts = mod.name.split(".")
                if not mod.is_pkg:
                    parts = parts[:-1]
                parts = parts[: len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names:
                yield (a.asname or a.name), ("from", base, a.name)

    def _make_params(self, node) -> list[Param]:
        a = node.args
        out = []
        pos = a.posonlyargs + a.args
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in zip(pos, defaults):
            out.append(Param(p.arg, "pos", p.annotation, d))
        if a.vararg:
            out.append(Param(a.vararg.arg, "vararg", a.vararg.annotation, None))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            out.append(Param(p.arg, "kwonly", p.annotation, d))
        if a.kwarg:
            out.append(Param(a.kwarg.arg, "kwarg", a.kwarg.annotation, None))
        return out

    def _make_func(self, mod, node, cls, parent) -> Func:
        prefix = parent.qualname + ".<locals>" if parent else (
            cls.qualname if cls else mod.name
        )
        name = getattr(node, "name", "<lambda>")
        f = Func(name, f"{prefix}.{name}", mod, node, cls, parent)
        f.params = self._make_params(node)
        for d in getattr(node, "decorator_list", []):
            target = d.func if isinstance(d, ast.Call) else d
            f.decorators.append(dotted_of(target) or ast.dump(target))
        if cls is not None and parent is None:
            f.kind = "method"
            for d in f.decorators:
                if d == "staticmethod":
                    f.kind = "static"
                elif d == "classmethod":
                    f.kind = "class"
                elif d == "property" or d.endswith("cached_property"):
                    f.kind = "property"
                elif d.endswith(".setter"):
                    f.kind = "setter"
        self.by_node[id(node)] = f
        if f.is_overload:
            return f
        key = f.qualname + (".setter" if f.kind == "setter" else "")
        self.funcs[key] = f
        # nested functions / lambdas are indexed lazily via nested_func()
        return f

    def nested_func(self, parent: Func, node) -> Func:
        f = self.by_node.get(id(node))
        if f is None:
            f = self._make_func(parent.module, node, parent.cls, parent)
            f.kind = "function"
        return f

    def _make_class(self, mod, node) -> Class:
        c = Class(node.name, f"{mod.name}.{node.name}", mod, node, list(node.bases))
        self.classes[c.qualname] = c
        self._class_body(mod, c, node.body)
        return c

    def _class_body(self, mod, c, body) -> None:
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._make_func(mod, n, c, None)
                if f.is_overload:
                    continue
                if f.kind == "setter":
                    c.setters[n.name] = f
                else:
                    c.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.attrs[n.target.id] = n.value
                c.attr_ann[n.target.id] = n.annotation
            elif isinstance(n, (ast.If, ast.Try)):
                self._class_body(mod, c, n.body)
                self._class_body(mod, c, n.orelse)

    # --------------------------------------------------------- resolve
    def resolve_in_module(self, mod: Module, name: str, seen=None):
        """Resolve a bare name at module scope to an entity, or None."""
        seen = seen or set()
        if (mod.name, name) in seen:
            return None
        seen = seen | {(mod.name, name)}
        for b in mod.bindings.get(name, []):
            if b[0] in ("func", "class"):
                return b[1]
            if b[0] == "global":
                return GlobalVar(mod.name, name)
            if b[0] == "import":
                return self.modules.get(b[1]) or External(b[1])
            if b[0] == "from":
                ent = self.resolve_from(b[1], b[2], seen)
                if ent is not None:
                    return ent
        sub = self.modules.get(f"{mod.name}.{name}")
        if sub is not None and mod.is_pkg:
            return sub
        return None

    def resolve_from(self, base: str, name: str, seen=None):
        m = self.modules.get(base)
        if m is None:
            if base.split(".")[0] == PKG:
                return External(f"{base}.{name}")
            return External(f"{base}.{name}")
        ent = self.resolve_in_module(m, name, seen)
        if ent is None:
            ent = self.modules.get(f"{base}.{name}")
        return ent

    def resolve_dotted(self, dotted: str):
        parts = dotted.split(".")
        if parts[0] != PKG:
            return External(dotted)
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is not None:
                ent = m
                for p in parts[i:]:
                    ent = self.member(ent, p)
                    if ent is None:
                        return None
                return ent
        return None

    def member(self, ent, name: str):
        if isinstance(ent, Module):
            return self.resolve_in_module(ent, name)
        if isinstance(ent, External):
            return External(f"{ent.dotted}.{name}")
        if isinstance(ent, Class):
            return self.lookup(ent, name)
        return None

    # -------------------------------------------------------- classes
    def bases(self, c: Class) -> list:
        out = []
        for b in c.base_exprs:
            d = dotted_of(b)
            if d is None:
                continue
            parts = d.split(".")
            ent = self.resolve_in_module(c.module, parts[0])
            for p in parts[1:]:
                ent = self.member(ent, p) if ent is not None else None
            if ent is None:
                ent = External(d)
            out.append(ent)
        return out

    def mro(self, c: Class) -> list:
        """C3 linearisation over in-project classes; externals appended."""
        if c in self._mro_cache:
            return self._mro_cache[c]
        self._mro_cache[c] = [c]

        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[x for x in s if x != cand] for s in seqs]
                seqs = [s for s in seqs if s]
            return res

        bs = self.bases(c)
        lin = []
        for b in bs:
            lin.append(self.mro(b) if isinstance(b, Class) else [b])
        out = [c] + merge(lin + [bs])
        self._mro_cache[c] = out
        return out

    def lookup(self, c: Class, name: str, setter=False):
        for k in self.mro(c):
            if isinstance(k, Class):
                d = k.setters if setter else k.methods
                if name in d:
                    return d[name]
        return None

    def lookup_after(self, c: Class, after: Class, name: str):
        """super(after, instance-of-c).name"""
        m = self.mro(c)
        if after in m:
            m = m[m.index(after) + 1 :]
        for k in m:
            if isinstance(k, Class) and name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c: Class, name: str):
        for k in self.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, c: Class) -> list[Class]:
        return [k for k in self.classes.values() if k is not c and c in self.mro(k)]

    # ---------------------------------------------------------- lookup
    def func(self, qualname: str) -> Func:
        f = self.funcs.get(f"{PKG}.{qualname}") or self.funcs.get(qualname)
        if f is None:
            raise AnalysisBroken(f"function {qualname} not found in the source tree")
        return f

    def cls(self, name: str) -> Class:
        for q, c in self.classes.items():
            if q == name or q.endswith("." + name):
                return c
        raise AnalysisBroken(f"class {name} not found in the source tree")

    def find_func(self, name: str) -> Func | None:
        """A module-level function by bare name, wherever it is defined."""
        hits = [
            f
            for f in self.funcs.values()
            if f.name == name and f.cls is None and f.parent is None
        ]
        return hits[0] if hits else None

    def all_funcs(self):
        return list(self.funcs.values())
