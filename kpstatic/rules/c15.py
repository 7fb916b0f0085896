"""C15: option values that are not supported are refused."""

from __future__ import annotations

import ast

from ..effects import AV, NC, Diverged, Interp, const_av
from ..entries import api_functions, concrete_receivers
from ..project import Class
from ..report import Ctx, Result
from ..selftest import project_from

FOLD = {"lower", "upper", "strip", "casefold", "title", "capitalize", "lstrip", "rstrip", "__str__", "replace"}
HARMLESS = ("logging.", "warnings.", "builtins.print", "builtins.repr", "builtins.len", "builtins.type", "builtins.isinstance")


class Mark(str):
    """A string none of the alternatives an option is compared to."""

    def __new__(cls):
        return super().__new__(cls, "\0other")

    def __eq__(self, o):
        return isinstance(o, Mark)

    def __ne__(self, o):
        return not isinstance(o, Mark)

    __hash__ = str.__hash__


MARK = Mark()


class Cased(str):
    """An alternative written with other letter cases."""

    __slots__ = ("word",)

    def __new__(cls, w):
        o = super().__new__(cls, w.swapcase())
        o.word = w
        return o


def is_mark(v) -> bool:
    return isinstance(v, AV) and isinstance(v.const, Mark)


class Options(Interp):
    """Follows a value that is none of the supported ones."""

    def __init__(self, proj):
        super().__init__(proj)
        self.alternatives: dict[str, set] = {}
        self.unsure: list[str] = []
        self.places: list[tuple] = []
        self.folded = False
        self.cased: list[str] = []

    def note(self, node, what):
        fr = self.frames[-1]
        self.unsure.append(f"{fr.module.relpath}:{getattr(node, 'lineno', 0)} {what}")

    # ---- what an unsupported value is compared to
    def names_in(self, b):
        g = self.module_names(b)
        if g is not None:
            return g
        if isinstance(b.const, str):
            return {b.const}
        if b.elts is not None:
            return {x.const for x in b.elts if isinstance(x.const, str)}
        return None

    def module_names(self, b):
        """The words in a module-level dictionary or list of words."""
        out = set()
        for t in b.toks:
            if t.root[0] != "G" or t.path:
                return None
            mod, _, name = t.root[1].rpartition(".")
            m = self.proj.modules.get(mod)
            vals = [n.value for n in m.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(
                isinstance(x, ast.Name) and x.id == name for x in getattr(n, "targets", None) or [n.target])] if m else []
            if len(vals) != 1 or not isinstance(vals[0], (ast.Dict, ast.List, ast.Tuple, ast.Set)):
                return None
            items = vals[0].keys if isinstance(vals[0], ast.Dict) else vals[0].elts
            if not all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in items):
                return None
            out |= {x.value for x in items}
        return out or None

    def has_mark(self, v, st, depth=0):
        if is_mark(v):
            return True
        if depth > 3 or not isinstance(v, AV):
            return False
        if v.elts is not None and any(self.has_mark(x, st, depth + 1) for x in v.elts):
            return True
        for t in v.toks:
            if t.root[0] != "A":
                continue
            n = len(t.path)
            for k, x in st.heap.items():
                if k.root == t.root and len(k.path) == n + 1 and k.path[:n] == t.path and k.path[-1].startswith("[") \
                        and self.has_mark(x, st, depth + 1):
                    return True
        return False

    def e_JoinedStr(self, e, st):
        for x in e.values:
            if isinstance(x, ast.FormattedValue) and is_mark(self.ev(x.value, st)):
                self.note(e, "becomes part of another string")
        return super().e_JoinedStr(e, st)

    def e_BinOp(self, e, st):
        if self.has_mark(self.ev(e.left, st), st) or self.has_mark(self.ev(e.right, st), st):
            self.note(e, "becomes part of something else")
            return AV()
        return super().e_BinOp(e, st)

    def test(self, e, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            a, b = self.ev(e.left, st), self.ev(e.comparators[0], st)
            for x, y in ((a, b), (b, a)):
                if isinstance(x.const, Cased) and x.const.word in (self.names_in(y) or ()):
                    fr = self.frames[-1]
                    self.cased.append(f"{fr.func.short} ({ast.unparse(e)})")
            pos = isinstance(e.ops[0], (ast.Eq, ast.In))
            inn = isinstance(e.ops[0], (ast.In, ast.NotIn))
            if is_mark(a) or is_mark(b):
                m, o = (a, b) if is_mark(a) else (b, a)
                if is_mark(o) and not inn:
                    return pos
                if m is a and inn and any(is_mark(x) for x in o.elts or ()):
                    return pos
                alts = self.names_in(o)
                if alts is None:
                    alts = self.keys_of(o, st) if inn and m is a else None
                if alts is None:
                    if o.const is None or (o.const is not NC and not isinstance(o.const, str)):
                        return not pos
                    self.note(e, f"compared to {ast.unparse(e)}")
                    return None
                fr = self.frames[-1]
                self.places.append((fr.func.short, e.lineno, tuple(sorted(alts))))
                return not pos
            if inn:
                vals = [x for x in (b.elts or ()) if is_mark(x)]
                if vals and a.const is not NC:
                    rest = [x.const for x in b.elts if not is_mark(x)]
                    if a.const in [r for r in rest if r is not NC]:
                        return pos
                    if all(r is not NC for r in rest):
                        return not pos
        return super().test(e, st)

    def keys_of(self, o, st):
        keys = set()
        if o.types is None or not o.types <= {"dict", "list", "tuple", "set"}:
            return None
        it = self.known_items(o, st)
        if it is None:
            return None
        for k, _ in it:
            keys.add(k)
        return keys

    def subscript(self, base, idx, e, st):
        if is_mark(idx) and base.types is not None and base.types <= {"dict"}:
            keys = self.keys_of(base, st)
            if keys is not None:
                fr = self.frames[-1]
                self.places.append((fr.func.short, e.lineno, tuple(sorted(map(str, keys)))))
                raise Diverged
            self.note(e, "looked up in a dictionary")
            return AV()
        return super().subscript(base, idx, e, st)

    # ---- where it goes
    def builtin_method(self, base, name, args, kwargs, stars, dstars, e, st):
        if isinstance(base.const, Cased) and name in ("lower", "upper", "casefold", "title", "capitalize"):
            self.folded = True
            return const_av(getattr(str(base.const.word), name)())
        if is_mark(base):
            if name in FOLD:
                return const_av(MARK)
            if name in ("format", "encode"):
                return AV(types=["str"])
            if name in ("startswith", "endswith"):
                return const_av(False)
            self.note(e, f"str.{name}()")
            return AV()
        if any(is_mark(a) for a in (*args, *kwargs.values())):
            if name == "get" and base.types is not None and base.types <= {"dict"} and self.keys_of(base, st) is not None:
                self.note(e, "looked up with a default")
            elif name not in ("format", "append", "write", "debug", "info", "warning", "index", "join"):
                self.note(e, f"passed to .{name}()")
            elif name == "index":
                raise Diverged
        return super().builtin_method(base, name, args, kwargs, stars, dstars, e, st)

    def external_call(self, d, args, kwargs, stars, dstars, e, st):
        if d in ("list", "tuple", "set", "sorted", "frozenset") and args and self.module_names(args[0]) is not None:
            return AV(types=["list"], elts=tuple(const_av(x) for x in sorted(self.module_names(args[0]))))
        if any(self.has_mark(a, st) for a in (*args, *kwargs.values(), *stars)) and not d.startswith(HARMLESS):
            last = d.split(".")[-1]
            if not (last.endswith(("Error", "Warning", "Exception")) or last in (
                    "warn", "deepcopy", "copy", "list", "dict", "tuple", "isinstance", "str", "repr", "len", "zip", "any", "all")):
                self.note(e, f"passed to {d}()")
        if last_is(d, ("deepcopy", "copy", "str")) and args and is_mark(args[0]):
            return const_av(MARK)
        return super().external_call(d, args, kwargs, stars, dstars, e, st)

    def ext_method(self, b, cls, name, args, kwargs, stars, dstars, e, st):
        if any(is_mark(a) for a in (*args, *kwargs.values(), *stars)):
            self.note(e, f"passed to {name}() of a library class")
        return super().ext_method(b, cls, name, args, kwargs, stars, dstars, e, st)


def last_is(d, names):
    return d.split(".")[-1] in names


def options_of(f):
    """Parameters which may be given as one of several words."""
    for p in f.params:
        an = ast.unparse(p.annotation) if p.annotation is not None else ""
        dflt = isinstance(p.default, ast.Constant) and isinstance(p.default.value, str)
        if p.name in ("self", "cls"):
            continue
        if dflt or "str" in an or "Literal" in an or an.isupper():
            yield p.name


def documented(proj, f, p):
    """Words the annotation or the docstring offers for an option."""
    out = set()
    prm = f.param(p)
    anns = [prm.annotation] if prm.annotation is not None else []
    for a in anns:
        for n in ast.walk(a):
            if isinstance(n, ast.Subscript) and ast.unparse(n.value).split(".")[-1] == "Literal":
                out |= {x.value for x in ast.walk(n.slice) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return out


def offered(f, p, w):
    """The docstring's entry of parameter `p` names the word `w`."""
    doc = ast.get_docstring(f.node) or ""
    lines = doc.splitlines()
    for i, ln in enumerate(lines):
        if not ln.startswith((" ", "\t")) and p in [x.strip() for x in ln.split(":")[0].split(",")]:
            text = []
            for x in lines[i + 1:]:
                if x.strip() and not x.startswith((" ", "\t")):
                    break
                text.append(x)
            return f'"{w}"' in " ".join(text) or f"'{w}'" in " ".join(text)
    return False


def follow(proj, f, dyn, given):
    it = Options(proj)
    it.follow_noreturn = True
    _, heap = it.run(f, given, dyn)
    return it, heap is None


def scan(proj, ctx: Ctx, res: Result):
    table = {}
    for f, _ in api_functions(proj):
        recv = concrete_receivers(proj, f) or [None]
        opts = list(options_of(f))
        for dyn in recv if ctx.thorough else recv[:1]:
            if not opts:
                continue
            if follow(proj, f, dyn, {})[1]:
                res.undecided.append(f"{f.short}: not followed to its end")
                continue
            runs = {p: follow(proj, f, dyn, {p: MARK}) for p in opts}
            alts = {p: sorted({a for x in it.places for a in x[2]}) for p, (it, _) in runs.items()}
            for p, (it, refused) in runs.items():
                res.count("options_followed")
                if not it.places:
                    continue
                res.count("options_with_alternatives")
                table[f"{f.short}({p})"] = alts[p]
                for w in sorted(documented(proj, f, p) | {w for w in alts[p] if offered(f, p, w)}):
                    res.count("alternatives_followed")
                    if follow(proj, f, dyn, {p: w})[1]:
                        res.add("supported-value-refused", f"{f.short}: {p}={w!r}",
                                f"{f.short} never returns for the documented {p}={w!r}", f.where, [f.short])
                for w in alts[p]:
                    if w.swapcase() == w:
                        continue
                    it2, refused2 = follow(proj, f, dyn, {p: Cased(w)})
                    if it2.folded and it2.cased and not refused2:
                        res.add("letter-case-half-ignored", f"{f.short}: {p}",
                                f"{f.short} accepts {p}={w!r} in any letter case, but {it2.cased[0]} tells the cases apart",
                                f.where, [f.short])
                        break
                if refused or only_with(proj, f, dyn, p, opts, alts):
                    res.count("proved_refused")
                    continue
                if it.unsure:
                    # used for something else than a choice: any word may have a meaning
                    res.count("options_passed_on")
                    table[f"{f.short}({p})"] = [*alts[p], "..."]
                    continue
                res.add("unsupported-value-accepted", f"{f.short}: {p}",
                        f"{f.short} returns normally for a `{p}` that is none of {alts[p]} "
                        f"(compared in {', '.join(sorted({x[0] for x in it.places}))})", f.where,
                        [f.short, *sorted({x[0] for x in it.places})])
    res.samples = [f"{k}: {', '.join(map(repr, v))[:120]}" for k, v in sorted(table.items())]


def only_with(proj, f, dyn, p, opts, alts):
    """The choice is only made for some values of another option, and refused for those."""
    for q in opts:
        if q == p or not alts[q]:
            continue
        ok = True
        for val in (*alts[q], "\0another"):
            it, refused = follow(proj, f, dyn, {p: MARK, q: val})
            if it.places and not refused:
                ok = False
                break
        if ok:
            return True
    return False


def run(ctx: Ctx) -> Result:
    res = Result(
        "C15",
        explanation=(
            "every public function is interpreted once per option with a word that equals none of the words the code "
            "compares the option to: if the comparisons decide anything, no path may return normally; with each "
            "documented word some path must return. A choice made only under another option is decided for each "
            "value of that option. Words accepted in any letter case may not be compared letter by letter"
        ),
        assumptions=[
            "options handed on to another library, or made part of a text, are open: any word may have a meaning there",
        ],
    )
    scan(ctx.proj, ctx, res)
    res.require(res.coverage.get("options_with_alternatives", 0) >= 1, "no option with alternatives found")
    selftest(res)
    return res


SELFTEST = {
    "__init__.py": '''
from scipy.signal import get_window

WAYS = {"up": 1, "down": 2}


def bad_else(mode="a"):
    if mode == "a":
        return 1
    return 2


def bad_inner(kind="x"):
    return _inner(kind.lower())


def _inner(k):
    if k == "x":
        v = 1
    elif k in ("y", "z"):
        v = 2
    else:
        v = 3
    return v


def bad_word(way: Literal["up", "down"] = "up"):
    if way in ["up"]:
        return 1
    raise ValueError


def good_else(mode="a"):
    if mode == "a":
        return 1
    elif mode == "b":
        return 2
    raise ValueError(f"unknown {mode}")


def good_table(way="up"):
    ways = list(WAYS)
    if way not in ways:
        raise ValueError
    return WAYS[way]


def good_inner(kind="x"):
    _check(kind)
    return 1 if kind == "x" else 2


def _check(k):
    if k not in ("x", "y"):
        raise ValueError


def good_other(kind="x", mode="a"):
    if kind == "x" and mode not in ("a", "b"):
        raise ValueError
    if kind == "x":
        if mode == "a":
            return 1
        return 2
    elif kind == "y":
        return 3
    raise ValueError


def bad_case(kind="x"):
    _fold(kind)
    return 1 if kind == "x" else 2


def good_case(kind="x"):
    kind = _fold(kind)
    return 1 if kind == "x" else 2


def _fold(k):
    k = k.lower()
    match k:
        case "x" | "y":
            return k
        case _:
            raise ValueError


def good_open(window="round"):
    if window == "round":
        window = "boxcar"
    return get_window(window, 3)
''',
}


def selftest(res: Result):
    proj = project_from(dict(SELFTEST))
    r = Result("C15")
    scan(proj, Ctx(proj, "quick"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("bad_else: mode", "bad_inner: kind", "bad_word: way='down'", "half-ignored:bad_case: kind"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    for w in ("good_else", "good_table", "good_inner", "good_other", "good_open", "good_case"):
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", 10)
