"""C54: Hough indexing gives PyEBSDIndex the patterns, detector and phases as
they are, and puts its solutions at the points they belong to.

The methods are interpreted with stand-ins for PyEBSDIndex's functions which
keep what they are given and return arrays in which every value is told apart.
"""

from __future__ import annotations

import itertools
import math

from .. import poly as Q
from ..alg import Dict, External, Fn, Obj, Opaque, Unsupported
from ..grid import GAlg, Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from .c43 import described, methods

N = Num.const
FIELDS = ("fit", "cm", "pq", "nmatch")


class Solutions:
    """PyEBSDIndex's array: for each solution the fields of each point."""

    def __init__(self, rows):
        self.rows = rows


class Row:
    def __init__(self, fields):
        self.fields = fields


class Phases:
    def __init__(self, d):
        self.d = d

    def __deepcopy__(self, memo):
        return self


class Vectors:
    def __init__(self, of, how=()):
        self.of, self.how = of, tuple(how)


class Engine(GAlg):
    def __init__(self, proj, hooks=None):
        self.calls = []
        keep = lambda name: lambda A, a, k, s: A.calls.append((name, list(a), dict(k))) or Obj(None, name, {"args": list(a), **k})  # noqa: E731
        super().__init__(proj, {
            "orix.crystal_map.CrystalMap": keep("CrystalMap"), "orix.crystal_map.create_coordinate_arrays": coordinates,
            "orix.quaternion.Rotation": lambda A, a, k, s: A.grid(a[0]),
            "verify_dependency_or_raise": lambda A, a, k, s: None, "warnings.warn": lambda A, a, k, s: None,
            "pyebsdindex.ebsd_index.EBSDIndexer": keep("EBSDIndexer"), "pyebsdindex.tripletvote.addphase": keep("addphase"),
            "print": lambda A, a, k, s: None, "time.time": now,
            "diffsims.crystallography.ReciprocalLatticeVector": lambda A, a, k, s: Vectors((a[0] if a else k["phase"], k.get("hkl"))),
            **(hooks or {})})

    def attr(self, o, a, fr):
        o = self.deref(o)
        if isinstance(o, Solutions):
            if a == "shape":
                return (N(len(o.rows)), N(len(o.rows[0].fields["phase"].cells)))
            raise Unsupported(a)
        if isinstance(o, Phases):
            if a == "ids":
                return [N(i) for i in o.d]
            if a == "size":
                return N(len(o.d))
        if isinstance(o, Vectors):
            if a == "unique":
                return Fn(a, lambda A, args, kw: Vectors(o.of, (*o.how, "unique", A.truth(kw.get("use_symmetry", args[0] if args else False)))))
            if a == "hkl":
                return Vectors(o.of, (*o.how, "hkl"))
        return super().attr(o, a, fr)

    def isinst(self, v, c):
        v = self.deref(v)
        if isinstance(v, (Vectors, list, tuple)):
            cs = self.items(c) if isinstance(c, (tuple, list)) else [c]
            names = {x.dotted.split(".")[-1] if isinstance(x, External) else getattr(x, "name", "?") for x in cs}
            return bool(names & ({"ReciprocalLatticeVector", "Vector3d", "Miller"} if isinstance(v, Vectors)
                                 else {type(v).__name__, "Iterable", "Sequence"}))
        return super().isinst(v, c)

    def items(self, it):
        v = self.deref(it)
        if isinstance(v, Phases):
            return [(N(i), p) for i, p in v.d.items()]
        return super().items(it)

    def index(self, o, i):
        o = self.deref(o)
        if isinstance(o, Solutions):
            k = self.const(i)
            if not isinstance(k, int):
                raise Unsupported("solutions")
            return Row(o.rows[k].fields)
        if isinstance(o, Row) and isinstance(i, str):
            return o.fields[i]
        return super().index(o, i)


clock = itertools.count()


def now(A, args, kwargs, s):
    return sym(f"time {next(clock)}")


def coordinates(A, args, kwargs, s):
    kw = {**dict(zip(("shape", "step_sizes"), args)), **kwargs}
    return (Dict({"shape": kw.get("shape"), "steps": kw.get("step_sizes")}), N(1))


def solutions(n, phases):
    """An array of solutions: the last is the best."""
    rows = []
    for k, ids in enumerate(phases):
        f = {"quat": Grid((n, 4), [sym(f"q{k} {p} {c}") for p in range(n) for c in "wxyz"], DType("float64")),
             "phase": Grid((n,), [N(i) for i in ids], DType("int32"))}
        f.update({x: Grid((n,), [sym(f"{x}{k} {p}") for p in range(n)], DType("float32")) for x in FIELDS})
        rows.append(Row(f))
    return Solutions(rows)


def the_map(A, res, rule, what, where, got, row, shape, steps, phases):
    """The crystal map made of one solution."""
    def bad(part, text):
        res.add(rule, f"{what}: {part}", text, where)
    if not isinstance(got, Obj) or got.name != "CrystalMap":
        res.undecided.append(f"{what}: {got!r}"[:200])
        return
    kw = got.attrs
    if kw.get("args"):
        res.undecided.append(f"{what}: positional arguments of the crystal map")
        return
    ids = [int(c.value) for c in row.fields["phase"].cells]
    n = len(ids)
    quat = row.fields["quat"].cells
    want = [v for p in range(n) for v in ([N(1), N(0), N(0), N(0)] if ids[p] == -1 else quat[4 * p:4 * p + 4])]
    parts = [("rotations", kw.get("rotations"), (n, 4), want), ("phase_id", kw.get("phase_id"), (n,), row.fields["phase"].cells)]
    prop = kw.get("prop")
    for f in FIELDS:
        x = prop.get(f) if isinstance(prop, (dict, Dict)) else None
        if x is None:
            res.count("obligations")
            bad(f, "the map has no such property")
            continue
        parts.append((f, x, (n,), row.fields[f].cells))
    for part, x, ns, cells in parts:
        res.count("obligations")
        g = A.grid(x)
        if tuple(g.axes) != ns and math.prod(g.axes) != math.prod(ns):
            bad(part, f"of shape {tuple(g.axes)}, not {ns}")
            continue
        wrong = [k for k, (a, b) in enumerate(zip(g.cells, cells)) if not a.eq(b)]
        if not wrong:
            res.count("proved_equal")
        elif any(Q.differ(g.cells[k], cells[k]) is not None for k in wrong):
            k = next(k for k in wrong if Q.differ(g.cells[k], cells[k]) is not None)
            bad(part, f"value {k} is {g.cells[k]!r}, not {cells[k]!r}")
        else:
            res.undecided.append(f"{what}: {part}: {g.cells[wrong[0]]!r}"[:200])
    for part, key, want in (("shape", "shape", shape), ("step sizes", "steps", steps)):
        res.count("obligations")
        x = kw.get(key)
        xs = A.items(x) if x is not None else None
        ok = want is None and xs is None or xs is not None and want is not None and len(xs) == len(want) and all(
            A.num(u).eq(A.num(v)) for u, v in zip(xs, want))
        if ok:
            res.count("proved_equal")
        else:
            bad(part, f"{x!r}, not {want!r}")
    res.count("obligations")
    if the_same(A, kw.get("phase_list"), phases):
        res.count("proved_equal")
    else:
        bad("phase list", f"{kw.get('phase_list')!r} is not the one given")


def phase(name, sg):
    return Obj(None, name, {
        "name": name, "space_group": Obj(None, "space group", {"number": N(sg)}) if sg else None,
        "structure": Obj(None, "structure", {"lattice": Obj(None, "lattice", {
            "abcABG": Fn("abcABG", lambda A, a, k: tuple(sym(f"{name} {x}") for x in ("a", "b", "c", "alpha", "beta", "gamma")))})})})


def the_same(A, x, y):
    x, y = A.deref(x), A.deref(y)
    return x is y or isinstance(x, Phases) and isinstance(y, Phases) and x.d == y.d or (
        isinstance(x, Obj) and isinstance(y, Obj) and x.name == y.name and list(x.attrs) == list(y.attrs))


def same_values(A, x, want):
    g = A.grid(x)
    return len(g.cells) == len(want) and all(a.eq(b) for a, b in zip(g.cells, want))


def functions(proj, name):
    return [f for f in proj.funcs.values() if f.name == name and f.cls is None and f.parent is None]


def scan(proj, ctx: Ctx, res: Result):
    from . import cut
    # ------------------------------------------------ solutions to a map
    for f in functions(proj, "xmap_from_hough_indexing_data"):
        for shape, index, steps in itertools.product((None, (6,), (2, 3), (3, 2)), (-1, 0, 1), (False, True)):
            if steps and shape is None:
                continue
            what = f"{f.name}(data_index={index}, navigation_shape={shape}, step sizes {'given' if steps else 'not given'})"

            def one(shape=shape, index=index, steps=steps, what=what):
                A = Engine(proj)
                data = solutions(6, ((0, -1, 0, 0, -1, 0), (1, 1, 1, -1, 1, -1), (0, 1, 0, -1, 1, 0)))
                before = [list(r.fields["quat"].cells) for r in data.rows]
                pl = Phases({0: phase("a", 225), 1: phase("b", 229)})
                st = tuple(sym(f"step {k}") for k in range(len(shape))) if steps else None
                got = A.call_func(f, [data, pl], Dict({
                    "data_index": N(index), "navigation_shape": tuple(map(N, shape)) if shape else None, "step_sizes": st}))
                row = Row({**data.rows[index].fields, "quat": Grid((6, 4), before[index])})
                the_map(A, res, "hough-map", what, f.where, got, row, tuple(map(N, shape or (6,))), st, pl)
                res.count("functions_followed", len(A.functions))
            described(res, "hough-map", what, one, f.where)
        # a list of phases without the solution asked for
        what = f"{f.name}(data_index=2) of two phases"

        def refused():
            A = Engine(proj)
            A.call_func(f, [solutions(2, ((0, 0), (1, 1), (0, 1))), Phases({0: phase("a", 225), 1: phase("b", 229)})],
                        Dict({"data_index": N(2)}))
        res.count("obligations")
        try:
            refused()
            res.add("hough-map", what, "a solution the phases do not have is not refused", f.where)
        except Exception as e:  # noqa: BLE001
            if "aises" in type(e).__name__ or type(e).__name__ == "PyError":
                res.count("proved_equal")
            else:
                res.undecided.append(f"{what}: {type(e).__name__} {e}")
    # ------------------------------------------------------ of a signal
    for cls, f in methods(proj, "hough_indexing"):
        for nav, (ri, rb) in itertools.product(((2, 3), (4,)), itertools.product((False, True), repeat=2)):
            what = f"EBSD.{f.name}(return_index_data={ri}, return_band_data={rb}) of a map {nav}"

            def one(nav=nav, ri=ri, rb=rb, what=what):
                w = cut.World(proj, nav, "one", sig=(2, 3))
                n = math.prod(nav)
                rows = [Dict(solutions(n, ((0,) * n, (1,) * n)).rows[k].fields) for k in range(2)]
                row = Row(dict(rows[-1]))
                gave, band = [], Opaque("bands")

                def index_pats(A, a, k):
                    kw = {**dict(zip(("patsin",), a)), **k}
                    gave.append(kw)
                    return (rows, band, N(0), N(0))
                stub = Engine(proj)
                w.A.hooks.update({k: v for k, v in stub.hooks.items() if k in (
                    "orix.crystal_map.create_coordinate_arrays", "orix.quaternion.Rotation", "verify_dependency_or_raise", "print",
                    "time.time")})
                w.A.hooks.update({
                    "orix.crystal_map.CrystalMap": lambda A, a, k, s: Obj(None, "CrystalMap", {"args": list(a), **k}),
                    "_indexer_is_compatible_with_kikuchipy": lambda A, a, k, s: True,
                    "_phase_lists_are_compatible": lambda A, a, k, s: True, "_get_info_message": lambda A, a, k, s: "",
                    "_get_navigation_axes_unit": lambda A, a, k, s: "px"})
                indexer = Obj(None, "indexer", {"index_pats": Fn("index_pats", index_pats)})
                pl = Obj(None, "phases", {"ids": [N(0), N(1)]})
                got = w.call(f.name, pl, indexer, return_index_data=ri, return_band_data=rb)
                xmap = got[0] if isinstance(got, (tuple, list)) else got
                res.count("obligations")
                rest = list(got[1:]) if isinstance(got, (tuple, list)) else []
                want = [x for x, t in ((rows, ri), (band, rb)) if t]
                if len(rest) == len(want) and all(w.A.deref(u) is v for u, v in zip(rest, want)):
                    res.count("proved_equal")
                else:
                    res.add("hough-map", f"{what}: returned", "not the map, solutions and bands asked for in this order", f.where)
                res.count("obligations")
                if len(gave) == 1 and same_values(w.A, gave[0].get("patsin"), w.data) and (
                        tuple(w.A.grid(gave[0]["patsin"]).axes) == (n, 2, 3)):
                    res.count("proved_equal")
                else:
                    res.add("hough-input", f"{what}: patterns", "PyEBSDIndex does not get each pattern of the map once in order", f.where)
                steps = tuple(w.scales[a] for a in ("y", "x")[2 - len(nav):])
                the_map(w.A, res, "hough-map", what, f.where, xmap, row, tuple(map(N, nav)), steps, pl)
                res.count("functions_followed", len(w.A.functions))
            described(res, "hough-map", what, one, f.where)
    # ------------------------------------------- projection centers found
    for cls, f in methods(proj, "hough_indexing_optimize_pc"):
        for nav, batch, how in itertools.product(((2, 3), (4,)), (False, True), ("nelder-mead", "PSO")):
            what = f"EBSD.{f.name}(batch={batch}, method={how}) of a map {nav}"

            def one(nav=nav, batch=batch, how=how, what=what):
                w = cut.World(proj, nav, "one", sig=(2, 3))
                n = math.prod(nav) if batch else 1
                found = Grid((n, 3) if batch else (3,), [sym(f"found {k}") for k in range(3 * n)], DType("float64"))
                gave = []

                def opt(name):
                    def h(A, a, k, s):
                        gave.append((name, {**dict(zip(("pats", "indexer", "PC0", "batch"), a)), **k}))
                        return found
                    return h
                w.A.hooks.update({
                    "verify_dependency_or_raise": lambda A, a, k, s: None, "pyebsdindex.pcopt.optimize": opt("nelder-mead"),
                    "pyebsdindex.pcopt.optimize_pso": opt("pso"), "_indexer_is_compatible_with_kikuchipy": lambda A, a, k, s: True})
                indexer = Obj(None, "indexer", {"sampleTilt": sym("sample tilt"), "camElev": sym("elevation")})
                pc0 = [sym(f"first {k}") for k in "xyz"]
                det = w.call(f.name, list(pc0), indexer, batch=batch, method=how)
                A = w.A

                def check(part, ok, text):
                    res.count("obligations")
                    if ok:
                        res.count("proved_equal")
                    else:
                        res.add("hough-pc", f"{what}: {part}", text, f.where)
                if not isinstance(det, Obj) or det.cls is None:
                    res.undecided.append(f"{what}: {det!r}"[:200])
                    return
                check("method", len(gave) == 1 and gave[0][0] == how.lower(), f"optimized with {[g[0] for g in gave]}")
                if len(gave) != 1:
                    return
                kw = gave[0][1]
                check("patterns", same_values(A, kw.get("pats"), w.data) and tuple(A.grid(kw["pats"]).axes) == (math.prod(nav), 2, 3), "PyEBSDIndex does not get each pattern of the map once in order")
                check("PC0", same_values(A, kw.get("PC0"), pc0), "PyEBSDIndex does not get the projection center given")
                check("indexer", the_same(A, kw.get("indexer"), indexer), "PyEBSDIndex does not get the indexer given")
                check("batch", bool(A.truth(kw.get("batch", False))) == batch, "batch is not handed on")
                pc = A.grid(A.attr(det, "pc", None))
                shape = (nav if batch else (1,)) + (3,)
                check("pc", tuple(pc.axes) == shape and same_values(A, pc, found.cells),
                      f"the detector's projection centers {pc.cells[:4]!r} of shape {tuple(pc.axes)} are not those found")
                check("shape", [A.const(x) for x in A.items(A.attr(det, "shape", None))] == [2, 3], "not the patterns' shape")
                for a, b in (("sample_tilt", "sampleTilt"), ("tilt", "camElev")):
                    check(a, A.num(A.attr(det, a, None)).eq(indexer.attrs[b]), f"not {b} of the indexer")
                res.count("functions_followed", len(A.functions))
            described(res, "hough-pc", what, one, f.where)
    # ------------------------------------------------------------ indexer
    dets = [c for c in proj.classes.values() if c.name == "EBSDDetector" and "get_indexer" in c.methods]
    for cls in dets:
        f = cls.methods["get_indexer"]
        for nav, ref in itertools.product(((1,), (4,), (2, 3)), (None, "each", "one", "bare", "vectors")):
            what = f"EBSDDetector.{f.name}(reflectors {ref}) with projection centers of shape {nav}"

            def one(nav=nav, ref=ref, what=what):
                A = Engine(proj)
                n = math.prod(nav)
                pcs = [sym(f"pc{k}") for k in range(3 * n)]
                det = A.construct(cls, [], Dict({
                    "shape": (N(4), N(5)), "pc": Grid(nav + (3,), list(pcs), DType("float64")), "tilt": sym("tilt"),
                    "sample_tilt": sym("sample tilt")}))
                pl = Phases({0: phase("a", 225), 1: phase("b", 229)} if ref in (None, "each") else {0: phase("a", 225)})
                hkl = {"a": Grid((1, 3), [sym(f"hkl {k}") for k in range(3)], DType("int64"))}
                rs = {None: None, "each": [hkl["a"], None], "one": [hkl["a"]], "bare": hkl["a"],
                      "vectors": Vectors((pl.d[0], hkl["a"]))}[ref]
                A.hooks["_warn_if_angles_ignored"] = lambda A, a, k, s: None
                A.call_func(f, [pl], Dict({"reflectors": rs, "extra": sym("extra")}), self_=det)

                def check(part, ok, text):
                    res.count("obligations")
                    if ok:
                        res.count("proved_equal")
                    else:
                        res.add("hough-input", f"{what}: {part}", text, f.where)
                made = [c for c in A.calls if c[0] == "EBSDIndexer"]
                added = [c for c in A.calls if c[0] == "addphase"]
                if len(made) != 1 or made[0][1] or any(c[1] for c in added):
                    res.undecided.append(f"{what}: {len(made)} indexers")
                    return
                kw = made[0][2]
                pc = A.grid(kw.get("PC"))
                check("PC", tuple(pc.axes) in (((3,), (1, 3)) if n == 1 else ((n, 3),)) and same_values(A, pc, pcs),
                      f"projection centers {pc.cells[:4]!r} of shape {tuple(pc.axes)}")
                check("vendor", str(A.const(kw.get("vendor"))).lower() == "kikuchipy" if not isinstance(kw.get("vendor"), str)
                      else kw["vendor"].lower() == "kikuchipy", f"vendor is {kw.get('vendor')!r}")
                check("sampleTilt", A.num(kw.get("sampleTilt")).eq(sym("sample tilt")), f"{kw.get('sampleTilt')!r}")
                check("camElev", A.num(kw.get("camElev")).eq(sym("tilt")), f"{kw.get('camElev')!r}")
                check("patDim", [A.const(x) for x in A.items(kw.get("patDim"))] == [4, 5], f"{kw.get('patDim')!r}")
                check("further arguments", isinstance(kw.get("extra"), Num) and kw["extra"].eq(sym("extra")), "not handed on")
                check("phases", [c[2].get("phasename") for c in added] == [p.attrs["name"] for p in pl.d.values()],
                      f"phases {[c[2].get('phasename') for c in added]}")
                given = A.items(kw.get("phaselist"))
                check("phase list", given is not None and len(given) == len(added) and all(
                    A.deref(g).attrs.get("phasename") == c[2].get("phasename") for g, c in zip(given, added)), "not those added")
                for c, p in zip(added, pl.d.values()):
                    nm = p.attrs["name"]
                    check(f"space group of {nm}", A.num(c[2].get("spacegroup")).eq(p.attrs["space_group"].attrs["number"]),
                          f"{c[2].get('spacegroup')!r}")
                    v = c[2].get("polefamilies")
                    if rs is None or nm == "b":
                        check(f"reflectors of {nm}", v is None, f"{v!r}")
                    elif isinstance(v, Vectors) and isinstance(v.of, tuple):
                        check(f"reflectors of {nm}", v.how == ("unique", True, "hkl") and A.deref(v.of[0]).name == nm
                              and same_values(A, v.of[1], hkl["a"].cells), "not the unique ones of those given")
                    else:
                        res.undecided.append(f"{what}: reflectors {v!r}"[:200])
                    check(f"lattice of {nm}", same_values(A, c[2].get("latticeparameter"), [
                        sym(f"{nm} {x}") for x in ("a", "b", "c", "alpha", "beta", "gamma")]), f"{c[2].get('latticeparameter')!r}")
                res.count("functions_followed", len(A.functions))
            described(res, "hough-input", what, one, f.where)


SELFTEST = {"m.py": '''
import numpy as np
from hyperspy.signals import Signal2D
from orix.crystal_map import CrystalMap, create_coordinate_arrays
from orix.quaternion import Rotation
from pyebsdindex.ebsd_index import EBSDIndexer


def xmap_from_hough_indexing_data(data, phase_list, data_index=-1, navigation_shape=None, step_sizes=None, scan_unit="px"):
    if navigation_shape is None:
        navigation_shape = (data.shape[1],)
    coords, _ = create_coordinate_arrays(navigation_shape[::-1], step_sizes)
    if data_index != -1 and data_index not in phase_list.ids:
        raise ValueError("no such solution")
    d = data[data_index]
    quat = d["quat"].copy()
    quat[d["phase"] == 1] = [1, 0, 0, 0]
    return CrystalMap(rotations=Rotation(quat), phase_id=d["phase"], phase_list=phase_list, scan_unit=scan_unit,
                      prop={"fit": d["fit"], "cm": d["pq"], "pq": d["pq"], "nmatch": d["nmatch"]}, **coords)
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C54",
        explanation=(
            "interprocedural interpretation of the making of indexers, of Hough indexing, of projection center optimization and of "
            "the conversion of solutions to crystal maps, with stand-ins for PyEBSDIndex that keep what they are given and return "
            "arrays in which every value is told apart; each argument and each value of the map or detector is compared with its definition"
        ),
        assumptions=["PyEBSDIndex takes and returns what it documents; its indexing itself is not considered (C45)"],
    )
    scan(ctx.proj, ctx, res)
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "Hough indexing not found")
    r = Result("C54")
    p = project_from(dict(SELFTEST))
    scan(p, Ctx(p, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("navigation_shape=(2, 3), step sizes given): shape", "): rotations", "): cm")
    quiet = ("): pq", "navigation_shape=None, step sizes not given): shape", "phase list", "of two phases")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:300]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt[:300]})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
