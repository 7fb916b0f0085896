"""C47: maps of how alike neighbouring points are compare each point with
the neighbours its window names, and no others, however the map is chunked.

The methods are interpreted on small maps: a cell for each point, with the
pattern in it any array of pixels and its list of best matches any numbers
(grid.py).  The value in each point is compared with its definition.
"""

from __future__ import annotations

import itertools
import math

from .. import poly as Q
from ..alg import Class, Dict, Obj, Opaque
from ..grid import BOOL, NAN, GAlg, Grid, isnan
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import Axis, DType
from .c43 import described, length

SY, SX = Q.axis("Sy", 5), Q.axis("Sx", 8)
SIG = (SY, SX)
SIZE = length(SY).mul(length(SX))


class Engine(GAlg):
    def __init__(self, proj, hooks=None):
        super().__init__(proj, {
            "get_dask_array": dask_array, "get_chunking": lambda A, a, k, s: Opaque("chunks"),
            "dask.diagnostics.ProgressBar": lambda A, a, k, s: Opaque("bar"),
            "hyperspy.api.preferences": lambda A, a, k, s: Opaque("preferences"), **(hooks or {})})

    def num(self, v):
        if getattr(v, "dotted", None) and "preferences" in v.dotted:
            return sym(v.dotted, "bool")
        return super().num(v)

    def construct(self, c: Class, args, kwargs):
        if c.name == "Window":
            kw = {**dict(zip(("window", "shape"), args)), **kwargs}
            name = self.const(kw.get("window")) if kw.get("window") is not None else "circular"
            shape = kw.get("shape")
            shape = (3, 3) if shape is None else tuple(self.const(x) for x in self.items(shape))
            if name in ("circular", "rectangular") and all(isinstance(x, int) for x in shape):
                return window(c, shape, None if name == "rectangular" else circle(shape))
        return super().construct(c, args, kwargs)


def circle(shape):
    """Places of a circular window."""
    if len(shape) == 1:
        return [1] * shape[0]
    o = [n // 2 for n in shape]
    r = max(o)
    return [int(math.dist(p, o) <= r) for p in itertools.product(*map(range, shape))]


def window(cls, shape, cells=None):
    g = Grid(shape, [Num.const(x) for x in (cells or [1] * math.prod(shape))], DType("float64"))
    g.cls = cls
    return g


def dask_array(A, args, kwargs, s):
    sig = args[0] if args else kwargs["signal"]
    g = sig.attrs["data"].copy()
    g.chunks = sig.attrs["chunks of data"]
    d = kwargs.get("dtype", args[1] if len(args) > 1 else None)
    return g if d is None else A.cast(g, d)


def signal(cls, shape, chunks, lazy):
    places = list(itertools.product(*map(range, shape)))
    cells = [Q.array_sym("pattern " + ",".join(map(str, p)), SIG) for p in places]
    data = Grid(tuple(shape) + (Axis(SY), Axis(SX)), cells, DType("pattern"))
    o = Obj(cls, "s")
    o.attrs.update({
        "data": data, "_lazy": lazy, "chunks of data": tuple(chunks) + ((length(SY),), (length(SX),)),
        "_navigation_shape_rc": tuple(Num.const(n) for n in shape), "_signal_shape_rc": (length(SY), length(SX)),
        "axes_manager": Obj(None, "axes_manager", {
            "signal_shape": (length(SX), length(SY)), "signal_dimension": Num.const(2), "signal_size": SIZE,
            "navigation_shape": tuple(Num.const(n) for n in shape[::-1]), "navigation_dimension": Num.const(len(shape)),
            "navigation_size": Num.const(math.prod(shape)),
            "signal_indices_in_array": (Num.const(len(shape) + 1), Num.const(len(shape)))}),
    })
    return o, dict(zip(places, cells))


# -------------------------------------------------------------- definition
def neighbours(at, shape, win, on):
    """(place in the window, point of the map or None) of each of its ones."""
    out = []
    for p, use in zip(itertools.product(*map(range, win)), on):
        if use:
            q = tuple(a + i - n // 2 for a, i, n in zip(at, p, win))
            out.append((p, q if all(0 <= x < n for x, n in zip(q, shape)) else None))
    return out


def prepared(x, zero_mean, normalize):
    if zero_mean:
        x = x.sub(Q.f_rsum(SIG, x).div(SIZE))
    if normalize:
        x = x.div(Q.f_sqrt(Q.f_rsum(SIG, x.mul(x))))
    return x


def average(xs):
    t = Q.ZERO
    for x in xs:
        t = t.add(x)
    return t.div(Num.const(len(xs)))


# -------------------------------------------------------------- comparison
def compare(res, rule, what, got, shape, want, where):
    res.count("obligations")
    if not isinstance(got, Grid):
        res.undecided.append(f"{what}: result not described ({str(got)[:80]})")
        return
    if tuple(got.axes) != tuple(shape):
        res.add(rule, what, f"the result has shape {tuple(got.axes)}, not {tuple(shape)}", where)
        return
    res.count("values_compared", len(want))
    for p, g, w in zip(itertools.product(*map(range, shape)), got.cells, want):
        if isnan(g) and isnan(w) or not isnan(g) and not isnan(w) and g.eq(w):
            continue
        if isnan(g) or isnan(w) or Q.differ(g, w) is not None:
            res.add(rule, what, f"the value at {p} is {g!r}, not {w!r}"[:600], where)
        else:
            res.undecided.append(f"{what}: value at {p}: {g!r} vs {w!r}"[:300])
        return
    res.count("proved_equal")


CROSS = (0, 1, 0, 1, 1, 1, 0, 1, 0)
WINDOWS = (
    ("the four nearest", (3, 3), CROSS), ("all eight", (3, 3), (1,) * 9), ("one row", (1, 3), (1,) * 3),
    ("a tall window", (5, 3), circle((5, 3))), ("an even window", (2, 2), (1,) * 4), ("a lopsided window", (2, 3), (1, 0, 1, 1, 1, 0)),
    ("a wide even window", (1, 4), (1,) * 4), ("one column", (3, 1), (1,) * 3),
)
LINES = (("two beside", (3,), (1,) * 3), ("one before", (2,), (1,) * 2), ("a long even window", (4,), (1,) * 4),
         ("a gap", (5,), (1, 0, 1, 0, 1)))
CHUNKS = {(4, 5): (((4,), (5,)), ((2, 2), (5,)), ((4,), (3, 2)), ((3, 1), (2, 3)), ((4,), (4, 1))), (7,): (((7,),), ((4, 3),), ((3, 2, 2),)),
          (3, 3): (((3,), (3,)),)}


def configurations(thorough):
    """(shape of the map, chunks, window, options)."""
    if thorough is None:        # for the self-test
        yield (4, 5), ((4,), (5,)), WINDOWS[0], True, True
        yield (4, 5), ((2, 2), (5,)), WINDOWS[0], True, True
        yield (4, 5), ((2, 2), (5,)), WINDOWS[4], False, False
        return
    for shape, wins in (((4, 5), WINDOWS), ((7,), LINES)):
        for i, w in enumerate(wins):
            for j, chunks in enumerate(CHUNKS[shape]):
                if j and any(max(c) < n for c, n in zip(chunks, w[1])) and any(min(c) < n // 2 for c, n in zip(chunks, w[1])):
                    continue
                opts = list(itertools.product((True, False), (True, False)))
                if not thorough:
                    opts = opts if i == 0 and j < 2 else [opts[(i + j) % 4]]
                for zm, nm in opts:
                    yield shape, chunks, w, zm, nm


def dot_products(proj, res, seen, sig, thorough):
    cls = next((c for c in proj.classes.values() if c.name == "Window"), None)
    mats, avg = (proj.lookup(sig, n) if sig is not None else None for n in (
        "get_neighbour_dot_product_matrices", "get_average_neighbour_dot_product_map"))
    for shape, chunks, (wname, wshape, on), zm, nm in configurations(thorough):
        how = f"{wname} in a map of {shape} in chunks {chunks}, {'zero mean' if zm else 'mean kept'}, {'normalized' if nm else 'as is'}"
        places = list(itertools.product(*map(range, shape)))
        for lazy in (False, True) if len(chunks[0]) == 2 and chunks[0][0] == 2 else (False,):
            s, pats = signal(sig, shape, chunks, lazy)
            pats = {p: prepared(x, zm, nm) for p, x in pats.items()}
            o = tuple(n // 2 for n in wshape)
            memo: dict = {}

            def dot(a, b):
                k = (min(a, b), max(a, b))
                if k not in memo:
                    memo[k] = Q.f_rsum(SIG, pats[a].mul(pats[b]))
                return memo[k]
            table, means = [], []
            for at in places:
                near = dict(neighbours(at, shape, wshape, on))
                table += [dot(at, near[p]) if near.get(p) is not None else NAN for p in itertools.product(*map(range, wshape))]
                others = [dot(at, q) for p, q in near.items() if q is not None and q != at]
                means.append(average(others) if others else NAN)
            kw = {"window": window(cls, wshape, on), "zero_mean": zm, "normalize": nm}
            where = ""
            if mats is not None:
                what = f"get_neighbour_dot_product_matrices({how}{', lazy' if lazy else ''})"
                where = mats.where

                def one(what=what, kw=kw, s=s, table=table):
                    A = Engine(proj)
                    r = A.call_func(mats, [], dict(kw), self_=s)
                    seen.update(A.functions)
                    compare(res, "dot-products", what, r, shape + wshape, table, mats.where)
                described(res, "dot-products", what, one, where)
            if avg is not None:
                what = f"get_average_neighbour_dot_product_map({how}{', lazy' if lazy else ''})"

                def two(what=what, kw=kw, s=s, means=means):
                    A = Engine(proj)
                    r = A.call_func(avg, [], dict(kw), self_=s)
                    seen.update(A.functions)
                    compare(res, "dot-products", what, r, shape, means, avg.where)
                described(res, "dot-products", what, two, avg.where)
            if avg is not None and zm and nm and not lazy and len(chunks[0]) == 1 and len(chunks[-1]) == 1:
                what = f"get_average_neighbour_dot_product_map({wname} in a map of {shape}, from matrices)"

                def three(what=what, kw=kw, s=s, table=table):
                    n = math.prod(wshape)
                    mid = 0
                    for i, m in zip(o, wshape):
                        mid = mid * m + i
                    m = Grid(shape + wshape, [x if isnan(x) else sym(f"product {i // n},{i % n}") for i, x in enumerate(table)],
                             DType("float32"))
                    before = list(m.cells)
                    want = []
                    for i in range(0, len(m.cells), n):
                        xs = [x for j, x in enumerate(m.cells[i:i + n]) if j != mid and not isnan(x)]
                        want.append(average(xs) if xs else NAN)
                    A = Engine(proj)
                    r = A.call_func(avg, [], {**kw, "dp_matrices": m}, self_=s)
                    seen.update(A.functions)
                    compare(res, "dot-products", what, r, shape, want, avg.where)
                    if any(a is not b for a, b in zip(before, m.cells)):
                        res.add("dot-products", what, "the matrices given are changed", avg.where)
                described(res, "dot-products", what, three, avg.where)


def default_window(proj, res, seen, sig):
    """Without a window, the nearest neighbours along each axis."""
    mats = proj.lookup(sig, "get_neighbour_dot_product_matrices") if sig is not None else None
    avg = proj.lookup(sig, "get_average_neighbour_dot_product_map") if sig is not None else None
    for shape in ((3, 3), (7,)):
        chunks = CHUNKS[shape][0]
        wshape = (3, 3)[:len(shape)]
        on = CROSS if len(shape) == 2 else (1,) * 3
        s, pats = signal(sig, shape, chunks, False)
        pats = {p: prepared(x, True, True) for p, x in pats.items()}
        table, means = [], []
        for at in itertools.product(*map(range, shape)):
            near = dict(neighbours(at, shape, wshape, on))
            table += [Q.f_rsum(SIG, pats[at].mul(pats[near[p]])) if near.get(p) is not None else NAN
                      for p in itertools.product(*map(range, wshape))]
            means.append(average([Q.f_rsum(SIG, pats[at].mul(pats[q])) for q in near.values() if q is not None and q != at]))
        for fn, want, sh in ((mats, table, shape + wshape), (avg, means, shape)):
            if fn is None:
                continue
            what = f"{fn.name}(by default in a map of {shape})"

            def one(fn=fn, want=want, sh=sh, what=what):
                A = Engine(proj)
                r = A.call_func(fn, [], {}, self_=s)
                seen.update(A.functions)
                compare(res, "dot-products", what, r, sh, want, fn.where)
            described(res, "dot-products", what, one, fn.where)


FOOTPRINTS = ((None, (3, 3), CROSS, None), ("all eight", (3, 3), (1,) * 9, 4), ("one row", (1, 3), (1,) * 3, 1),
              ("a tall footprint", (5, 3), circle((5, 3)), None), ("two before", (3, 3), (0, 1, 0, 1, 1, 0, 0, 0, 0), 2))


def similarity(proj, res, seen, thorough):
    fn = next((f for f in proj.funcs.values() if f.name == "orientation_similarity_map" and f.cls is None), None)
    if fn is None:
        return
    shape, keep = (3, 4), 4
    places = list(itertools.product(*map(range, shape)))
    for fname, wshape, on, centre in FOOTPRINTS:
        for n_best, from_n, norm in itertools.product((None, 1, 3, 4), (None, 1, 2), (False, True)):
            if from_n is not None and from_n > (n_best or keep):
                continue
            if not thorough and fname is not None and (n_best, from_n) not in ((None, None), (3, 2)):
                continue
            top = n_best or keep
            ns = list(range(top, (from_n or top) - 1, -1))
            what = (f"orientation_similarity_map({fname or 'the four nearest'}, n_best={n_best}, from_n_best={from_n}, "
                    f"normalize={norm})")
            cells = {p: [match(p, k) for k in range(keep)] for p in places}

            def one(what=what, wshape=wshape, on=on, fname=fname, n_best=n_best, from_n=from_n, norm=norm, ns=ns, centre=centre):
                idx = Grid((len(places), keep), [c for p in places for c in cells[p]], DType("int64"))
                xmap = Obj(None, "xmap", {"prop": Dict({"simulation_indices": idx}),
                                          "shape": tuple(map(Num.const, shape)), "size": Num.const(len(places))})
                A = Engine(proj)
                kw = {"normalize": norm}
                if n_best is not None:
                    kw["n_best"] = Num.const(n_best)
                if from_n is not None:
                    kw["from_n_best"] = Num.const(from_n)
                if fname is not None:
                    kw["footprint"] = Grid(wshape, [Num.const(x) for x in on], DType("int64"))
                    o = [n // 2 for n in wshape]
                    flat = o[0] * wshape[1] + o[1]
                    kw["center_index"] = Num.const(sum(on[:flat]) if centre is None else centre)
                r = A.call_func(fn, [xmap], kw)
                seen.update(A.functions)
                want = []
                for at in places:
                    for n in ns:
                        xs = [in_common(cells[at][:n], cells[q][:n]) for _, q in neighbours(at, shape, wshape, on)
                              if q is not None and q != at]
                        v = average(xs) if xs else NAN
                        want.append(v.div(Num.const(n)) if norm and xs else v)
                compare(res, "similarity", what, r, shape + ((len(ns),) if len(ns) > 1 else ()), want, fn.where)
            described(res, "similarity", what, one, fn.where)


def match(p, k):
    """The k-th best match in a point: any number, other than the point's
    other matches."""
    return Num.of(Q.atom("match", (sym(f"matches in {p[0]},{p[1]}", "int"), Num.const(k)), "int"))


Q.EVAL["match"] = lambda first, k: (int(first) * 5 + int(k) * (1 + int(first) % 3)) % 11


def in_common(a, b):
    x, y = sorted((sorted(a, key=repr), sorted(b, key=repr)), key=repr)
    return Num.of(Q.atom("common", (Num.const(len(x)), *x, *y), "int"))


def scan(proj, res: Result, thorough):
    seen: set = set()
    sig = next((c for c in proj.classes.values() if c.name == "EBSD"), None)
    dot_products(proj, res, seen, sig, thorough)
    if thorough is not None:
        default_window(proj, res, seen, sig)
    similarity(proj, res, seen, thorough)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import numpy as np
from scipy.ndimage import generic_filter


def get_dask_array(signal):
    pass


class Window(np.ndarray):
    @property
    def origin(self):
        return tuple(i // 2 for i in self.shape)


def products(patterns, window, size, zero_mean, normalize, dtype_out):
    shape = patterns.shape[:-2]
    flat = patterns.reshape(shape + (size,)).astype(dtype_out)
    if zero_mean:
        flat = flat - flat.mean(axis=-1, keepdims=True)
    if normalize:
        flat = flat / np.sqrt((flat**2).sum(axis=-1, keepdims=True))
    out = np.full(shape + window.shape, np.nan, dtype=dtype_out)
    oy, ox = window.origin
    for y in range(shape[0]):
        for x in range(shape[1]):
            for i in range(window.shape[0]):
                for j in range(window.shape[1]):
                    r, c = y + i - oy, x + j - ox
                    if window[i, j] and 0 <= r < shape[0] and 0 <= c < shape[1]:
                        out[y, x, i, j] = np.sum(flat[y, x] * flat[r, c])
    return out


class EBSD:
    def get_neighbour_dot_product_matrices(self, window, zero_mean=True, normalize=True, dtype_out="float32"):
        array = get_dask_array(signal=self)
        depth = {i: n - n // 2 - 1 for i, n in enumerate(window.shape)}
        return array.map_overlap(products, window=window, size=self.axes_manager.signal_size, zero_mean=zero_mean,
                                 normalize=normalize, dtype_out=np.dtype(dtype_out), drop_axis=(2, 3), new_axis=(2, 3),
                                 dtype=dtype_out, depth=depth, boundary="none").compute()

    def get_average_neighbour_dot_product_map(self, window, dp_matrices=None, zero_mean=True, normalize=True):
        if dp_matrices is None:
            dp_matrices = self.get_neighbour_dot_product_matrices(window, zero_mean, normalize)
        dp_matrices[:, :, window.origin[0], window.origin[1]] = np.nan
        return np.nanmean(dp_matrices, axis=(2, 3))


def orientation_similarity_map(xmap, n_best=None, from_n_best=None, normalize=False, footprint=None, center_index=2):
    matches = xmap.prop["simulation_indices"]
    size, keep_n = matches.shape
    n_best = n_best or keep_n
    from_n_best = from_n_best or n_best
    places = np.arange(size).reshape(xmap.shape)
    if footprint is None:
        footprint = np.array([[0, 1, 0], [1, 1, 1], [0, 1, 0]])
    out = np.zeros(xmap.shape + (n_best - from_n_best + 1,))
    for i, n in enumerate(range(n_best, from_n_best - 1, -1)):
        def similarity(v):
            v = v.astype(int)
            centre = v[center_index]
            others = [k for k in v if k != centre and k != -1]
            shared = [len(np.intersect1d(matches[centre, :n], matches[k, :n])) for k in others]
            return np.nanmean(shared) / (keep_n if normalize else 1)
        out[:, :, i] = generic_filter(places, similarity, footprint=footprint, mode="constant", cval=-1)
    return out.squeeze()
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C47",
        explanation=(
            "abstract interpretation of the neighbour dot product matrices, their average map and the orientation similarity "
            "map on small maps with a cell for each point, in which patterns are any arrays of pixels and lists of best "
            "matches any numbers; SciPy's generic_filter and dask's map_overlap follow their definition (places outside the "
            "map, origin of windows, blocks with what they overlap). Every value must equal its definition, for windows of odd "
            "and even size, with and without gaps, along one and two axes, maps in one or several chunks, lazy or not"
        ),
        assumptions=["maps of 4 x 5, 3 x 4, 3 x 3 and 7 points hold every kind of point for the windows used",
                     "SciPy's generic_filter, dask's map_overlap and NumPy do as documented"],
    )
    scan(ctx.proj, res, ctx.tier == "thorough")
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "maps of neighbours not found")
    r = Result("C47")
    scan(project_from(dict(SELFTEST)), r, None)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("get_neighbour_dot_product_matrices(an even window",        # chunks overlap too little
            "get_average_neighbour_dot_product_map(the four nearest in a map of (4, 5), from matrices)",    # changes them
            "n_best=3, from_n_best=2, normalize=True")                  # divided by keep_n
    quiet = ("get_neighbour_dot_product_matrices(the four nearest", "in chunks ((4,), (5,))", "normalize=False")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:300]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt[:300]})")
    res.require(not r.undecided, f"self-test: undecided ({r.undecided[:3]})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
