"""C51: the projection center from the moving-screen technique is the point
the pattern features move away from.

PCCalibrationMovingScreen is interpreted for a few sets of points, the camera
moved by any distance and pixels of any size; every number it gives is
compared with its definition.
"""

from __future__ import annotations

import itertools
from fractions import Fraction as F

from .. import poly as Q
from ..grid import GAlg, Grid
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import DType
from .c43 import described
from .c50 import compare, numbers, shape_of, told

#: (detector shape, points when the camera is in, points when it is out)
LARGE = (
    ((60, 80), ((30, 20), (52, 33), (41, 47)), ((28, 14), (60, 34), (43, 55))),
    ((50, 40), ((10, 12), (31, 9), (25, 40), (14, 30)), ((7, 8), (36, 4), (28, 46), (11, 34))),
    # the motions of two points meet outside the detector
    ((40, 60), ((20, 10), (22, 30), (45, 25), (30, 18)), ((15, 6), (18, 35), (57, 27), (30, 14))),
    # two motions are parallel
    ((40, 40), ((10, 10), (15, 30), (30, 14), (33, 30)), ((6, 6), (9, 24), (37, 11), (38, 36))),
    ((20, 50), ((15, 10), (40, 25)), ((9, 6), (47, 29))),
    ((50, 20), ((10, 15), (25, 40)), ((6, 9), (29, 47))),
)
SETS = tuple((tuple(n // 5 for n in shape), *(tuple(tuple(F(c, 5) for c in p) for p in pts) for pts in points))
             for shape, *points in LARGE)


class Engine(GAlg):
    def external(self, d, args, kwargs, fr):
        if d == "itertools.combinations" and len(args) == 2:
            xs, n = self.items(args[0]), self.const(args[1])
            if xs is not None and isinstance(n, int):
                return [tuple(c) for c in itertools.combinations(xs, n)]
        return super().external(d, args, kwargs, fr)

    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if type(op).__name__ == "Div" and isinstance(b, Num) and isinstance(a, Num) and b.value == 0:
            return INF
        return super().binop(op, a, b)


INF = Num.const(10 ** 9)     # stands for infinity: outside of every detector


def meet(a, b):
    """Where two lines meet, or None; a line is a pair of points."""
    (x1, y1), (x2, y2) = a
    (x3, y3), (x4, y4) = b
    d = (x2 - x1) * (y4 - y3) - (y2 - y1) * (x4 - x3)
    if d == 0:
        return None
    t = F((x3 - x1) * (y4 - y3) - (y3 - y1) * (x4 - x3), d)
    return x1 + t * (x2 - x1), y1 + t * (y2 - y1)


def square(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


def expected(case, dz, px, binning, convention):
    (ny, nx), pin, pout = case
    n = Num.const
    pairs = list(itertools.combinations(range(len(pin)), 2))
    met = [meet((pout[i], pin[i]), (pout[j], pin[j])) for i, j in pairs]
    inside = [m is not None and 0 < m[0] < nx and 0 < m[1] < ny for m in met]
    lengths = [[Q.f_sqrt(n(square(p[i], p[j]))) for i, j in pairs] for p in (pin, pout)]
    pcz = [dz.div(b.div(a).sub(Q.ONE)) for a, b in zip(*lengths)]
    if px is not None:
        pcz = [z.div(n(ny).mul(px).mul(binning)) for z in pcz]
    keep = [k for k, ok in enumerate(inside) if ok]
    xs = [n(met[k][0]) for k in keep]
    ys = [n(met[k][1]) for k in keep]
    pcx = [x.div(n(nx)) for x in xs]
    pcy = [y.div(n(ny)) for y in ys]
    if convention == "tsl":
        pcy = [Q.ONE.sub(y) for y in pcy]
    pcz = [pcz[k] for k in keep]
    m = len(keep)

    def mean(v):
        t = Q.ZERO
        for x in v:
            t = t.add(x)
        return t.div(n(m))

    def rows(*cols):
        return [c[k] for k in range(len(cols[0])) for c in cols]

    start = [[n(c) for i, _ in pairs for c in p[i]] for p in (pin, pout)]
    end = [[n(c) for _, j in pairs for c in p[j]] for p in (pin, pout)]
    lines = [n(c) for p in (pin, pout) for i, j in pairs for c in (*p[i], *p[j])]
    k = len(pairs)
    oi = [n(c) for a, b in zip(pout, pin) for c in (*a, *b)]
    return {
        "shape": (ny, nx), "nrows": ny, "ncols": nx, "n_points": len(pin), "n_lines": k,
        "lines": ((2, k, 4), lines), "lines_start": ((2, k, 2), start[0] + start[1]), "lines_end": ((2, k, 2), end[0] + end[1]),
        "line_lengths": ((2, k), lengths[0] + lengths[1]),
        "lines_out_in": ((len(pin), 4), oi),
        "lines_out_in_start": ((len(pin), 2), [n(c) for a in pout for c in a]),
        "lines_out_in_end": ((len(pin), 2), [n(c) for a in pin for c in a]),
        "pxy_within_detector": ((k,), [n(int(v)) for v in inside]),
        "pxy_all": ((m, 2), rows(xs, ys)), "pxy": ((2,), [mean(xs), mean(ys)]),
        "pcx_all": ((m,), pcx), "pcy_all": ((m,), pcy), "pcz_all": ((m,), pcz),
        "pc_all": ((m, 3), rows(pcx, pcy, pcz)), "pc": ((3,), [mean(pcx), mean(pcy), mean(pcz)]),
    }


def given(points, as_list):
    n = Num.const
    if as_list:
        return [tuple(n(c) for c in p) for p in points]
    return Grid((len(points), 2), [n(c) for p in points for c in p], DType("float64"))


def scan(proj, res: Result, thorough):
    cls = next((c for c in proj.classes.values() if c.name == "PCCalibrationMovingScreen"), None)
    if cls is None:
        return
    f = proj.lookup(cls, "__init__")
    where = f.where if f is not None else cls.qualname
    seen: set = set()
    for c, case in enumerate(SETS):
        for conv in (None, "tsl", "bruker"):
            for scaled in (False, True):
                px, b = (sym("px_size"), sym("binning", "int")) if scaled else (None, Q.ONE)
                for moved in (True, False):
                    dz = sym("delta_z") if moved else Q.ONE
                    if not moved and (scaled or conv != "bruker") or c in (2, 3) and (conv, scaled) not in (
                            (None, False), ("bruker", True)) and thorough is not True:
                        continue
                    what = (f"points {c + 1}, {conv or 'no'} convention, {'with' if scaled else 'without'} pixel size"
                            + ("" if moved else ", no distance"))

                    def one():
                        A = Engine(proj)
                        pats = [numbers(f"pattern {k}", (1, 1)) for k in "io"]
                        for p in pats:
                            p.axes, p.cells = case[0], [sym(f"{p.cells[0]!r}")] * (case[0][0] * case[0][1])
                        kw = {"delta_z": dz} if moved else {}
                        if scaled:
                            kw |= {"px_size": px, "binning": b}
                        if conv is not None:
                            kw["convention"] = conv
                        o = A.construct(cls, [*pats, given(case[1], bool(c % 2)), given(case[2], bool(c % 2))], kw)
                        v = ((2, *case[0]), [x for p in pats for x in p.cells])
                        told_or_compared(res, A, f"patterns ({what})", o, "patterns", v, where)
                        for name, v in expected(case, dz, px, b, conv or "tsl").items():
                            told_or_compared(res, A, f"{name} ({what})", o, name, v, where)
                        seen.update(A.functions)
                    described(res, "calibration", what, one, where)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


def told_or_compared(res, A, what, o, name, v, where):
    def one():
        got = A.attr(o, name, None)
        if isinstance(v, tuple) and isinstance(v[1], list):
            compare(res, "calibration", what, got, v[0], v[1], where)
        else:
            told(res, "calibration", what, A, got, v, where)
    described(res, "calibration", what, one, where)


SELFTEST = {"m.py": '''
import itertools
import numpy as np


class PCCalibrationMovingScreen:
    def __init__(self, pattern_in, pattern_out, points_in, points_out, delta_z=1.0, px_size=None, binning=1, convention="tsl"):
        self.patterns = np.stack([pattern_in, pattern_out])
        self.shape = pattern_in.shape
        self.nrows, self.ncols = self.shape
        self.points = np.stack([points_in, points_out]).astype(float)
        self.delta_z, self.px_size, self.binning, self.convention = delta_z, px_size, binning, convention
        self.n_points = len(points_in)
        self.pairs = list(itertools.combinations(range(self.n_points), 2))
        self.n_lines = len(self.pairs)
        i, j = zip(*self.pairs)
        self.lines_start = self.points[:, list(i)]
        self.lines_end = self.points[:, list(j)]
        self.lines = np.concatenate([self.lines_start, self.lines_end], axis=2)
        self.lines_out_in_start = self.points[1]
        self.lines_out_in_end = self.points[0]
        self.lines_out_in = np.concatenate([self.points[1], self.points[0]], axis=1)

    @property
    def line_lengths(self):
        d = self.lines_end - self.lines_start
        return np.sqrt(d[..., 0] ** 2 + d[..., 1] ** 2)

    @property
    def _all(self):
        out = []
        for i, j in self.pairs:
            p, q = self.points[1, i], self.points[1, j]
            u, v = self.points[0, i] - p, self.points[0, j] - q
            t = ((q[0] - p[0]) * v[1] - (q[1] - p[1]) * v[0]) / (u[0] * v[1] - u[1] * v[0])
            out.append([p[0] + t * u[0], p[1] + t * u[1]])
        return np.array(out)

    @property
    def pxy_within_detector(self):
        x, y = self._all[:, 0], self._all[:, 1]
        return (x > 0) & (x < self.ncols) & (y > 0) & (y < self.nrows)

    @property
    def pxy_all(self):
        return self._all[self.pxy_within_detector]

    @property
    def pxy(self):
        return np.nanmean(self.pxy_all, axis=0)

    @property
    def pcx_all(self):
        return self.pxy_all[:, 0] / self.ncols

    @property
    def pcy_all(self):
        y = self.pxy_all[:, 1] / self.nrows
        return 1 - y if self.convention == "tsl" else y

    @property
    def pcz_all(self):
        a, b = self.line_lengths
        z = self.delta_z * a / (b - a)
        if self.px_size is not None:
            z = z / (self.ncols * self.px_size * self.binning)
        return z[self.pxy_within_detector]

    @property
    def pc_all(self):
        return np.stack([self.pcx_all, self.pcy_all, self.pcz_all], axis=1)

    @property
    def pc(self):
        return self.pc_all.mean(axis=0)
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C51",
        explanation=(
            "abstract interpretation of PCCalibrationMovingScreen for sets of points, any distance moved, pixel size and "
            "binning: lines between all pairs of points and their lengths, the lines along which points move, where two of them "
            "meet, which of those places lie on the detector, and from these PCx, PCy and PCz, every estimate and their means, "
            "compared with their definition in exact arithmetic"
        ),
        assumptions=["6 sets of 2 to 4 points, with lines meeting on and off the detector and parallel ones, stand for any"],
    )
    scan(ctx.proj, res, ctx.tier == "thorough")
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "PCCalibrationMovingScreen not found")
    r = Result("C51")
    scan(project_from(dict(SELFTEST)), r, None)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("pcz_all (points 1, tsl convention, with pixel size)",)
    quiet = ("pcz_all (points 1, tsl convention, without", "pxy", "pcx", "pcy", "line")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt[:300]}) ({r.undecided[:3]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt[:300]})")
    res.require(not r.undecided, f"self-test: undecided ({r.undecided[:3]})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
