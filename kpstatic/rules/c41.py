"""C41: the similarity metrics are the normalized cross-correlation and the
normalized dot product of the unmasked pixels."""

from __future__ import annotations

from .. import poly as Q
from ..alg import Dict
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from ..tens import Axis, DType, TAlg, Ten, array
from .c43 import compare, described

SY, SX = Q.axis("Sy", 5), Q.axis("Sx", 8)
NY, NX = Q.axis("Ry", 3), Q.axis("Rx", 4)
ND = Q.axis("Nd", 3)
SIG, NAV = (SY, SX), (NY, NX)
METRICS = ("NormalizedCrossCorrelationMetric", "NormalizedDotProductMetric")


class Engine(TAlg):
    def __init__(self, proj, dask):
        super().__init__(proj)
        self.dask = dask

    def lazy(self, v):
        return self.dask

    def construct_metric(self, c, **kw):
        return self.construct(c, [], Dict(kw))


def count(axes):
    n = Q.ONE
    for a in axes:
        n = n.mul(sym(a, "int"))
    return n


def similarity(e: Num, d: Num, keep, centred):
    """Definition of the metric on the pixels kept."""
    w = Q.ONE if keep is None else keep

    def total(x):
        return Q.f_rsum(SIG, x.mul(w))
    n = total(Q.ONE)
    if centred:
        e, d = e.sub(total(e).div(n)), d.sub(total(d).div(n))
    return total(e.mul(d)).div(Q.f_sqrt(total(e.mul(e))).mul(Q.f_sqrt(total(d.mul(d)))))


def scan(proj, res: Result):
    seen = set()
    for c in sorted((c for c in proj.classes.values() if c.name in METRICS), key=lambda c: c.name):
        centred = c.name.startswith("NormalizedCross")
        call = proj.lookup(c, "__call__")
        steps = [proj.lookup(c, n) for n in ("prepare_experimental", "prepare_dictionary", "match")]
        for dask in (False, True):
            for nav_mask in (False, True):
                for sig_mask in (False, True):
                    for rechunk in (False, True):
                        for flat in (False, True):
                            for way in ("call", "steps"):
                                if (call if way == "call" else all(steps)) is None:
                                    continue
                                what = (f"{c.name}({'dask' if dask else 'NumPy'} arrays, navigation mask={nav_mask}, "
                                        f"signal mask={sig_mask}, rechunk={rechunk}, {'one axis of' if flat else 'map of'} patterns, "
                                        f"{'called' if way == 'call' else 'step by step'})")

                                def one(c=c, dask=dask, nav_mask=nav_mask, sig_mask=sig_mask, rechunk=rechunk, flat=flat, way=way,
                                        what=what, call=call, steps=steps):
                                    a = Engine(proj, dask)
                                    nm = array("navigation mask", NAV, DType("bool"), sort="bool")
                                    sm = array("signal mask", SIG, DType("bool"), sort="bool")
                                    m = a.construct_metric(
                                        c, n_experimental_patterns=count(NAV), n_dictionary_patterns=sym(ND, "int"),
                                        navigation_mask=nm if nav_mask else None, signal_mask=sm if sig_mask else None,
                                        dtype="float32", rechunk=rechunk)
                                    e = array("experimental", NAV + SIG, DType("uint8"))
                                    d = array("dictionary", (ND,) + SIG, DType("float32"))
                                    if flat:
                                        e = Ten([Axis(*NAV), *SIG], e.elem, e.dtype)
                                    if way == "call":
                                        r = a.call_func(call, [e, d], {}, self_=m)
                                    else:
                                        d = Ten([Axis(ND), Axis(*SIG)], d.elem, d.dtype)
                                        pe = a.call_func(steps[0], [e], {}, self_=m)
                                        pd = a.call_func(steps[1], [d], {}, self_=m)
                                        r = a.call_func(steps[2], [pe, pd], {}, self_=m)
                                    seen.update(a.functions)
                                    kept = Q.ONE.sub(sm.elem) if sig_mask else None
                                    want = Ten([Axis(*NAV, mask=Q.ONE.sub(nm.elem) if nav_mask else None), Axis(ND)],
                                               similarity(e.elem, d.elem, kept, centred))
                                    compare(res, "metric", what, r, want, (call or steps[2]).where)
                                described(res, "metric", what, one, (call or steps[2]).where)

        def sign(c=c):
            a = Engine(proj, False)
            m = a.construct_metric(c)
            v = a.attr(m, "sign", None)
            if isinstance(v, Num) and v.value is not None:
                res.count("obligations")
                if v.value <= 0:
                    res.add("sign", c.name, f"sign is {v!r}, though greater values are better", (call or steps[0]).where)
                else:
                    res.count("proved_equal")
            else:
                res.undecided.append(f"{c.name}.sign: {v!r}")
        described(res, "sign", f"{c.name}.sign", sign, "")
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import dask.array as da
import numpy as np


class NormalizedDotProductMetric:
    sign = 1

    def __init__(self, n_experimental_patterns=None, n_dictionary_patterns=None, navigation_mask=None, signal_mask=None,
                 dtype="float32", rechunk=False):
        self.n_experimental_patterns, self.n_dictionary_patterns = n_experimental_patterns, n_dictionary_patterns
        self.navigation_mask, self.signal_mask = navigation_mask, signal_mask

    def prepare_experimental(self, patterns):
        patterns = patterns.reshape((self.n_experimental_patterns, -1))
        if self.navigation_mask is not None:
            patterns = patterns[self.navigation_mask.ravel()]
        return self.prepare_dictionary(patterns)

    def prepare_dictionary(self, patterns):
        if self.signal_mask is not None:
            patterns = patterns[:, ~self.signal_mask.ravel()]
        return patterns / np.linalg.norm(patterns, axis=1)[:, np.newaxis]

    def match(self, experimental, dictionary):
        return experimental @ dictionary.T


class NormalizedCrossCorrelationMetric(NormalizedDotProductMetric):
    sign = -1

    def prepare_experimental(self, patterns):
        patterns = patterns - np.mean(patterns, axis=(-1, -2), keepdims=True)
        return super().prepare_experimental(patterns)

    def prepare_dictionary(self, patterns):
        return super().prepare_dictionary(patterns - np.mean(patterns, axis=1, keepdims=True))
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C41",
        explanation=(
            "value numbering of array programs: experimental and dictionary patterns are arrays with named axes and unknown "
            "elements, masks are unknown selections. The score of a generic pair of patterns, as called and step by step, for "
            "NumPy and dask arrays and with every combination of masks and rechunking, is compared with the metric's definition "
            "on the pixels kept; rows of the result must be the experimental patterns kept, columns the dictionary's"
        ),
        assumptions=["exact arithmetic: rounding is not considered", "dask and NumPy reductions, einsum and reshapes do as documented"],
    )
    scan(ctx.proj, res)
    res.require(res.coverage.get("obligations", 0) + len(res.undecided) > 0, "no similarity metrics found")
    r = Result("C41")
    scan(project_from(dict(SELFTEST)), r)
    txt = " ".join(f.rule + ":" + f.construct + ";" for f in r.findings)
    want = ("metric:NormalizedDotProductMetric(NumPy arrays, navigation mask=True, signal mask=False",
            "metric:NormalizedCrossCorrelationMetric(NumPy arrays, navigation mask=False, signal mask=True",
            "sign:NormalizedCrossCorrelationMetric;")
    quiet = ("NormalizedDotProductMetric(NumPy arrays, navigation mask=False, signal mask=False",
             "NormalizedDotProductMetric(dask arrays, navigation mask=False, signal mask=True", "sign:NormalizedDotProductMetric")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}) ({r.undecided[:5]})")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
