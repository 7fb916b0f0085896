"""C10: patterns are projected from the master pattern along one geometry."""

from __future__ import annotations

from .. import poly as Q
from ..alg import Alg, Arr, Given, LoopVar, Opaque, key
from ..algtools import DETECTOR, ERR, HALF, at_fixed, comps, judge, make, symbols
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from .c09 import P, gnomonic, matmul, run_one, sample_to_detector, sum_

ONE, ZERO, TWO = Q.ONE, Q.ZERO, Num.const(2)


def direction(pixel, Ny, Nx, M, pc=None):
    """Unit vector, in the sample frame, from the source point towards the
    centre of a pixel given by its number; M is detector to sample."""
    x, y, z = pc or P
    row, col = Q.f_floor(pixel.div(Nx)), Q.f_mod(pixel, Nx)
    gx, gy = gnomonic(col.add(HALF), row.add(HALF), Ny, Nx, (x, y, z))
    v = [gx.mul(z), gy.mul(z), z]
    w = [sum_([M[i][k].mul(v[k]) for k in range(3)]) for i in range(3)]
    n = Q.f_sqrt(sum_([c.mul(c) for c in w]))
    return [c.div(n) for c in w]


def functions(proj, *names):
    return [f for f in proj.funcs.values() if f.name in names and f.cls is None and f.parent is None]


def bind(func, args, kwargs):
    """Arguments of a call by parameter name."""
    out = dict(kwargs)
    for p, a in zip([p for p in func.params if p.kind == "pos"], args):
        out[p.name] = a
    return out


def quaternion_matrix(q):
    """Matrix turning vectors by a quaternion (a, b, c, d)."""
    a, b, c, d = q

    def s(*ts):
        return sum_([x.mul(y).mul(Num.const(k)) for k, x, y in ts])
    return [
        [s((1, a, a), (1, b, b), (-1, c, c), (-1, d, d)), s((2, b, c), (-2, a, d)), s((2, b, d), (2, a, c))],
        [s((2, b, c), (2, a, d)), s((1, a, a), (-1, b, b), (1, c, c), (-1, d, d)), s((2, c, d), (-2, a, b))],
        [s((2, b, d), (-2, a, c)), s((2, c, d), (2, a, b)), s((1, a, a), (-1, b, b), (-1, c, c), (1, d, d))],
    ]


def bunge_matrix(h1, h, h2):
    """Passive (sample to crystal) orientation matrix of Euler angles (2 h1,
    2 h, 2 h2)."""
    def cs(t):
        c, s = Q.f_cos(t), Q.f_sin(t)
        return c.mul(c).sub(s.mul(s)), TWO.mul(c).mul(s)
    (c1, s1), (c, s), (c2, s2) = cs(h1), cs(h), cs(h2)
    z1 = [[c1, s1, ZERO], [s1.neg(), c1, ZERO], [ZERO, ZERO, ONE]]
    x = [[ONE, ZERO, ZERO], [ZERO, c, s], [ZERO, s.neg(), c]]
    z2 = [[c2, s2, ZERO], [s2.neg(), c2, ZERO], [ZERO, ZERO, ONE]]
    return matmul(z2, matmul(x, z1))


def pixels(v, lin):
    """A value read from an array known to be linear in its indices."""
    def f(at):
        if at.fn == "?item" and len(at.args) == 2 and isinstance(at.args[1], tuple) and len(at.args[1]) == 3:
            i, j = at.args[1][1:]
            if isinstance(i, Num) and isinstance(j, Num):
                return lin(i, j)
        return None
    return Q.subs(v, f)


def scan(proj, ctx: Ctx, res: Result):
    seen: set[str] = set()
    S = symbols()
    Ny, Nx = S["shape"]
    mask = Given("mask", "array")
    pix = {"mask": sym("selected(mask)", "int"), "all": sym("selected(all)", "int")}
    Mg = [[sym(f"m{i}{j}") for j in range(3)] for i in range(3)]
    M = Arr([Arr(list(r)) for r in Mg])
    x0, y1 = gnomonic(ZERO, ZERO, Ny, Nx)
    x1, y0 = gnomonic(Nx, Ny, Ny, Nx)
    xyz = ("x", "y", "z")

    # --- from a detector
    cls = next((c for c in proj.classes.values() if c.name == DETECTOR), None)
    for f in functions(proj, "_get_direction_cosines_from_detector"):
        rad = [S[k].mul(Q.PI).div(Num.const(180)) for k in ("sample_tilt", "tilt", "azimuthal", "twist")]
        R = sample_to_detector(*rad)
        RT = [[R[j][i] for j in range(3)] for i in range(3)]
        for name, args in (("all", {}), ("mask", {"signal_mask": mask})):
            def one(name=name, args=args):
                a, o = make(proj, cls, P, "bruker")
                v = a.call_func(f, [o], args)
                seen.update(a.functions)
                judge(res, "pixel-direction", f"{f.name} ({name} pixels)", comps(a, v), direction(pix[name], Ny, Nx, RT),
                      f.where, xyz)
            run_one(res, f"{f.name} ({name})", one)
    # --- from the pieces, for one and for many projection centers
    for f in functions(proj, "_get_direction_cosines_for_fixed_pc", "_get_direction_cosines_for_varying_pc"):
        def one(f=f):
            a = Alg(proj)
            many = "varying" in f.name
            v = a.call_func(f, [Arr([x0, x1, y0, y1]), Arr(elem=P[2]) if many else P[2], Ny, Nx, M, mask], {})
            seen.update(a.functions)
            got = comps(a, v)
            judge(res, "pixel-direction", f.name, got and [at_fixed(x, ("PCx", "PCy", "PCz")) for x in got],
                  direction(pix["mask"], Ny, Nx, Mg), f.where, xyz)
        run_one(res, f.name, one)

    # --- rotations
    q, v = [sym(n) for n in ("qa", "qb", "qc", "qd")], [sym(n) for n in ("vx", "vy", "vz")]
    for f in functions(proj, "rotate_vector"):
        def one(f=f):
            a = Alg(proj)
            got = a.call_func(f, [Arr(list(q)), Arr(list(v))], {})
            Mq = quaternion_matrix(q)
            judge(res, "rotation", f.name, comps(a, got), [sum_([Mq[i][k].mul(v[k]) for k in range(3)]) for i in range(3)],
                  f.where, xyz)
        run_one(res, f.name, one)
    for f in functions(proj, "rotation_from_euler"):
        for t in (True, False):
            def one(f=f, t=t):
                a = Alg(proj)
                a.assume = lambda c: t
                h = [sym(n) for n in ("h1", "h", "h2")]
                r = a.call_func(f, [x.mul(TWO) for x in h], {})
                if not isinstance(r, Arr) or r.comps is None or len(r.comps) != 4:
                    res.undecided.append(f"{f.name}: not described")
                    return
                got = quaternion_matrix([a.num(c) for c in r.comps])
                want = bunge_matrix(*h)
                judge(res, "euler-angles", f.name, [c for r in got for c in r], [c for r in want for c in r], f.where,
                      [f"g[{i}, {j}]" for i in range(3) for j in range(3)])
            run_one(res, f.name, one)
    for f in functions(proj, "rotation_from_rodrigues"):
        for t in (True, False):
            def one(f=f, t=t):
                a = Alg(proj)
                a.assume = lambda c: t
                h = [sym(n) for n in ("r1", "r2", "r3")]
                r = a.call_func(f, list(h), {})
                if not isinstance(r, Arr) or r.comps is None or len(r.comps) != 4:
                    res.undecided.append(f"{f.name}: not described")
                    return
                g = [a.num(c) for c in r.comps]
                judge(res, "rodrigues", f.name, [g[i + 1].div(g[0]) for i in range(3)], h, f.where, ("r1", "r2", "r3"))
            run_one(res, f.name, one)

    # --- place in the master pattern and interpolation
    npx, npy, scale = sym("npx", "int"), sym("npy", "int"), sym("scale")
    lam = None
    for f in functions(proj, "_vector2lambert"):
        def one(f=f):
            nonlocal lam
            a = Alg(proj)
            r = a.call_func(f, [Arr(list(v))], {})
            if isinstance(r, Arr) and r.comps is not None and len(r.comps) == 2:
                lam = [a.num(c) for c in r.comps]
        run_one(res, f.name, one)
    for f in functions(proj, "_get_lambert_interpolation_parameters"):
        def one(f=f):
            a = Alg(proj)
            r = a.call_func(f, [], {"v": Arr(list(v)), "npx": npx, "npy": npy, "scale": scale})
            seen.update(a.functions)
            if not isinstance(r, tuple) or len(r) != 8:
                res.undecided.append(f"{f.name}: not described")
                return
            i, j, ip, jp, di, dj, dim, djm = (a.num(x) for x in r)
            judge(res, "weights", f.name, [di.add(dim), dj.add(djm)], [ONE, ONE], f.where, ("row weights", "column weights"))
            if lam is not None:
                k = Q.f_sqrt(Q.PI.div(TWO))
                judge(res, "place", f.name, [i.add(di), j.add(dj)],
                      [scale.add(scale.mul(lam[1]).div(k)), scale.add(scale.mul(lam[0]).div(k))], f.where, ("row", "column"))
        run_one(res, f.name, one)
    al, be, ga = sym("alpha"), sym("beta"), sym("gamma")
    for f in functions(proj, "_get_pixel_from_master_pattern"):
        def one(f=f):
            a = Alg(proj)
            i, j, di, dj = sym("i", "int"), sym("j", "int"), sym("di"), sym("dj")
            r = a.call_func(f, [], {
                "mp": Given("mp", "array"), "nii": i, "nij": j, "niip": i.add(ONE), "nijp": j.add(ONE), "di": di, "dj": dj,
                "dim": ONE.sub(di), "djm": ONE.sub(dj)})
            seen.update(a.functions)

            def lin(x, y):
                return al.mul(x).add(be.mul(y)).add(ga)
            judge(res, "interpolation", f.name, [pixels(a.num(r), lin)], [lin(i.add(di), j.add(dj))], f.where,
                  ("value between pixels of a linear pattern",))
        run_one(res, f.name, one)

    # --- one pattern: the hemisphere the direction points into
    up, low = Given("upper", "array"), Given("lower", "array")
    common = {"master_upper": up, "master_lower": low, "npx": npx, "npy": npy, "scale": scale, "rescale": False,
              "out_min": ZERO, "out_max": ONE, "dtype_out": Given("dtype")}
    getpix = (functions(proj, "_get_pixel_from_master_pattern") or [None])[0]
    lamb = (functions(proj, "_get_lambert_interpolation_parameters") or [None])[0]
    for f in functions(proj, "_project_single_pattern_from_master_pattern"):
        # turned half a turn about x: z of the direction in the crystal is minus that in the sample
        for z, want in ((Num.const(-1).div(TWO), up), (Num.const(1).div(TWO), low)):
            def one(f=f, z=z, want=want):
                if getpix is None or lamb is None:
                    res.undecided.append(f"{f.name}: parts not found")
                    return
                calls, at = [], []

                def hook(A, args, kwargs, s):
                    calls.append(bind(getpix, args, kwargs))
                    return sym("pixel")

                def hook2(A, args, kwargs, s):
                    at.append(bind(lamb, args, kwargs))
                    return tuple(Arr(elem=sym(n)) for n in ("nii", "nij", "niip", "nijp", "di", "dj", "dim", "djm"))
                a = Alg(proj, {getpix.name: hook, lamb.name: hook2})
                r = a.call_func(f, [], {"rotation": Arr([ZERO, ONE, ZERO, ZERO]), "direction_cosines": Arr([sym("vx"), sym("vy"), z]),
                                        **common})
                seen.update(a.functions)
                where = f.where
                side = "upper" if want is up else "lower"
                res.count("obligations")
                if len(calls) != 1 or len(at) != 1:
                    res.undecided.append(f"{f.name}: {len(calls)} interpolations")
                    return
                mp = calls[0].get("mp")
                if not isinstance(mp, Given):
                    res.undecided.append(f"{f.name}: master pattern of the interpolation not described")
                elif mp is not want:
                    res.add("hemisphere", f"{f.name}: {side} hemisphere",
                            f"directions pointing into the {side} hemisphere are looked up in the {mp.fn} one", where)
                else:
                    res.count("proved_equal")
                judge(res, "pattern-value", f"{f.name}: {side} hemisphere", [a.num(r)], [sym("pixel")], where, ("value",))
                for n in ("nii", "nij", "niip", "nijp", "di", "dj", "dim", "djm"):
                    judge(res, "interpolation-arguments", f"{f.name}: {n}", [a.num(calls[0][n])], [sym(n)], where, (n,))
                for n in ("npx", "npy", "scale"):
                    judge(res, "interpolation-arguments", f"{f.name}: {n}", [a.num(at[0][n])], [common[n]], where, (n,))
            run_one(res, f.name, one)

        def rotated(f=f):
            at = []

            def hook2(A, args, kwargs, s):
                at.append(bind(lamb, args, kwargs))
                return tuple(Arr(elem=sym(n)) for n in ("nii", "nij", "niip", "nijp", "di", "dj", "dim", "djm"))
            a = Alg(proj, {getpix.name: lambda A, *x: sym("pixel"), lamb.name: hook2})
            a.call_func(f, [], {"rotation": Arr(list(q)), "direction_cosines": Arr(list(v)), **common})
            Mq = quaternion_matrix(q)
            judge(res, "crystal-direction", f.name, comps(a, at[0].get("v")),
                  [sum_([Mq[i][k].mul(v[k]) for k in range(3)]) for i in range(3)], f.where, xyz)
        if getpix is not None and lamb is not None:
            run_one(res, f.name, rotated)

    # --- many patterns: the i-th with the i-th rotation and projection center
    single = (functions(proj, "_project_single_pattern_from_master_pattern") or [None])[0]
    for f in functions(proj, "_project_patterns_from_master_pattern_with_fixed_pc",
                       "_project_patterns_from_master_pattern_with_varying_pc"):
        def one(f=f):
            if single is None:
                return
            calls = []

            def hook(A, args, kwargs, s):
                calls.append(bind(single, args, kwargs))
                return sym("pattern")
            a = Alg(proj, {single.name: hook})
            rot, dc = Given("rotations", "array"), Given("dc", "array")
            given = {"rotations": rot, "direction_cosines": dc, **common, "rescale": Given("rescale"), "out_min": Given("min"),
                     "out_max": Given("max")}
            r = a.call_func(f, [], given)
            seen.update(a.functions)
            if len(calls) != 1:
                res.undecided.append(f"{f.name}: {len(calls)} projections")
                return
            c = calls[0]
            if isinstance(r, Arr) and r.comps is not None and len(r.comps) == 1:
                r = r.comps[0]
            judge(res, "pattern-value", f.name, [a.num(r)], [sym("pattern")], f.where, ("value",))
            many = "varying" in f.name
            idx = element_of(c.get("rotation"), rot)
            didx = element_of(c.get("direction_cosines"), dc)
            res.count("obligations", 2)
            w = f.where
            if idx is None:
                res.undecided.append(f"{f.name}: rotation of a pattern not described")
            elif not many:
                if c.get("direction_cosines") is dc:
                    res.count("proved_equal", 2)
                else:
                    res.undecided.append(f"{f.name}: directions not described")
            elif didx is None:
                if c.get("direction_cosines") is dc:
                    res.add("pattern-pairing", f.name, "all projection centers are handed to every pattern", w)
                else:
                    res.undecided.append(f"{f.name}: directions not described")
            elif Q.same(key(idx), key(didx)):
                res.count("proved_equal", 2)
            else:
                res.add("pattern-pairing", f.name, "a pattern is made from the rotation and the projection center at different "
                        "positions", w)
            for n in ("master_upper", "master_lower", "npx", "npy", "scale", "rescale", "out_min", "out_max", "dtype_out"):
                res.count("obligations")
                g = c.get(n)
                if n in c and Q.same(key(g), key(given[n])):
                    res.count("proved_equal")
                else:
                    res.add("projection-arguments", f"{f.name}: {n}", f"{n} handed on is {g!r}", w)
        run_one(res, f.name, one)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


def element_of(x, whole):
    """Index of an element of an input array, or None."""
    if isinstance(x, Opaque) and x.fn == "item" and x.args[0] is whole:
        return x.args[1]
    return None


SELFTEST = {"m.py": '''
import numpy as np
import numba as nb


def _get_direction_cosines_for_fixed_pc(gb, pcz, nrows, ncols, om, mask):
    dx = (gb[1] - gb[0]) / ncols
    dy = (gb[3] - gb[2]) / nrows
    idx = np.arange(nrows * ncols)[mask]
    out = np.zeros((idx.size, 3))
    for i in nb.prange(idx.size):
        out[i, 0] = (gb[0] + (np.mod(idx[i], ncols) + 0.5) * dx) * pcz
        out[i, 1] = (gb[3] - (idx[i] // ncols + 0.5) * dy) * pcz
        out[i, 2] = pcz
    out = np.dot(out, om.T)
    return out / np.sqrt(np.sum(out ** 2, axis=-1))


def _get_direction_cosines_for_varying_pc(gb, pcz, nrows, ncols, om, mask):
    dx = (gb[:, 1] - gb[:, 0]) / ncols
    dy = (gb[:, 3] - gb[:, 2]) / nrows
    idx = np.arange(nrows * ncols)[mask]
    out = np.zeros((pcz.size, idx.size, 3))
    for j in range(pcz.size):
        for i in range(idx.size):
            out[j, i, 0] = (gb[j, 0] + np.mod(idx[i], ncols) * dx[j]) * pcz[j]
            out[j, i, 1] = (gb[j, 3] - (idx[i] // ncols + 0.5) * dy[j]) * pcz[j]
            out[j, i, 2] = pcz[j]
    out = np.dot(out, om.T)
    return out / np.sqrt(np.sum(out ** 2, axis=-1))


def rotate_vector(rotation, vector):
    a, b, c, d = rotation
    t = 2 * np.cross(rotation[1:], vector)
    x, y, z = vector[:, 0], vector[:, 1], vector[:, 2]
    tx, ty, tz = 2 * (c * z - d * y), 2 * (d * x - b * z), 2 * (b * y - c * x)
    out = np.zeros(vector.shape)
    out[:, 0] = x * (a**2 + b**2 + c**2 + d**2) + a * tx + c * tz - d * ty
    out[:, 1] = y * (a**2 + b**2 + c**2 + d**2) + a * ty + d * tx - b * tz
    out[:, 2] = z * (a**2 + b**2 + c**2 + d**2) + a * tz + b * ty - c * tx
    return out


def rotation_from_euler(a, b, c):
    s, d = (a + c) / 2, (a - c) / 2
    k, n = np.cos(b / 2), np.sin(b / 2)
    return np.array([k * np.cos(s), n * np.cos(d), n * np.sin(d), k * np.sin(s)])


def _get_pixel_from_master_pattern(mp, nii, nij, niip, nijp, di, dj, dim, djm):
    top = mp[nii, nij] * djm + mp[nii, nijp] * dj
    bottom = mp[niip, nij] * djm + mp[niip, nijp] * dj
    return top * di + bottom * dim


def _get_lambert_interpolation_parameters(v, npx, npy, scale):
    return v


def _project_single_pattern_from_master_pattern(rotation, direction_cosines, master_upper, master_lower, npx, npy, scale,
                                                rescale, out_min, out_max, dtype_out):
    v = rotate_vector(rotation, direction_cosines)
    par = _get_lambert_interpolation_parameters(v=v, npx=npx, npy=npy, scale=scale)
    out = np.zeros(v.shape[0])
    for i in range(out.size):
        mp = master_upper if v[i, 2] <= 0 else master_lower
        out[i] = _get_pixel_from_master_pattern(mp, *[p[i] for p in par])
    return out


def _project_patterns_from_master_pattern_with_varying_pc(rotations, direction_cosines, master_upper, master_lower, npx, npy,
                                                          scale, rescale, out_min, out_max, dtype_out):
    out = np.zeros((len(rotations), direction_cosines.shape[1]))
    for i in range(len(rotations)):
        out[i] = _project_single_pattern_from_master_pattern(rotations[i], direction_cosines[0], master_upper, master_lower,
                                                             npy, npx, scale, rescale, out_min, out_max, dtype_out)
    return out
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C10",
        explanation=(
            "value numbering with algebraic normal forms of the functions projecting patterns from a master pattern: the "
            "direction of a pixel centre for one and for many projection centers, the crystal rotation, the hemisphere, the "
            "place in the master pattern and the interpolation weights are compared with their definitions; arguments are "
            "followed from call to call"
        ),
        assumptions=["array operations act elementwise with broadcasting; floating point rounding is not considered",
                     "numpy.arange(start, stop, step) over a detector side has its k-th element at start + k step"],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C10")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    want = ("pixel-direction:_get_direction_cosines_for_varying_pc", "euler-angles:", "interpolation:", "hemisphere:",
            "pattern-pairing:", "npx", "npy")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}; {r.undecided})")
    quiet = ("_for_fixed_pc", "rotation:rotate_vector", "scale", "interpolation-arguments")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
