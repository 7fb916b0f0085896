"""C09: pixel, gnomonic and sample coordinates of a detector agree."""

from __future__ import annotations

from .. import poly as Q
from ..alg import Alg, Arr, Dict, Fn, Given, Obj, Opaque
from ..algtools import DETECTOR, ERR, at_fixed, get, judge, make, symbols
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from

P = [sym("PCx"), sym("PCy"), sym("PCz")]
ONE = Q.ONE


def gnomonic(X, Y, Ny, Nx, pc=None):
    """Gnomonic coordinates (x, y) of the point X pixels from the left and Y
    from the top of the detector, by the documented definition."""
    x, y, z = pc or P
    asp = Nx.div(Ny)
    return X.div(Nx).sub(x).mul(asp).div(z), y.sub(Y.div(Ny)).div(z)


def matmul(a, b):
    return [[sum_([a[i][k].mul(b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def sum_(xs):
    r = Q.ZERO
    for x in xs:
        r = r.add(x)
    return r


def turn(k, al):
    """Rows of new axes after turning about own axis k."""
    c, s, z, u = Q.f_cos(al), Q.f_sin(al), Q.ZERO, Q.ONE
    n = s.neg()
    return {0: [[u, z, z], [z, c, s], [z, n, c]], 1: [[c, z, n], [z, u, z], [s, z, c]],
            2: [[c, s, z], [n, c, z], [z, z, u]]}[k]


def sample_to_detector(sigma, theta, omega, gamma):
    """Detector axes in the sample frame: from X_d along Y_s, Y_d along Z_s
    and Z_d along X_s, turned about own X_d by theta - sigma, about own Y_d
    by -omega and about own Z_d by -gamma."""
    z, u = Q.ZERO, Q.ONE
    m0 = [[z, u, z], [z, z, u], [u, z, z]]
    return matmul(turn(2, gamma.neg()), matmul(turn(1, omega.neg()), matmul(turn(0, theta.sub(sigma)), m0)))


def rows(a, v):
    """A 3x3 matrix of normal forms, or None."""
    if isinstance(v, Arr) and v.comps is not None and len(v.comps) == 3 and all(
            isinstance(r, Arr) and r.comps is not None and len(r.comps) == 3 for r in v.comps):
        return [[a.num(c) for c in r.comps] for r in v.comps]
    return None


def rotation_matrix(a, v):
    """The matrix a rotation is made from."""
    if isinstance(v, Num):
        at = v.single()
        v = at
    if isinstance(v, Opaque) and v.fn == "call" and str(v.args[0]).endswith("Rotation.from_matrix"):
        args = v.args[1]
        if len(args) == 1:
            return rows(a, args[0])
    return None


def values(a, v, n):
    if isinstance(v, Arr) and v.comps is not None and len(v.comps) == n:
        return [a.num(c) for c in v.comps]
    return None


PCS = ("PCx", "PCy", "PCz")


def run_one(res, label, fn):
    try:
        fn()
    except Exception as e:  # not described by the engine
        res.undecided.append(f"{label}: {type(e).__name__} {e}")


def shapes(proj, res, fn):
    """Shape of converted coordinates.  Coordinates are one set for all
    positions unless there is a whole set of them for each."""
    for nav in ((1,), (3,), (2, 3), (3, 2)):
        for co in ((3, 2), (2, 2), (1, 2), (3, 4, 2), (1, 4, 2), (2, 3, 2), (2, 3, 4, 2), (3, 2, 4, 2), (2, 3, 1, 2)):
            own = len(co) >= len(nav) + 2 and co[: len(nav)] == nav
            want = co if own else nav + co

            def one(nav=nav, co=co, want=want):
                a = Alg(proj)
                sizes = []

                def zeros(A, args, kwargs, s):
                    sizes.append(args[0] if args else kwargs.get("shape"))
                    return Obj(None, "out", {"__setitem__": Fn("set", lambda *x: None)})
                a.hooks["numpy.zeros"] = a.hooks["numpy.empty"] = zeros
                n = tuple(Num.const(k) for k in nav)
                c = tuple(Num.const(k) for k in co)
                conv = Dict()
                for k in ("m_x", "c_x", "m_y", "c_y"):
                    conv[k] = Given(k, "array")
                    a.known[k] = {"shape": n, "ndim": Num.const(len(n))}
                a.known["coords"] = {"shape": c, "ndim": Num.const(len(c))}
                a.call_func(fn, [Given("coords", "array"), conv], {})
                got = None
                if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)) and all(
                        isinstance(x, Num) and x.value is not None for x in sizes[0]):
                    got = tuple(int(x.value) for x in sizes[0])
                res.count("obligations")
                if got is None:
                    res.undecided.append(f"{fn.name}: shape for {nav}, {co} not described")
                elif got != want:
                    res.add("coordinate-shape", f"{fn.name}: {nav}, {co}",
                            f"coordinates of shape {co} converted for a detector with projection centers of shape {nav} are "
                            f"of shape {got}, not {want}", fn.where)
                else:
                    res.count("proved_equal")
            run_one(res, f"{fn.name} {nav} {co}", one)


def scan(proj, ctx: Ctx, res: Result):
    cls = next((c for c in proj.classes.values() if c.name == DETECTOR), None)
    if cls is None:
        res.undecided.append("no class EBSDDetector")
        return
    S = symbols()
    Ny, Nx = S["shape"]
    seen: set[str] = set()
    b, d = S["binning"], S["px_size"]
    a, o = None, None
    try:
        a, o = make(proj, cls, P, "bruker")
    except ERR as e:
        res.undecided.append(f"constructor: {e}")
        return
    zero = Q.ZERO
    x0, y1 = gnomonic(zero, zero, Ny, Nx)
    x1, y0 = gnomonic(Nx, Ny, Ny, Nx)

    def where(name):
        m = proj.lookup(cls, name)
        return m.where if m else ""

    # --- single values
    corner = [x.mul(x).add(y.mul(y)) for x in (x0, x1) for y in (y0, y1)]
    mx = corner[0]
    for c in corner[1:]:
        mx = Q.f_max(mx, c)
    single = {
        "x_min": x0, "x_max": x1, "y_min": y0, "y_max": y1, "aspect_ratio": Nx.div(Ny), "nrows": Ny, "ncols": Nx,
        "size": Nx.mul(Ny), "height": Ny.mul(d).mul(b), "width": Nx.mul(d).mul(b), "px_size_binned": d.mul(b),
        "specimen_scintillator_distance": P[2].mul(Ny).mul(d).mul(b), "r_max": Q.f_sqrt(mx),
    }
    several = {
        "x_range": [x0, x1], "y_range": [y0, y1], "gnomonic_bounds": [x0, x1, y0, y1],
        "bounds": [zero, Nx.sub(ONE), zero, Ny.sub(ONE)], "unbinned_shape": [Ny.mul(b), Nx.mul(b)],
        "shape": [Ny, Nx], "euler": [S["azimuthal"].neg(), Num.const(90).add(S["tilt"]), S["twist"].neg()],
    }
    for name, want in {**single, **several}.items():
        if proj.lookup(cls, name) is None:
            res.undecided.append(f"no {name}")
            continue

        def one(name=name, want=want):
            v = a.attr(o, name, None)
            if isinstance(want, list):
                if isinstance(v, (tuple, list)):
                    v = Arr([a.num(x) for x in v])
                got = values(a, v, len(want))
                judge(res, "geometry", name, got, want, where(name), [f"[{i}]" for i in range(len(want))])
            else:
                if isinstance(v, Arr) and v.comps is not None and len(v.comps) == 1:
                    v = v.comps[0]
                if isinstance(v, Arr) and v.comps is None:
                    v = v.elem
                judge(res, "geometry", name, [a.num(v)], [want], where(name), ("value",))
        run_one(res, name, one)

    # --- conversion of coordinates, both ways, and composed
    row, col, gy, gx = sym("row"), sym("col"), sym("gy"), sym("gx")

    def here(v):
        w = values(a, v, 2)
        return w and [at_fixed(x, PCS) for x in w]

    for pos in (None, 0):
        kw = {} if pos is None else {"pos": Num.const(pos)}
        tag = "" if pos is None else ", pos=0"
        p = P if pos is None else [sym(f"{n}[0]") for n in PCS]
        X, Y = gnomonic(col, row, Ny, Nx, p)
        back_row = p[1].sub(gy.mul(p[2])).mul(Ny)
        back_col = gx.mul(p[2]).mul(Ny).div(Nx).add(p[0]).mul(Nx)

        def conv(kw=kw, tag=tag, X=X, Y=Y):
            v = get(a, o, "to_gnomonic_coords", Arr([row, col]), **kw)
            judge(res, "pixel-to-gnomonic", f"to_gnomonic_coords(coords{tag})", here(v), [Y, X],
                  where("to_gnomonic_coords"), ("gy", "gx"))
            r = get(a, o, "to_pixel_coords", v, **kw)
            judge(res, "coordinate-round-trip", f"to_pixel_coords(to_gnomonic_coords(coords{tag}))", here(r),
                  [row, col], where("to_pixel_coords"), ("row", "column"))

        def conv2(kw=kw, tag=tag, back_row=back_row, back_col=back_col):
            v = get(a, o, "to_pixel_coords", Arr([gy, gx]), **kw)
            judge(res, "gnomonic-to-pixel", f"to_pixel_coords(coords{tag})", here(v), [back_row, back_col],
                  where("to_pixel_coords"), ("row", "column"))
        run_one(res, "to_gnomonic_coords" + tag, conv)
        run_one(res, "to_pixel_coords" + tag, conv2)

    # --- coordinates of every shape are converted for every position
    for fn in proj.funcs.values():
        if fn.name == "convert_coordinates" and fn.cls is None:
            shapes(proj, res, fn)

    # --- bounds computed outside the class, during refinement
    for fn in proj.funcs.values():
        if fn.name != "get_gnomonic_bounds" or fn.cls is not None:
            continue

        def bounds(fn=fn):
            kw = dict(zip(("nrows", "ncols", "pcx", "pcy", "pcz"), (Ny, Nx, *P)))
            if set(kw) <= set(fn.param_names):
                v = a.call_func(fn, [], kw)
            else:
                v = a.call_func(fn, list(kw.values()), {})
            judge(res, "bounds-in-refinement", fn.name, values(a, v, 4), [x0, x1, y0, y1], fn.where,
                  ("x_min", "x_max", "y_min", "y_max"))
        run_one(res, fn.name, bounds)

    # --- a cropped detector sees the kept pixels in the same directions
    if proj.lookup(cls, "crop") is not None:
        def crop():
            top, bottom, left, right = (sym(n, "sint") for n in ("top", "bottom", "left", "right"))
            n = get(a, o, "crop", (top, bottom, left, right))
            t, l = Q.f_max(zero, top), Q.f_max(zero, left)
            bt, r = Q.f_min(bottom, Ny), Q.f_min(right, Nx)
            w = where("crop")
            judge(res, "crop", "crop(): shape", [a.num(a.attr(n, k, None)) for k in ("nrows", "ncols")],
                  [bt.sub(t), r.sub(l)], w, ("rows", "columns"))
            xl, yt = gnomonic(l, t, Ny, Nx)
            xr, yb = gnomonic(r, bt, Ny, Nx)
            # kept pixels are seen in unchanged directions: bounds of the crop are those of the kept region
            judge(res, "crop", "crop(): gnomonic bounds", values(a, a.attr(n, "gnomonic_bounds", None), 4),
                  [xl, xr, yb, yt], w, ("x_min", "x_max", "y_min", "y_max"))
            for k in ("tilt", "azimuthal", "twist", "sample_tilt", "px_size", "binning"):
                judge(res, "crop", f"crop(): {k}", [a.num(a.attr(n, k, None))], [a.num(a.attr(o, k, None))], w, (k,))
        run_one(res, "crop", crop)

    # --- orientation of the detector
    rad = [S[k].mul(Q.PI).div(Num.const(180)) for k in ("sample_tilt", "tilt", "azimuthal", "twist")]
    want = sample_to_detector(*rad)
    if proj.lookup(cls, "sample_to_detector") is not None:
        def rot():
            v = a.attr(o, "sample_to_detector", None)
            m = rotation_matrix(a, v)
            if m is None:
                res.undecided.append("sample_to_detector: matrix not described")
                return
            judge(res, "detector-orientation", "sample_to_detector", [c for r in m for c in r], [c for r in want for c in r],
                  where("sample_to_detector"), [f"M[{i}, {j}]" for i in range(3) for j in range(3)])
            # it is a rotation for all angles
            mt = [[m[j][i] for j in range(3)] for i in range(3)]
            p = matmul(m, mt)
            eye = [[ONE if i == j else zero for j in range(3)] for i in range(3)]
            judge(res, "detector-rotation", "sample_to_detector: orthonormal", [c for r in p for c in r],
                  [c for r in eye for c in r], where("sample_to_detector"), [f"(M M^T)[{i}, {j}]" for i in range(3) for j in range(3)])
            det = sum_([m[0][i].mul(m[1][(i + 1) % 3].mul(m[2][(i + 2) % 3]).sub(m[1][(i + 2) % 3].mul(m[2][(i + 1) % 3])))
                        for i in range(3)])
            judge(res, "detector-rotation", "sample_to_detector: determinant", [det], [ONE], where("sample_to_detector"), ("det",))
        run_one(res, "sample_to_detector", rot)
    seen |= a.functions
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"m.py": '''
import numpy as np
from orix.quaternion import Rotation


def get_gnomonic_bounds(nrows, ncols, pcx, pcy, pcz):
    asp = ncols / nrows
    return np.array([-asp * pcx / pcz, asp * (1 - pcx) / pcz, -pcy / pcz, (1 - pcy) / pcz])


class EBSDDetector:
    def __init__(self, shape=(1, 1), px_size=1.0, binning=1, tilt=0.0, azimuthal=0.0, twist=0.0, sample_tilt=70.0,
                 pc=(0.5, 0.5, 0.5), convention="bruker"):
        self.nrows, self.ncols = shape
        self.px_size = px_size
        self.binning = binning
        self.tilt, self.azimuthal, self.twist, self.sample_tilt = tilt, azimuthal, twist, sample_tilt
        self.pcx, self.pcy, self.pcz = (pc[..., i] for i in range(3))

    @property
    def x_min(self):
        return -self.pcx / self.pcz * self.ncols / self.nrows

    @property
    def x_max(self):
        return (1 - self.pcx) / self.pcz

    @property
    def height(self):
        return self.binning * self.px_size * self.nrows

    @property
    def euler(self):
        return np.array([-self.azimuthal, 90 + self.tilt, self.twist])

    def _corner(self, name):
        return getattr(self, name)

    @property
    def gnomonic_bounds(self):
        k = self.ncols / self.nrows
        return np.stack((-k * self.pcx / self.pcz, k * (1 - self.pcx) / self.pcz, (self.pcy - 1) / self.pcz,
                         self.pcy / self.pcz), axis=-1)

    def crop(self, extent):
        t, b, l, r = extent
        t, l = max(t, 0), max(l, 0)
        b, r = min(b, self.nrows), min(r, self.ncols)
        y, x = b - t, r - l
        pc = np.stack(((self.pcx * self.ncols - l) / x, (self.pcy * self.nrows - t) / y, self.pcz * self.ncols / x), axis=-1)
        return EBSDDetector((y, x), self.px_size, self.binning, self.tilt, self.azimuthal, self.twist, self.sample_tilt, pc)

    def to_gnomonic_coords(self, coords, pos=None):
        out = np.zeros(coords.shape)
        out[..., 0] = (self.pcy - coords[..., 0] / self.nrows) / self.pcz
        out[..., 1] = (coords[..., 1] - self.pcx * self.ncols) / (self.pcz * self.nrows)
        return out

    def to_pixel_coords(self, coords, pos=None):
        out = np.zeros(coords.shape)
        out[..., 0] = self.nrows * (self.pcy - coords[..., 0] * self.pcz)
        out[..., 1] = self.nrows * coords[..., 1] * self.pcz + self.pcx * self.nrows
        return out

    @property
    def sample_to_detector(self):
        a = np.deg2rad(self.tilt - self.sample_tilt)
        c, s = np.cos(a), np.sin(a)
        m = np.array([[0, 1, 0], [s, 0, c], [c, 0, -s]])
        return Rotation.from_matrix(m)
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C09",
        explanation=(
            "value numbering with algebraic normal forms of the detector's geometry: sizes, gnomonic bounds, corner "
            "distance, coordinate conversions (both ways and composed), cropping, and the orientation matrix, each an "
            "expression in shape, binning, pixel size, projection center and tilts, compared with its definition; the "
            "orientation matrix must satisfy the rotation identities for all angles"
        ),
        assumptions=["array operations act elementwise with broadcasting; floating point rounding is not considered",
                     "orix Rotation.from_matrix() represents the matrix it is given"],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C09")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    want = ("geometry:x_max", "geometry:euler", "bounds-in-refinement", "crop:crop(): gnomonic bounds",
            "coordinate-round-trip", "gnomonic-to-pixel", "detector-orientation", "pixel-to-gnomonic:to_gnomonic_coords(coords, pos=0)")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    quiet = ("geometry:x_min", "geometry:height", "crop(): shape", "crop(): tilt", "pixel-to-gnomonic:to_gnomonic_coords(coords)", "detector-rotation",
             "geometry:gnomonic_bounds")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
