"""C11: refinement optimizes what it says and reports it in the right place."""

from __future__ import annotations

from .. import poly as Q
from ..alg import Alg, Arr, Attr, Clos, Dict, Fn, Given, Obj, Opaque, Unsupported, View, key
from ..algtools import DETECTOR, comps, judge, make, symbols
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from
from .c09 import P, run_one, sample_to_detector
from .c10 import bind, direction, functions, quaternion_matrix

ONE, ZERO, TWO = Q.ONE, Q.ZERO, Num.const(2)
DEG = Q.PI.div(Num.const(180))
MODES = {
    "orientation": ("_refine_orientation", ("phi1", "Phi", "phi2")),
    "projection center": ("_refine_pc", ("PCx", "PCy", "PCz")),
    "orientation and projection center": ("_refine_orientation_pc", ("phi1", "Phi", "phi2", "PCx", "PCy", "PCz")),
}
SCIPY = ("minimize", "differential_evolution", "dual_annealing", "basinhopping", "shgo")
DASK_KW = {"drop_axis", "new_axis", "dtype", "chunks", "name", "token", "meta", "enforce_ndim"}


def atoms(x: Num):
    return [Q.ATOMS[i] for i in x.atoms()]


def mentions(v, out=None):
    """Names of the inputs a value is made from."""
    out = set() if out is None else out
    stack = [key(v)]
    seen = set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Num):
            for at in atoms(x):
                if at.fn == "sym":
                    out.add(at.args[0])
                    continue
                if at.fn.startswith("?"):
                    out.add(at.fn)
                stack.extend(at.args)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
        elif isinstance(x, str):
            out.add(x)
        elif isinstance(x, (Arr, Opaque, View)):
            stack.append(key(x))
    return out


def item_path(v):
    """(root, indices) of a value taken out of an input."""
    idx = []
    while isinstance(v, Opaque) and v.fn == "item":
        i = v.args[1]
        idx = (list(i) if isinstance(i, tuple) else [i]) + idx
        v = v.args[0]
    return v, idx


def index_names(idx):
    """Index as integers and loop variables, whole axes left out."""
    out = []
    for i in idx:
        if isinstance(i, View):
            i = i.arr.comps[i.i]
        if isinstance(i, Num):
            out.append(int(i.value) if i.value is not None else "?")
        elif hasattr(i, "full") and hasattr(i, "num"):
            out.append("i")
        elif i is None or (hasattr(i, "lo") and i.full()):
            continue
        else:
            out.append("?")
    return out


class Rec:
    """What is handed to the optimizer, and what it gives back."""

    def __init__(self, n):
        self.n = n
        self.calls = []
        self.opt_log = []
        self.projected, self.compared = [], []
        self.energy = []
        self.crystal_map = None
        self.blocks = []
        self.pick = 0
        self.best_of = []
        self.steps = []
        self.stored = []
        self.many = []  # tests of the number of projection centers

    def result(self):
        k = len(self.calls) - 1
        return sym(f"fun{k}"), sym(f"nfev{k}"), [sym(f"X{k}_{j}") for j in range(self.n)]

    def scipy(self, name):
        def f(A, args, kwargs, s):
            kw = dict(kwargs)
            for n, a in zip(("fun", "x0"), args):
                kw[n] = a
            kw.setdefault("fun", kw.get("func"))
            mk = kw.get("minimizer_kwargs")
            if "args" not in kw and isinstance(mk, Dict):
                kw["args"] = mk.get("args")
            self.calls.append({"fun": kw.get("fun"), "x0": kw.get("x0"), "args": kw.get("args"), "bounds": kw.get("bounds"),
                               "package": name})
            fun, nfev, x = self.result()
            return Obj(None, f"result{len(self.calls)}", {"fun": fun, "nfev": nfev, "x": Arr(x), "success": True})
        return f

    def nlopt(self, A, args, kwargs, s):
        o = Obj(None, "nlopt.opt", {})
        state = args[0].attrs["state"] if args and isinstance(args[0], Obj) and "state" in args[0].attrs else Dict()
        o.attrs["state"] = Dict(state)
        st = o.attrs["state"]

        def setter(n):
            def f(A, a, k):
                st[n] = a[0]
                if n == "initial_step":
                    self.steps.append(a[0])
                return None
            return Fn(n, f)
        for n in ("min_objective", "max_objective", "lower_bounds", "upper_bounds", "initial_step", "ftol_rel", "maxeval"):
            o.attrs["set_" + n] = setter(n)
        o.attrs["get_ftol_rel"] = Fn("get_ftol_rel", lambda A, a, k: st.get("ftol_rel"))

        def optimize(A, a, k):
            self.calls.append({"fun": st.get("min_objective"), "x0": a[0], "args": (), "package": "nlopt", "grad": True,
                               "bounds": (st["lower_bounds"], st["upper_bounds"]) if "lower_bounds" in st else None,
                               "maximize": "max_objective" in st})
            return Arr(self.result()[2])
        o.attrs["optimize"] = Fn("optimize", optimize)
        o.attrs["last_optimum_value"] = Fn("last_optimum_value", lambda A, a, k: self.result()[0])
        o.attrs["get_numevals"] = Fn("get_numevals", lambda A, a, k: self.result()[1])
        return o


def evaluate(proj, mode, method, trust, n_ps, unique_pc, pick=0):
    """Describe one refinement from the options to the crystal map."""
    fname, names = MODES[mode]
    f = (functions(proj, fname) or [None])[0]
    if f is None:
        return None
    n = len(names)
    rec = Rec(n)
    rec.pick = pick
    rec.unique_pc = unique_pc
    single = (functions(proj, "_project_single_pattern_from_master_pattern") or [None])[0]
    ncc = (functions(proj, "_ncc_single_patterns_1d_float32_exp_centered") or [None])[0]

    def h_project(A, args, kwargs, s):
        rec.projected.append(bind(single, args, kwargs))
        return Given(f"simulated{len(rec.projected)}", "array")

    def h_ncc(A, args, kwargs, s):
        rec.compared.append(bind(ncc, args, kwargs))
        return sym("ncc")

    def h_blocks(A, args, kwargs, s):
        func = args[0]
        kw = {k: v for k, v in kwargs.items() if k not in DASK_KW}
        arrays = list(args[1:])
        rec.blocks.append((func, arrays, kw))
        marks = [Given(f"block{k}", "array") for k in range(len(arrays))]
        return A.call(func, marks, kw, None)

    def h_map(A, args, kwargs, s):
        rec.crystal_map = dict(kwargs)
        return Obj(None, "CrystalMap", dict(kwargs))

    def h_arg(kind):
        def g(A, args, kwargs, s):
            rec.best_of.append((kind, args[0] if args else None))
            return Num.const(rec.pick)
        return g

    def h_repeat(A, args, kwargs, s):
        ax = A.const(kwargs.get("axis", args[2] if len(args) > 2 else None) or Q.ZERO)
        if ax in (0, 1):
            return args[0]
        raise Unsupported("repeat")

    def h_identity(A, args, kwargs, s):
        def put(A, a, k):
            rec.stored.append((a[0], a[1]))
            return None
        return Obj(None, "rotations", {"__setitem__": Fn("set", put)})

    def h_euler(A, args, kwargs, s):
        return Obj(None, "from_euler", {"data": Arr(comps=None, elem=Opaque("from_euler", tuple(args)).num()), "euler": args[0]})

    a = Alg(proj)
    a.hooks.update({
        "dask.array.map_blocks": h_blocks, "nlopt.opt": rec.nlopt, "dask.array.repeat": h_repeat, "orix.crystal_map.CrystalMap": h_map,
        "numpy.argmax": h_arg("max"), "numpy.argmin": h_arg("min"), "orix.quaternion.Rotation.identity": h_identity,
        "orix.quaternion.Rotation.from_euler": h_euler,
        "verify_dependency_or_raise": lambda A, *x: None, "print": lambda A, *x: None, "get_info_message": lambda A, *x: "",
        "rescale_intensity": lambda A, args, kwargs, s: args[0],
        "orix.crystal_map.create_coordinate_arrays": lambda A, *x: (Dict(), None),
        "_get_indexed_points_in_data_in_xmap": lambda A, *x: (
            Given("points", "array"), Given("in_data", "array"), sym("phase_id", "int"), (sym("n_rows", "int"), sym("n_cols", "int"))),
    })
    for m in SCIPY:
        a.hooks["scipy.optimize." + m] = rec.scipy(m)
    if single is not None:
        a.hooks[single.name] = h_project
    if ncc is not None:
        a.hooks[ncc.name] = h_ncc

    def assume(c):
        s = mentions(c)
        if any("rotations_per_point" in x for x in s):
            return False
        if any(x in s for x in ("navshape", "?navshape")):
            rec.many.append(c)
            return unique_pc
        if s and all(x in ("sin", "cos", "pi") or x[:1] == "x" and x[1:].isdigit() for x in s):
            return False  # q and -q are the same rotation
        return None
    a.assume = assume

    cls = next((c for c in proj.classes.values() if c.name == DETECTOR), None)
    det = a.construct(cls, [], {**symbols(), "pc": Arr(list(P)), "convention": "bruker"})

    def energies(A, args, kwargs):
        rec.energy += list(args) + list(kwargs.values())
        return (Given("upper", "array"), Given("lower", "array"))
    mp = Obj(None, "mp", {
        "_get_master_pattern_arrays_from_energy": Fn("energy", energies), "phase": Given("phase"),
        "axes_manager": Obj(None, "am", {"signal_shape": (sym("npx", "int"), sym("npy", "int"))})})
    tr = None
    if trust:
        tr = [sym(f"t{k}") for k in range(n)]
    ps = Obj(None, "ps", {"size": Num.const(n_ps), "flatten": Fn("flatten", lambda A, x, k: Given("pseudo_symmetry_ops"))}) \
        if n_ps else None
    kw = {
        "xmap": Given("xmap"), "detector": det, "master_pattern": mp, "energy": sym("energy"), "patterns": Given("patterns", "array"),
        "points_to_refine": Given("points", "array"), "signal_mask": Given("mask", "array"), "trust_region": tr,
        "rtol": sym("rtol"), "method": method, "method_kwargs": None, "initial_step": None, "maxeval": None, "compute": True,
        "navigation_mask": None,
    }
    if method == "ln_neldermead":
        kw["initial_step"] = [sym("step0"), sym("step1")] if n == 6 else [sym("step0")]
    kw["rotations_ps" if mode == "projection center" else "pseudo_symmetry_ops"] = ps
    par = {p.name for p in f.params}
    out = a.call_func(f, [], {k: v for k, v in kw.items() if k in par})
    return a, rec, out, f, det, tr


def objective(a, rec, call, n):
    """Value of the function handed to the optimizer at a point."""
    x = Arr([sym(f"x{k}") for k in range(n)])
    fun, args = call["fun"], call["args"]
    rec.projected.clear()
    rec.compared.clear()
    if fun is None or args is None or not isinstance(args, (tuple, list)):
        return None
    extra = [Given("grad", "array")] if call.get("grad") else list(args)
    return a.call(fun, [x] + extra, {}, None)


def check_case(proj, res, seen, mode, method, trust, n_ps, unique_pc, pick=0):
    fname, names = MODES[mode]
    n = len(names)
    label = f"{mode}, {method}" + (", trust region" if trust else "") + (", pseudo-symmetry" if n_ps else "") + (
        ", a projection center per pattern" if unique_pc else "")
    r = evaluate(proj, mode, method, trust, n_ps, unique_pc, pick)
    if r is None:
        res.undecided.append(f"{fname}: not found")
        return
    a, rec, out, f, det, tr = r
    seen.update(a.functions)
    where = f.where
    if len(rec.blocks) != 1 or not rec.calls:
        res.undecided.append(f"{label}: {len(rec.calls)} optimizations")
        return
    func, arrays, kwb = rec.blocks[0]
    fw = func.func.where if isinstance(func, Clos) else where

    for c in rec.many:
        at = c.single()
        if at is None or at.fn not in ("lt", "le"):
            continue
        lo, hi = at.args
        if lo.value is None or hi.value is not None:
            continue
        res.count("obligations")
        first = lo.value + 1 if at.fn == "lt" else lo.value
        if first != 2:
            res.add("many-pcs", label, f"projection centers are taken to differ between patterns when there are {first} or more",
                    where)
        else:
            res.count("proved_equal")
    if pick:
        check_result(a, res, label, where, mode, rec, out, n, n_ps)
        return
    # --- one optimization per start, from the right start
    res.count("obligations")
    if len(rec.calls) == n_ps + 1:
        res.count("proved_equal")
    else:
        res.add("starts", label, f"{len(rec.calls)} optimizations for {n_ps} pseudo-symmetry operators", fw)
    roles = role_of_blocks(a, arrays)
    if roles is None:
        res.undecided.append(f"{label}: blocks not described")
        return
    check_rotations(res, label, where, mode, arrays, roles, n_ps)
    if unique_pc:
        for k, x in enumerate(arrays):
            if roles[f"block{k}"] not in ("PCx", "PCy", "PCz", "pc", "rotation and pc"):
                continue
            res.count("obligations")
            at = gathers(x)
            if not at:
                res.undecided.append(f"{label}: projection centers not described")
            elif all("points" in mentions(y) and not has_slice(y) for y in at):
                res.count("proved_equal")
            else:
                res.add("pc-points", label, "projection centers are not taken at the points to refine", where)
    for k, call in enumerate(rec.calls):
        if call["x0"] is not None:
            check_start(res, label, fw, call["x0"], roles, mode, k, "start")
        elif method in ("minimize", "basinhopping", "ln_neldermead"):
            res.add("start", label, "no starting point is given", fw)
        if trust and method not in ("basinhopping",):
            check_bounds(res, label, fw, call, roles, k)
    # --- the objective
    M = detector_matrix()
    for k, call in enumerate(rec.calls[:2]):
        v = objective(a, rec, call, n)
        if v is None or len(rec.projected) != 1 or len(rec.compared) != 1:
            res.undecided.append(f"{label}: objective not described")
            continue
        check_objective(a, res, label, fw, mode, rec, v, roles, kwb, M, n, call)
    # --- what is returned
    check_result(a, res, label, where, mode, rec, out, n, n_ps)
    # --- set-up
    if method == "ln_neldermead":
        res.count("obligations")
        want = {3: [sym("step0")] * 3, 6: [sym("step0")] * 3 + [sym("step1")] * 3}[n]
        if mode != "projection center":
            want = [w.mul(DEG) for w in want[:3]] + want[3:]
        got = rec.steps[-1] if rec.steps else None
        if isinstance(got, (list, tuple)):
            got = Arr([a.to_scalar(x) for x in got])
        if isinstance(got, Arr) and got.comps is not None and len(got.comps) == n:
            judge(res, "initial-step", f"{mode}: initial step", [a.num(c) for c in got.comps], want, where, names)
        else:
            res.undecided.append(f"{label}: initial step not described")
    if trust:
        check_trust(a, res, mode, where, arrays, roles, tr, n, names)


def detector_matrix():
    S = symbols()
    rad = [S[k].mul(DEG) for k in ("sample_tilt", "tilt", "azimuthal", "twist")]
    R = sample_to_detector(*rad)
    return [[R[j][i] for j in range(3)] for i in range(3)]


def role_of_blocks(a, arrays):
    """What each array handed to the chunk function is."""
    roles = {}
    for k, x in enumerate(arrays):
        m = mentions(x)
        if any("fmax" in s for s in m) or "t0" in m:
            v = low_or_high(a, x)
            roles[f"block{k}"] = v
        elif "patterns" in m and "to_euler" not in m:
            roles[f"block{k}"] = "patterns"
        elif "xmap" in m and ("PCx" in m):
            roles[f"block{k}"] = "rotation and pc"
        elif "xmap" in m:
            roles[f"block{k}"] = "rotation"
        elif m & {"PCx", "PCy", "PCz"}:
            pcs = m & {"PCx", "PCy", "PCz"}
            roles[f"block{k}"] = "pc" if len(pcs) == 3 else pcs.pop()
        else:
            roles[f"block{k}"] = "lower" if "lower" not in roles.values() else "upper"
    return roles


def check_rotations(res, label, where, mode, arrays, roles, n_ps):
    """Rotations are handed on as what the objective expects, the map's own first."""
    for k, x in enumerate(arrays):
        if not roles[f"block{k}"].startswith("rotation"):
            continue
        res.count("obligations")
        m = mentions(x)
        if ("to_euler" in m) == (mode == "projection center"):
            res.add("rotation-form", label, "rotations are given as " + ("Euler angles" if "to_euler" in m else "quaternions"), where)
        else:
            res.count("proved_equal")
        if roles[f"block{k}"] == "rotation and pc":
            res.count("obligations")
            parts = find(x, ("hstack", "concatenate"), lambda p: any(mentions(y) & {"PCx", "PCy", "PCz"} for y in p))
            if parts is None or len(parts) != 2:
                res.undecided.append(f"{label}: variables not described")
            elif "xmap" not in mentions(parts[0]) or "PCx" not in mentions(parts[1]):
                res.add("variables", label, "the variables are not the rotation followed by the projection center", where)
            else:
                res.count("proved_equal")
        if n_ps:
            res.count("obligations")
            joined = find(x, ("hstack", "concatenate", "stack"), lambda p: any(
                "pseudo_symmetry_ops" in mentions(y) for y in p) and all("xmap" in mentions(y) for y in p))
            if joined is None:
                res.undecided.append(f"{label}: order of pseudo-symmetric rotations not described")
            elif "pseudo_symmetry_ops" in mentions(joined[0]) or not all("pseudo_symmetry_ops" in mentions(y) for y in joined[1:]):
                res.add("pseudo-symmetry-order", label, "the map's own rotation is not the first start", where)
            else:
                res.count("proved_equal")


def gathers(x):
    """Positions at which projection centers are picked."""
    out, stack = [], [key(x)]
    while stack:
        v = stack.pop()
        if isinstance(v, (tuple, list)):
            stack.extend(v)
        elif isinstance(v, Num):
            for at in atoms(v):
                if at.fn == "?gather" and mentions(at.args[0]) & {"PCx", "PCy", "PCz"}:
                    out.append(at.args[1:])
                if at.fn != "sym":
                    stack.extend(at.args)
    return out


def has_slice(k):
    """Does an index take a part of an axis by its bounds?"""
    if isinstance(k, (tuple, list)):
        for i, x in enumerate(k):
            if isinstance(x, str) and x == "slice":
                return any(y is not None for y in k[i + 1:])
        return any(has_slice(x) for x in k)
    return False


def find(x, fns, ok):
    """Parts joined by a call in a value."""
    stack, seen = [x], set()
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Opaque):
            if v.fn in fns and v.args and isinstance(v.args[0], tuple) and ok(v.args[0]):
                return v.args[0]
            stack.extend(v.args)
        elif isinstance(v, (tuple, list)):
            if len(v) >= 3 and v[0] == "op" and v[1] in fns and isinstance(v[2], tuple) and v[2][:1] == ("tup",) and ok(v[2][1:]):
                return v[2][1:]
            stack.extend(v)
        elif isinstance(v, Num):
            for at in atoms(v):
                if at.fn[1:] in fns and at.args and isinstance(at.args[0], tuple) and at.args[0][:1] == ("tup",) and ok(
                        at.args[0][1:]):
                    return at.args[0][1:]
                stack.extend(at.args)
        elif isinstance(v, Arr):
            stack.extend(v.comps if v.comps is not None else [v.elem])
        elif isinstance(v, View):
            stack.append(v.arr.comps[v.i])
    return None


def low_or_high(a, x):
    if isinstance(x, (Arr,)) and x.comps:
        x = a.num(x.comps[0])
    elif isinstance(x, Arr):
        x = a.num(x.elem)
    elif isinstance(x, Opaque):
        x = x.num()
    fns = {at.fn for at in atoms(x)}
    return "lower" if "max" in fns else "upper" if "min" in fns else "bounds"


def check_start(res, label, where, x0, roles, mode, k, rule):
    res.count("obligations")
    root, idx = item_path(x0)
    want = {"orientation": "rotation", "projection center": "pc"}.get(mode, "rotation and pc")
    if not isinstance(root, Given) or root.fn not in roles:
        res.undecided.append(f"{label}: {rule} not described: {x0!r}"[:160])
        return
    got, ix = roles[root.fn], index_names(idx)
    expect = ["i"] if mode == "projection center" else ["i", k]
    if got != want or ix != expect:
        res.add(rule, label, f"the optimization of pattern i ({k}) starts from {got} at {ix}", where)
    else:
        res.count("proved_equal")


def check_bounds(res, label, where, call, roles, k):
    res.count("obligations")
    b = call["bounds"]
    if b is None:
        res.add("bounds", label, "the trust region is given but no bounds are handed to the optimizer", where)
        return
    pairs = None
    if isinstance(b, tuple) and len(b) == 2:
        pairs = [item_path(x) for x in b]
    else:
        root, idx = item_path(b)
        if isinstance(root, Opaque) and root.fn == "stack" and isinstance(root.args[0], tuple) and len(root.args[0]) == 2:
            parts = [given_of(x) for x in root.args[0]]
            ax = root.args[1].get("axis") if isinstance(root.args[1], Dict) else None
            pairs = [(p, idx) for p in parts]
            if not (isinstance(ax, Attr) and ax.name == "ndim" or isinstance(ax, Num) and ax.value == -1):
                pairs = None
    if pairs is None or any(not isinstance(p[0], Given) or p[0].fn not in roles for p in pairs):
        res.undecided.append(f"{label}: bounds not described: {b!r}"[:160])
        return
    got = [roles[p[0].fn] for p in pairs]
    ix = [index_names(p[1]) for p in pairs]
    good = (["i", k], ["i"]) if k == 0 else (["i", k],)
    if got != ["lower", "upper"] or any(x not in good for x in ix):
        res.add("bounds", label, f"the bounds of start {k} of pattern i are {got} at {ix}", where)
    else:
        res.count("proved_equal")


def given_of(x):
    if isinstance(x, Given):
        return x
    if isinstance(x, Num):
        ats = list(atoms(x))
        if len(ats) == 1 and ats[0].fn == "sym" and x.eq(sym(ats[0].args[0], ats[0].sort)):
            return Given(ats[0].args[0], ats[0].sort)
    return x


def check_objective(a, res, label, where, mode, rec, v, roles, kwb, M, n, call):
    proj_, comp = rec.projected[0], rec.compared[0]
    judge(res, "objective", label, [a.num(v)], [ONE.sub(sym("ncc"))], where, ("objective",))
    if call.get("maximize"):
        res.add("objective", label, "the dissimilarity is maximized", where)
    # the experimental pattern is that of the point, the simulated one the projected
    pat = [k for k, r in roles.items() if r == "patterns"]
    vals = list(comp.values())
    exp = [v for v in vals if pat and pat[0] in mentions(v)]
    sim = [v for v in vals if "simulated1" in mentions(v)]
    res.count("obligations", 2)
    if not exp or not sim:
        res.add("compared", label, "the score does not compare the experimental pattern with the projected one", where)
    else:
        ix = [i for v in exp for i in pattern_indices(v, pat[0])]
        good = (["i"], ["i", 0])
        if any(isinstance(item_path(v)[0], Given) for v in exp):
            res.add("compared", label, "the experimental pattern is compared without being prepared", where)
        elif any(i not in good for i in ix):
            res.add("compared", label, f"the experimental pattern of point i is that at {ix}", where)
        else:
            res.count("proved_equal", 2)
    x = [sym(f"x{k}") for k in range(n)]
    # rotation
    rot = proj_.get("rotation")
    if mode == "projection center":
        root, idx = item_path(rot)
        res.count("obligations")
        if isinstance(root, Given) and root.fn in roles:
            if roles[root.fn] == "rotation" and index_names(idx) == ["i"]:
                res.count("proved_equal")
            else:
                res.add("fixed-rotation", label, f"patterns are projected with {roles[root.fn]} at {index_names(idx)}", where)
        else:
            res.undecided.append(f"{label}: rotation not described")
    else:
        euler(a, res, label, where, rot, x[:3])
    # directions
    dc = proj_.get("direction_cosines")
    S = symbols()
    Ny, Nx = S["shape"]
    pix = sym("selected(mask)", "int")
    if mode == "orientation":
        pcn = [k for c in ("PCx", "PCy", "PCz") for k, r in roles.items() if r == c]
        if len(pcn) == 3 and len({roles[k] for k in pcn}) == 3:
            g = comps(a, dc)
            idx = ix_of(g, pcn)
            res.count("obligations")
            if g is None or idx is None:
                res.undecided.append(f"{label}: projection center not described")
                return
            if any(i[:1] != ["i"] for i in idx.values()):
                res.add("pattern-pc", label, f"the projection center of pattern i is read at {sorted(map(str, idx.values()))}", where)
                return
            res.count("proved_equal")
            g = [named(x, dict(zip(pcn, ("PCx", "PCy", "PCz")))) for x in g]
            judge(res, "directions", label, g, direction(pix, Ny, Nx, M), where)
            return
        single = [r for r in roles.values() if r in ("PCx", "PCy", "PCz")]
        if len(single) == 3:
            res.add("pattern-pc", label, f"the projection center is made from {single}", where)
            return
        if rec.unique_pc:
            res.undecided.append(f"{label}: projection center not described")
            return
        judge(res, "directions", label, comps(a, dc), direction(pix, Ny, Nx, M), where)
    else:
        pc = x[-3:]
        judge(res, "directions", label, comps(a, dc), direction(pix, Ny, Nx, M, pc), where)
    # master pattern
    for nme, want in (("master_upper", "upper"), ("master_lower", "lower")):
        m = mentions(proj_.get(nme))
        res.count("obligations")
        if want in m and not ({"upper", "lower"} - {want}) & m:
            res.count("proved_equal")
        else:
            res.add("master-pattern", label, f"{nme} is {proj_.get(nme)!r}"[:200], where)
    npx, npy = sym("npx", "int"), sym("npy", "int")
    try:
        judge(res, "master-pattern", label, [a.num(proj_.get(k)) for k in ("npx", "npy", "scale")],
              [npx, npy, npx.sub(ONE).div(TWO)], where, ("npx", "npy", "scale"))
    except Exception:
        res.undecided.append(f"{label}: size of the master pattern not described")
    res.count("obligations")
    if len(rec.energy) == 1 and Q.same(key(rec.energy[0]), sym("energy")):
        res.count("proved_equal")
    else:
        res.add("energy", label, f"the master pattern is taken at {rec.energy!r}", where)


def pattern_indices(v, name):
    """Indices at which an input array is read in a value."""
    out = []
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Opaque):
            root, idx = item_path(x)
            if isinstance(root, Given) and root.fn == name:
                out.append(index_names(idx))
                continue
            stack.extend(x.args)
        elif isinstance(x, Arr):
            stack.extend(x.comps if x.comps is not None else [x.elem])
        elif isinstance(x, (tuple, list)):
            if len(x) == 4 and x[0] == "op" and x[1] == "item":
                r = tuple_path(x, name)
                if r is not None:
                    out.append(r)
                    continue
            stack.extend(x)
        elif isinstance(x, Num):
            for at in atoms(x):
                if at.fn == "?item":
                    r = tuple_path(("op", "item") + tuple(at.args), name)
                    if r is not None:
                        out.append(r)
                        continue
                stack.extend(at.args)
        elif isinstance(x, View):
            stack.append(x.arr.comps[x.i])
    return out


def key_index(i):
    if isinstance(i, Num):
        if i.value is not None:
            return [int(i.value)]
        ats = list(atoms(i))
        return ["i"] if len(ats) == 1 and ats[0].fn == "?index" else ["?"]
    if i is None or i == ("slice", None, None, None):
        return []
    if isinstance(i, tuple) and i and i[0] == "tup":
        return [y for x in i[1:] for y in key_index(x)]
    return ["?"]


def tuple_path(x, name):
    idx = []
    while isinstance(x, tuple) and len(x) == 4 and x[:2] == ("op", "item"):
        idx = key_index(x[3]) + idx
        x = x[2]
    if isinstance(x, Num):
        for at in atoms(x):
            if at.fn == "?item" and len(list(atoms(x))) == 1:
                r = tuple_path(("op", "item") + tuple(at.args), name)
                return None if r is None else r + idx
            if at.fn == "sym" and at.args[0] == name:
                return idx
    return None


def ix_of(g, names):
    if g is None:
        return None
    out = {}
    for nme in names:
        ix = [i for x in g for i in pattern_indices(x, nme)]
        if not ix:
            return None
        if any(i != ix[0] for i in ix):
            out[nme] = ["?"]
        else:
            out[nme] = ix[0]
    return out


def named(v, names):
    """Elements of inputs as symbols."""
    def f(at):
        if at.fn == "?item":
            for n, s in names.items():
                if tuple_path(("op", "item") + tuple(at.args), n) is not None:
                    return sym(s)
        return None
    return Q.subs(v, f)


def euler(a, res, label, where, rot, x):
    """The rotation is that of three Euler angles."""
    from .c10 import bunge_matrix
    if isinstance(rot, Arr) and rot.comps is not None and len(rot.comps) == 4:
        try:
            got = quaternion_matrix([a.num(c) for c in rot.comps])
        except Exception:
            res.undecided.append(f"{label}: rotation not described")
            return
        half = [v.div(TWO) for v in x]
        want = bunge_matrix(*half)

        def sub(at):
            return None
        judge(res, "rotation", label, [c for r in got for c in r], [c for r in want for c in r], where,
              [f"g[{i}, {j}]" for i in range(3) for j in range(3)])
    else:
        res.undecided.append(f"{label}: rotation not described")


def check_result(a, res, label, where, mode, rec, out, n, n_ps):
    names = MODES[mode][1]
    k = rec.pick
    fun = [sym(f"fun{j}") for j in range(n_ps + 1)]
    X = [sym(f"X{k}_{j}") for j in range(n)]
    score, nfev = ONE.sub(fun[k]), sym(f"nfev{k}")
    if n_ps:
        res.count("obligations")
        if len(rec.best_of) != 1:
            res.undecided.append(f"{label}: choice of the best start not described")
            return
        kind, arr = rec.best_of[0]
        want = [ONE.sub(v) for v in fun] if kind == "max" else fun
        xs = a.items(arr)
        got = None if xs is None else [a.num(v) for v in xs]
        if got is None:
            res.undecided.append(f"{label}: choice of the best start not described")
        else:
            judge(res, "best-start", label, got, want, where, [f"score {j}" for j in range(len(want))])
    if mode == "projection center":
        if not isinstance(out, tuple) or len(out) != 3:
            res.undecided.append(f"{label}: result not described")
            return
        scores, det, num = out
        judge(res, "returned", f"{label}: score", [a.num(scores)], [score], where, ("score",))
        judge(res, "returned", f"{label}: evaluations", [a.num(num)], [Q.f_int(nfev)], where, ("evaluations",)) \
            if not a.num(num).eq(nfev) else res.count("proved_equal")
        check_pc(a, res, label, where, det, X)
        return
    xmap, det = out if isinstance(out, tuple) and len(out) == 2 else (out, None)
    cm = rec.crystal_map
    if cm is None or "prop" not in cm:
        res.undecided.append(f"{label}: crystal map not described")
        return
    props = cm["prop"]
    wants = {"scores": score, "num_evals": nfev}
    if n_ps:
        wants["pseudo_symmetry_index"] = Num.const(k)
    for nme, want in wants.items():
        res.count("obligations")
        st = stored(a, props.get(nme) if isinstance(props, Dict) else None)
        if st is None:
            res.undecided.append(f"{label}: {nme} not described")
            continue
        at, v = st
        if "points" not in mentions(at):
            res.add("returned", f"{label}: {nme}", f"{nme} are put at {at!r}", where)
        judge(res, "returned", f"{label}: {nme}", [v], [want], where, (nme,))
    res.count("obligations")
    if len(rec.stored) != 1:
        res.undecided.append(f"{label}: rotations not described")
    else:
        at, v = rec.stored[0]
        want = Opaque("from_euler", (Arr(X[:3]),)).num()
        try:
            ok = a.num(v).eq(want)
        except Exception:
            ok = None
        if ok and "points" in mentions(at):
            res.count("proved_equal")
        elif ok is None:
            res.undecided.append(f"{label}: rotations not described")
        else:
            res.add("returned", f"{label}: rotations", f"rotations at {at!r} are {v!r}"[:300], where)
    if det is not None:
        check_pc(a, res, label, where, det, X[3:])


def stored(a, v):
    """(place, value) written into a fresh array."""
    try:
        v = a.num(v)
    except Exception:
        return None
    ats = [at for at in atoms(v) if at.fn == "?store"]
    if len(ats) != 1 or not v.eq(Num.of(ats[0])):
        return None
    place, val = ats[0].args[1], ats[0].args[2]
    if isinstance(val, tuple) and val and val[0] == "arr" and len(val) == 2:
        val = val[1]
    return (place, val) if isinstance(val, Num) else None


def check_pc(a, res, label, where, det, X):
    try:
        pc = a.attr(det, "pc", None)
    except Exception:
        res.undecided.append(f"{label}: projection centers not described")
        return
    judge(res, "returned", f"{label}: projection center", comps(a, pc), X, where, ("PCx", "PCy", "PCz"))


def check_trust(a, res, mode, where, arrays, roles, tr, n, names):
    """Bounds contain start -/+ the trust region, cut off at most where the
    variable cannot go."""
    lo_c = {"phi1": ZERO, "Phi": ZERO, "phi2": ZERO}
    hi_c = {"phi1": Q.PI.mul(TWO), "Phi": Q.PI, "phi2": Q.PI.mul(TWO)}
    for k, x in enumerate(arrays):
        role = roles[f"block{k}"]
        if role not in ("lower", "upper"):
            continue
        if not isinstance(x, Arr) or x.comps is None or len(x.comps) != n:
            res.undecided.append(f"{mode}: {role} bounds not described")
            continue
        for j, (c, nme) in enumerate(zip(x.comps, names)):
            res.count("obligations")
            v = a.num(c)
            ats = [at for at in atoms(v)]
            t = tr[j].mul(DEG) if nme in lo_c else tr[j]
            fn = "max" if role == "lower" else "min"
            ok = None
            if len(ats) == 1 and ats[0].fn == fn and v.eq(Num.of(ats[0])):
                consts = [y for y in ats[0].args if not (mentions(y) - {"pi"})]
                rest = [y for y in ats[0].args if mentions(y) - {"pi"}]
                if len(rest) == 1 and len(consts) == 1:
                    start = rest[0].add(t) if role == "lower" else rest[0].sub(t)
                    m = mentions(start)
                    ok = not any(s in m for s in (f"t{i}" for i in range(n)))
                    cv = Q.Point(0).ev(consts[0])
                    lim = (lo_c if role == "lower" else hi_c).get(nme)
                    if ok and lim is not None and cv is not None:
                        lv = Q.Point(0).ev(lim)
                        ok = cv <= lv + 1e-12 if role == "lower" else cv >= lv - 1e-12
            if ok is None:
                res.undecided.append(f"{mode}: {role} bound of {nme} not described: {v!r}"[:200])
            elif ok:
                res.count("proved_equal")
            else:
                res.add("trust-region", f"{mode}: {role} bound of {nme}", f"the bound is {v!r}"[:300], where)


def cases(thorough):
    for mode in MODES:
        for method in ("minimize", "ln_neldermead", "differential_evolution", "basinhopping") + (
                ("dual_annealing",) if thorough else ()):
            for trust in (True, False):
                if trust and method == "basinhopping" or not trust and method == "differential_evolution":
                    continue
                for n_ps in (0, 1):
                    if n_ps and mode == "projection center":
                        continue
                    for unique in (False, True):
                        if unique and mode != "orientation":
                            continue
                        yield mode, method, trust, n_ps, unique


def scan(proj, ctx: Ctx, res: Result):
    seen: set[str] = set()
    for c in cases(ctx.thorough):
        res.count("refinements_described")
        run_one(res, str(c), lambda c=c: check_case(proj, res, seen, *c))
        if c[3] and not c[4]:
            run_one(res, str(c), lambda c=c: check_case(proj, res, seen, *c, pick=1))
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


SELFTEST = {"kikuchipy/refine.py": """
import dask.array as da
import numpy as np
import scipy.optimize

class EBSDDetector:
    def __init__(self, shape, px_size, binning, tilt, azimuthal, twist, sample_tilt, pc, convention=None):
        self.shape = shape
        self.pc = pc

    @property
    def navigation_size(self):
        return 1

def _project_single_pattern_from_master_pattern(rotation, direction_cosines, master_upper, master_lower, npx, npy, scale):
    return rotation

def _ncc_single_patterns_1d_float32_exp_centered(exp, sim, norm):
    return exp

def _objective(x, *args):
    sim = _project_single_pattern_from_master_pattern(
        args[1], np.column_stack((x[0] * args[4], x[1] * args[4], x[2] * args[4])), args[3], args[2], args[5], args[6],
        (args[5] - 1) / 2)
    return 1 - _ncc_single_patterns_1d_float32_exp_centered(args[0], sim, 1)

def _chunk(patterns, pc, rotations, upper, lower, mask, npx, npy, trust):
    out = np.empty((patterns.shape[0], 5))
    for i in range(patterns.shape[0]):
        r = scipy.optimize.minimize(_objective, pc[0], args=(patterns[i] - 1, rotations[i], upper, lower, mask, npx, npy),
                                    bounds=trust)
        out[i] = (r.fun, r.nfev, r.x[0], r.x[2], r.x[1])
    return out

def _refine_pc(xmap, detector, master_pattern, energy, patterns, points_to_refine, signal_mask, trust_region, rtol, method,
               method_kwargs, rotations_ps, initial_step, maxeval, compute, navigation_mask):
    upper, lower = master_pattern._get_master_pattern_arrays_from_energy(10)
    npx, npy = master_pattern.axes_manager.signal_shape
    pc = np.full((int(points_to_refine.sum()), 3), detector.pc)
    res = da.map_blocks(_chunk, patterns, da.from_array(pc), da.from_array(xmap.rotations.data), upper=upper, lower=lower,
                        mask=signal_mask, npx=npx, npy=npy, trust=trust_region)
    new = EBSDDetector(detector.shape, 1, 1, 0, 0, 0, 0, res[:, 2:5])
    return 1 - res[:, 0], new, res[:, 1]
"""}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C11",
        explanation=(
            "value numbering with algebraic normal forms of refinement from the options to the result: what is handed to each "
            "optimizer (start, bounds, step, objective) and what becomes of its answer is described in terms of the inputs "
            "and compared with the documented meaning, for every kind of refinement, optimizer package, with and without "
            "trust region, pseudo-symmetry operators and one projection center per pattern"
        ),
        assumptions=["dask.array.map_blocks hands each block of the arrays, in order, to the function",
                     "scipy.optimize and NLopt evaluate the objective they are given within the bounds they are given",
                     "array operations act elementwise with broadcasting; floating point rounding is not considered"],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C11")
    run_one(r, "self-test", lambda: check_case(proj, r, set(), "projection center", "minimize", False, 0, False))
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    want = ("start:", "energy:", "master-pattern:", "directions:", "returned:projection center, minimize: projection center")
    for w in want:
        res.require(w in txt, f"self-test: {w} not reported ({txt}; {r.undecided})")
    quiet = ("objective:", "fixed-rotation:", "minimize: score", "minimize: evaluations", "compared:")
    for w in quiet:
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", len(want) + len(quiet))
    return res
