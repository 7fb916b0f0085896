"""C08: projection centers convert between conventions as documented."""

from __future__ import annotations

from .. import poly as Q
from ..alg import Alg, Arr, Given, Obj, Raises, Text
from ..algtools import DETECTOR, ERR, HALF, comps, get, judge, make, symbols
from ..poly import Num, sym
from ..report import Ctx, Result
from ..selftest import project_from


def families(Ny, Nx, b, d):
    """Documented conversions: name of the convention -> (to Bruker, from
    Bruker), each from three coordinates to three."""
    mn = Q.f_min(Nx, Ny)
    one = Q.ONE
    return {
        "bruker": (lambda x, y, z: (x, y, z), lambda x, y, z: (x, y, z)),
        "tsl": (lambda x, y, z: (x, one.sub(y), z.mul(mn).div(Ny)),
                lambda x, y, z: (x, one.sub(y), z.mul(Ny).div(mn))),
        "oxford": (lambda x, y, z: (x, one.sub(y.mul(Nx).div(Ny)), z.mul(Nx).div(Ny)),
                   lambda x, y, z: (x, one.sub(y).mul(Ny).div(Nx), z.mul(Ny).div(Nx))),
        "emsoft": (lambda x, y, z: (HALF.sub(x.div(Nx.mul(b))), HALF.sub(y.div(Ny.mul(b))), z.div(Ny.mul(b).mul(d))),
                   lambda x, y, z: (HALF.sub(x).mul(Nx).mul(b), HALF.sub(y).mul(Ny).mul(b), z.mul(Ny).mul(b).mul(d))),
        "emsoft4": (lambda x, y, z: (HALF.add(x.div(Nx.mul(b))), HALF.sub(y.div(Ny.mul(b))), z.div(Ny.mul(b).mul(d))),
                    lambda x, y, z: (x.sub(HALF).mul(Nx).mul(b), HALF.sub(y).mul(Ny).mul(b), z.mul(Ny).mul(b).mul(d))),
    }


NAMES = {"bruker": "bruker", "tsl": "tsl", "edax": "tsl", "amatek": "tsl", "oxford": "oxford", "aztec": "oxford",
         "emsoft": "emsoft", "emsoft5": "emsoft", "emsoft4": "emsoft4"}
PUBLIC = [("pc_bruker", (), "bruker"), ("pc_tsl", (), "tsl"), ("pc_oxford", (), "oxford"), ("pc_emsoft", (), "emsoft"),
          ("pc_emsoft", (5,), "emsoft"), ("pc_emsoft", (4,), "emsoft4")]
# reader -> (convention of its files, names of the three entries)
READERS = {
    "oxford_h5ebsd": ("oxford", ("Pattern Center X", "Pattern Center Y", "Detector Distance")),
    "edax_h5ebsd": ("tsl", ("Pattern Center Calibration/x-star", "Pattern Center Calibration/y-star",
                            "Pattern Center Calibration/z-star")),
    "bruker_h5ebsd": ("bruker", ("PCX", "PCY", "DD")),
    "kikuchipy_h5ebsd": ("bruker", ("pcx", "pcy", "pcz")),
    "emsoft_ebsd": ("emsoft", ("xpc", "ypc", "L")),
}
def scan(proj, ctx: Ctx, res: Result):
    classes = [c for c in proj.classes.values() if c.name == DETECTOR]
    if not classes:
        res.undecided.append("no class EBSDDetector")
        return
    cls = classes[0]
    init = proj.lookup(cls, "__init__")
    where = init.where if init else ""
    S = symbols()
    Ny, Nx = S["shape"]
    fam = families(Ny, Nx, S["binning"], S["px_size"])
    P = [sym("PCx"), sym("PCy"), sym("PCz")]
    seen: set[str] = set()

    # --- constructor: documented formula for each name, any case
    for name, f in NAMES.items():
        for nm in (name, name.upper()):
            try:
                a, o = make(proj, cls, P, nm)
                got = comps(a, a.attr(o, "pc", None))
            except Raises:
                res.count("obligations")
                res.add("convention-rejected", f"convention={nm!r}", f"the documented convention {nm!r} is rejected", where)
                continue
            except ERR as e:
                res.undecided.append(f"convention={nm!r}: {e}")
                continue
            seen |= a.functions
            judge(res, "conversion-in", f"convention={nm!r}", got, fam[f][0](*P), where, ("PCx", "PCy", "PCz"))
            # geometry is stored as given
            for attr, want in (("px_size", S["px_size"]), ("tilt", S["tilt"]), ("azimuthal", S["azimuthal"]),
                               ("twist", S["twist"]), ("sample_tilt", S["sample_tilt"]), ("binning", S["binning"]),
                               ("nrows", Ny), ("ncols", Nx)):
                try:
                    judge(res, "geometry-stored", f"convention={nm!r}: {attr}", [a.num(a.attr(o, attr, None))], [want],
                          where, (attr,))
                except ERR as e:
                    res.undecided.append(f"{attr}: {e}")
    # --- an unknown convention is an error
    for bad in ("nonsense", "emsoft3"):
        res.count("obligations")
        try:
            make(proj, cls, P, bad)
            res.add("convention-accepted", f"convention={bad!r}", f"the unknown convention {bad!r} is accepted", where)
        except Raises:
            res.count("proved_equal")
        except ERR as e:
            res.undecided.append(f"convention={bad!r}: {e}")

    # --- conversion out, and round trip through the constructor
    for meth, args, f in PUBLIC:
        m = proj.lookup(cls, meth)
        if m is None:
            res.undecided.append(f"no method {meth}")
            continue
        label = f"{meth}({', '.join(map(str, args))})"
        try:
            a, o = make(proj, cls, P, "bruker")
            before = comps(a, a.attr(o, "pc", None))
            out = get(a, o, meth, *args)
            got = comps(a, out)
            judge(res, "conversion-out", label, got, fam[f][1](*P), m.where)
            judge(res, "conversion-changes", label, comps(a, a.attr(o, "pc", None)), before, m.where)
            seen |= a.functions
            if got is None:
                continue
            for name, g in NAMES.items():
                if g != f:
                    continue
                b, o2 = make(proj, cls, got, name)
                judge(res, "round-trip", f"{label} -> convention={name!r}", comps(b, b.attr(o2, "pc", None)), P, m.where,
                      ("PCx", "PCy", "PCz"))
        except ERR as e:
            res.undecided.append(f"{label}: {type(e).__name__} {e}")

    # --- coordinates set one at a time
    for i, n in enumerate(("pcx", "pcy", "pcz")):
        st = proj.lookup(cls, n, setter=True)
        if st is None:
            continue
        try:
            a, o = make(proj, cls, P, "bruker")
            a.call_func(st, [sym("new")], {}, self_=o)
            want = list(P)
            want[i] = sym("new")
            judge(res, "coordinate-set", n, comps(a, a.attr(o, "pc", None)), want, st.where)
            judge(res, "coordinate-get", n, [a.num(a.attr(o, n, None))], [sym("new")], st.where)
        except ERR as e:
            res.undecided.append(f"{n} setter: {e}")

    # --- detectors saved to a text file
    save = proj.lookup(cls, "save")
    if save is not None:
        for name, f in NAMES.items():
            hit = []

            def savetxt(A, args, kwargs, s):
                hit.append((args, kwargs))

            try:
                a = Alg(proj, {"numpy.savetxt": savetxt})
                o = a.construct(cls, [], {**S, "pc": Arr(list(P))})
                a.call_func(save, ["file.txt"], {"convention": name}, self_=o)
                seen |= a.functions
            except ERR as e:
                res.undecided.append(f"save(convention={name!r}): {type(e).__name__} {e}")
                continue
            if len(hit) != 1:
                res.undecided.append(f"save(convention={name!r}): {len(hit)} writes")
                continue
            args, kwargs = hit[0]
            x = kwargs.get("X", args[1] if len(args) > 1 else None)
            judge(res, "saved-coordinates", f"save(convention={name!r})", comps(a, x), fam[f][1](*P), save.where)
            saved_header(res, a, o, kwargs.get("header"), name, save)

    # --- detectors made by readers
    for mod, (f, keys) in READERS.items():
        m = proj.modules.get(f"kikuchipy.io.plugins.{mod}._api")
        if m is None:
            continue
        reader(proj, res, m, mod, f, keys, seen)
    calibration(proj, res, seen)
    res.coverage["functions_described"] = len(seen)
    res.samples += sorted(seen)[:12]


def calibration(proj, res, seen):
    """The moving screen estimate gives PCy from the bottom ("tsl") or the top."""
    cs = [c for c in proj.classes.values() if c.name == "PCCalibrationMovingScreen"]
    if not cs:
        return
    cls = cs[0]
    m = proj.lookup(cls, "pcy_all")
    if m is None:
        return
    Ny, Nx, x, y = sym("Ny", "int"), sym("Nx", "int"), sym("x"), sym("y")
    for conv, want in (("tsl", Q.ONE.sub(y.div(Ny))), ("bruker", y.div(Ny))):
        a = Alg(proj)
        o = Obj(cls, "calibration", {"convention": conv, "pxy_all": Arr([x, y]), "nrows": Ny, "ncols": Nx, "shape": (Ny, Nx)})
        try:
            judge(res, "calibration", f"pcy_all (convention={conv!r})", [a.num(a.attr(o, "pcy_all", None))], [want], m.where, ("PCy",))
            judge(res, "calibration", f"pcx_all (convention={conv!r})", [a.num(a.attr(o, "pcx_all", None))], [x.div(Nx)], m.where, ("PCx",))
            seen |= a.functions
        except ERR as e:
            res.undecided.append(f"pcy_all: {e}")


def saved_header(res, a, o, header, name, save):
    """The header names the convention and states the geometry that the
    loader reads back."""
    if not isinstance(header, (Text, str)):
        res.undecided.append(f"save(convention={name!r}): header not described")
        return
    parts = header.parts if isinstance(header, Text) else [header]
    flat = [p if isinstance(p, str) else ("\0", p[1]) for p in parts]
    found: dict = {}
    text = ""
    for p in flat:
        if isinstance(p, str):
            text += p
        else:
            line = text.rsplit("\n", 1)[-1].strip()
            if line.endswith(":"):
                found[line[:-1].strip()] = p[1]
            text += "<>"
    for line in text.split("\n"):
        k, s, v = line.strip().partition(": ")
        if s and "<>" not in v:
            found.setdefault(k, v)
    res.count("obligations")
    if "convention" not in found:
        res.undecided.append("save: no convention in the header")
    elif isinstance(found["convention"], str):
        c = found["convention"].strip()
        if NAMES.get(c) != NAMES[name]:
            res.add("saved-convention", f"save(convention={name!r})",
                    f"the file states convention {c!r} while coordinates are in {name!r}", save.where)
        else:
            res.count("proved_equal")
    for k in ("px_size", "binning", "tilt", "azimuthal", "twist", "sample_tilt"):
        if k not in found or isinstance(found[k], str):
            res.undecided.append(f"save: {k} not found in the header")
            continue
        try:
            judge(res, "saved-geometry", f"save: {k}", [a.num(found[k])], [a.num(a.attr(o, k, None))], save.where, (k,))
        except ERR:
            res.undecided.append(f"save: {k}")


def reader(proj, res, m, mod, f, keys, seen):
    a = Alg(proj, {"_hdf5group2dict": lambda A, ar, kw, s: Given("file")})
    try:
        fs = [c.methods["scan2dict"] for c in m.classes.values() if "scan2dict" in c.methods]
        if fs:
            out = a.call_func(fs[0], [Given("group")], {}, self_=Obj(fs[0].cls, "reader"))
            fn = fs[0]
        else:
            fn = m.funcs.get("file_reader")
            if fn is None:
                return
            out = a.call_func(fn, [Given("fname")], {})
        if isinstance(out, (list, tuple)):
            out = out[0]
        det = out["detector"] if isinstance(out, dict) else None
    except ERR as e:
        res.undecided.append(f"{mod}: {type(e).__name__} {e}")
        return
    if not isinstance(det, Obj) or det.cls is None or det.cls.name != DETECTOR:
        res.undecided.append(f"{mod}: detector not described")
        return
    seen |= a.functions
    try:
        got = comps(a, a.attr(det, "pc", None))
        Ny, Nx = (a.num(a.attr(det, k, None)) for k in ("nrows", "ncols"))
        b, d = a.num(a.attr(det, "binning", None)), a.num(a.attr(det, "px_size", None))
    except ERR as e:
        res.undecided.append(f"{mod}: {e}")
        return
    if got is None:
        res.undecided.append(f"{mod}: projection center not described")
        return
    # the symbols the entries stand for
    names = {}
    for g in got:
        for x in g.all_atoms():
            at = Q.ATOMS[x]
            if at.fn == "sym":
                for k in keys:
                    if at.args[0].endswith("/" + k):
                        names.setdefault(k, at)
    # binning and pixel size of the file may be left out of the conversion only if it does not use them
    if set(names) != set(keys):
        res.undecided.append(f"{mod}: entries {sorted(set(keys) - set(names))} not found in the projection center")
        return
    ent = [Num.of(names[k]) for k in keys]
    if not Q.is_int(b):
        bb = Q.f_int(b)
        got = [g if b.eq(bb) else g for g in got]
    try:
        bf = a.num(det.attrs.get("_binning", b))
    except ERR:
        bf = b
    want = families(Ny, Nx, bf, d)[f][0](*ent)
    judge(res, "reader-convention", f"{mod} reader", got, want, fn.where, ("PCx", "PCy", "PCz"))


SELFTEST = {
    "m.py": '''
import numpy as np
from copy import deepcopy


class EBSDDetector:
    def __init__(self, shape=(1, 1), px_size=1.0, binning=1, tilt=0.0, azimuthal=0.0, twist=0.0, sample_tilt=70.0,
                 pc=(0.5, 0.5, 0.5), convention="bruker"):
        self.nrows, self.ncols = shape
        self.px_size = px_size
        self.binning = binning
        self.tilt, self.azimuthal, self.twist, self.sample_tilt = tilt, azimuthal, twist, sample_tilt
        self._pc = np.atleast_2d(pc).astype(float)
        c = convention.lower()
        if c in ("tsl", "edax", "amatek"):
            self._pc = self._swap(min(self.nrows, self.ncols) / self.nrows)
        elif c in ("oxford", "aztec"):
            r = self.ncols / self.nrows
            x, y, z = (self._pc[..., i] for i in range(3))
            self._pc = np.stack((x, 1 - r * y, r * z), axis=-1)
        elif c in ("emsoft", "emsoft5"):
            self._pc = np.stack((0.5 - self.pcx / self.ncols / binning, 0.5 - self.pcy / self.nrows / binning,
                                 self.pcz / (self.nrows * self.ncols * binning * px_size)), axis=-1)
        elif c != "bruker":
            raise ValueError

    def _swap(self, k):
        new = deepcopy(self._pc)
        new[..., 1] = 1 - new[..., 1]
        new[..., 2] *= k
        return new

    @property
    def pc(self):
        return self._pc

    @property
    def pcx(self):
        return self._pc[..., 0]

    @property
    def pcy(self):
        return self._pc[..., 1]

    @property
    def pcz(self):
        return self._pc[..., 2]

    def pc_bruker(self):
        return self.pc

    def pc_tsl(self):
        return self._swap(self.nrows / min(self.nrows, self.ncols))

    def pc_oxford(self):
        new = self.pc
        new[..., 1] = (1 - new[..., 1]) * self.nrows / self.ncols
        new[..., 2] *= self.nrows / self.ncols
        return new
'''}


def run(ctx: Ctx) -> Result:
    res = Result(
        "C08",
        explanation=(
            "value numbering with algebraic normal forms of the EBSDDetector constructor, pc_*() methods, coordinate "
            "setters, save() and the vendor readers: for every documented convention the stored and returned "
            "coordinates, as expressions in detector shape, binning, pixel size and coordinates, are compared with the "
            "documented formulas, round trips are composed and must reduce to the identity, unknown conventions must raise"
        ),
        assumptions=["array operations act elementwise with broadcasting; floating point rounding is not considered",
                     "psygnal signal handlers do not change the detector"],
    )
    scan(ctx.proj, ctx, res)
    proj = project_from(dict(SELFTEST))
    r = Result("C08")
    scan(proj, Ctx(proj, "thorough"), r)
    txt = " ".join(f.rule + ":" + f.construct for f in r.findings)
    for w in ("conversion-in:convention='emsoft'", "convention-rejected:convention='emsoft4'",
              "conversion-changes:pc_oxford()"):
        res.require(w in txt, f"self-test: {w} not reported ({txt})")
    for w in ("'tsl'", "'edax'", "'oxford'", "pc_tsl", "pc_bruker", "convention-accepted"):
        res.require(w not in txt, f"self-test: false report on {w} ({txt})")
    res.count("selftest_cases", 9)
    return res
