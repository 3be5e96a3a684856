"""C11: database and custom materials reproduce their source data."""
import cmath
import os
import re
import shutil
import tempfile

import numpy as np
import torch

from mc.world import pmd, to_np

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "table/formula: for every material of the database every data point, its float neighbours, four points of every interval (or 200 points of the validity range) and points outside "
    "are looked up in every order and argument form and compared with an independent reading of the source file; gradient: the wavelength derivative in every interval; "
    "custom: every generated file (kind x number of rows x order of rows x columns x layout x extra entries) is loaded and looked up; reject: every unsupported name, type and file; "
    "constant: every value x argument form."
)
BOUNDS = {
    "quick": "17 materials x all nodes and intervals x 4 orders x 8 argument forms; custom tables of 1..4, 40 and 700 rows and formulas of 0..8 terms in every layout; 14 constants x 8 types x 13 wavelength forms",
    "thorough": "as quick, with all orders x all forms and longer custom tables",
}
ASSUMPTIONS = [
    "interpolation is linear in the permittivity (as documented: tabulated permittivity), wavelengths are stored in single precision: tolerance 4e-6 of the permittivity plus four single-precision steps of the wavelength",
    "wavelength order 1000 * micrometres; a table without k column is lossless",
]

DATA = os.path.join(os.path.dirname(pmd.materials.__file__), "data")
_NUM = re.compile(r"^[\s]*([-+0-9.eE]+)[\s]+([-+0-9.eE]+)(?:[\s]+([-+0-9.eE]+))?\s*$")


class Source:
    """independent line-based reading of a refractiveindex.info file (first DATA entry)"""

    def __init__(self, path):
        lines = open(path, encoding="utf8").read().split("\n")
        i = next(k for k, l in enumerate(lines) if l.strip() == "DATA:")
        typ = None
        rows, coef, rng = [], None, None
        for l in lines[i + 1 :]:
            t = l.strip()
            if t.startswith("- type:"):
                if typ is not None:
                    break
                typ = t.split(":")[1].strip()
            elif t.startswith(("wavelength_range:", "range:")):
                rng = [1e3 * float(q) for q in t.split(":")[1].split()]
            elif t.startswith("coefficients:"):
                coef = [float(q) for q in t.split(":")[1].split()]
            elif l and not l[0].isspace() and typ is not None:
                break
            else:
                m = _NUM.match(l)
                if m and typ and typ.startswith("tabulated"):
                    rows.append((1e3 * float(m[1]), complex(float(m[2]), float(m[3] or 0.0)) ** 2))
        self.type, self.coef, self.range = typ, coef, rng
        if rows:
            rows.sort(key=lambda r: r[0])
            self.wl = np.array([r[0] for r in rows])
            self.eps = np.array([r[1] for r in rows])
            self.range = [self.wl[0], self.wl[-1]]

    @property
    def table(self):
        return self.type.startswith("tabulated")

    def __call__(self, w):
        """value, and the largest slope next to w (per nm)"""
        w = np.asarray(w, float)
        if self.table:
            v = np.interp(w, self.wl, self.eps.real) + 1j * np.interp(w, self.wl, self.eps.imag)
            if len(self.wl) > 1:
                sl = np.abs(np.diff(self.eps) / np.diff(self.wl))
                sl = np.concatenate([[sl[0]], sl, [sl[-1]]])
                i = np.searchsorted(self.wl, w)
                lo, hi = np.clip(i - 1, 0, len(sl) - 1), np.clip(i + 1, 0, len(sl) - 1)
                s = np.max([sl[lo], sl[np.clip(i, 0, len(sl) - 1)], sl[hi]], axis=0)
            else:
                s = np.zeros_like(w)
            sc = np.abs(v)
            return v, s, sc
        c = self.coef
        l2 = (w / 1e3) ** 2
        v = 1.0 + c[0] + np.zeros_like(w)
        s = np.zeros_like(w)
        sc = np.abs(v)
        for i in range(1, len(c), 2):
            t = c[i] * l2 / (l2 - c[i + 1] ** 2)
            v = v + t
            # relative error of the denominator: cancellation next to the resonance
            sc = np.maximum(sc, np.abs(t) * np.maximum(1.0, (l2 + c[i + 1] ** 2) / np.abs(l2 - c[i + 1] ** 2)))
            s = s + np.abs(2e-6 * w * c[i] * c[i + 1] ** 2 / (l2 - c[i + 1] ** 2) ** 2)
        return v.astype(complex), s, sc

    def slope(self, w):
        if self.table:
            i = np.searchsorted(self.wl, w) - 1
            return complex((self.eps[i + 1] - self.eps[i]) / (self.wl[i + 1] - self.wl[i]))
        c, l2 = self.coef, (w / 1e3) ** 2
        return sum(-2e-6 * w * c[i] * c[i + 1] ** 2 / (l2 - c[i + 1] ** 2) ** 2 for i in range(1, len(c), 2))


NAMES = sorted(f for f in os.listdir(DATA) if f.endswith(".yml"))
FORMS = ["vector f32", "vector f64", "numpy", "list", "floats", "0-d tensors", "1-element", "column", "requires grad", "numpy scalars"]
ORDERS = ["up", "down", "twice", "inside out"]


def layout_long(lay, n, T):
    return n > 100 and lay != "plain" and not T


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["database", "names", "gradient", "custom", "reject", "constant", "particle"])
    if part == "database":
        f = ch.pick("file", NAMES)
        o = ch.pick("order", ORDERS)
        form = ch.pick("form", FORMS if o == "up" or T else FORMS[:1] + FORMS[4:5])
        return dict(part=part, file=f, order=o, form=form, init=ch.pick("initial lookup", [False, True] if form == "vector f32" else [False]))
    if part == "names":
        return dict(part=part, file=ch.pick("file", NAMES), case=ch.pick("case", ["as is", "lower", "upper", "swap"]))
    if part == "gradient":
        return dict(part=part, file=ch.pick("file", NAMES), form=ch.pick("form", ["single", "vector"]), warm=ch.pick("looked up before", [False, True]))
    if part == "custom":
        kind = ch.pick("kind", ["nk", "n", "formula 1"])
        lay = ch.pick("layout", ["plain", "blank lines", "tabs", "scientific"])
        extra = ch.pick("extra entries", ["none", "second table", "second formula"])
        if kind == "formula 1":
            return dict(part=part, kind=kind, layout=lay, extra=extra, terms=ch.pick("terms", [1, 0, 2, 3, 4, 5, 8]), c0=ch.pick("c0", ["0", "0.5", "-0.3"]),
                        range=ch.pick("range key", ["wavelength_range", "range"]))
        n = ch.pick("rows", ([2, 1, 3, 4, 5] if T else [2, 1, 3, 4]) + [40, 700])
        if n > 5:  # long tables
            if extra != "none" or layout_long(lay, n, T):
                ch.prune()
            return dict(part=part, kind=kind, layout=lay, extra=extra, n=n, perm=ch.pick("order of rows", ["up", "down", "mixed"]), grid="long", named=False)
        perm = ch.pick("order of rows", range([1, 1, 2, 6, 24, 120][n]))
        return dict(part=part, kind=kind, layout=lay, extra=extra, n=n, perm=perm, grid=ch.pick("grid", ["even", "uneven"] if n > 2 else ["uneven"]),
                    named=ch.pick("named", [True, False]))
    if part == "reject":
        what = ch.pick("what", ["name", "formula", "type", "k only", "missing", "rangeless"])
        if what == "name":
            return dict(part=part, what=what, v=ch.pick("name", ["Unobtainium", "Au_Johnson1972", "au ", "Si,", "gold", "Al2O3", " ", "TiO2.yml"]))
        if what == "formula":
            return dict(part=part, what=what, v=ch.pick("number", [2, 3, 4, 5, 6, 7, 8, 9]))
        if what == "type":
            return dict(part=part, what=what, v=ch.pick("type", ["model x", "drude", "spline nk"]))
        return dict(part=part, what=what, v=0)
    if part == "constant":
        v = ch.pick("value", [[2.25, 0.0], [1.0, 0.0], [-9.0, 1.2], [16.0, 0.0], [0.01, 0.002], [-2.0, 0.0], [3.0, -0.1], [4.0, 1e-6], [0.0, 1.0], [1e4, 1e3], [1.7689, 0.0], [2.0, 0.5], [1e-6, 0.0], [-100.0, 30.0]])
        return dict(part=part, v=v, given=ch.pick("given as", ["complex", "float", "int", "tensor c64", "tensor c128", "tensor f32", "0-d numpy", "default"]))
    return dict(part=part, file=ch.pick("file", NAMES), role=ch.pick("role", ["core", "shell", "env"]), scalar=ch.pick("one wavelength", [True, False]))


def run(cfg, rec):
    return globals()["run_" + cfg["part"]](cfg, rec)


def f32(w):
    return np.asarray(w, np.float32).astype(float)


def points(src):
    lo, hi = src.range
    if src.table:
        w = list(src.wl)
        for a, b in zip(src.wl[:-1], src.wl[1:]):
            w += [a + t * (b - a) for t in (0.5, 0.25, 0.75, 0.999)]
        nodes = np.asarray(src.wl, np.float32)
        w += list(np.nextafter(nodes, np.float32(0)).astype(float)) + list(np.nextafter(nodes, np.float32(1e9)).astype(float))
        w += [0.5 * lo, 0.9 * lo, 1.1 * hi, 3 * hi, 1.0]
    else:
        w = list(np.linspace(lo, hi, 200)) + [round(v) * 1.0 for v in np.linspace(lo, hi, 20)]
    return f32(w)


def order(w, how):
    u = np.unique(w)
    if how == "up":
        return u
    if how == "down":
        return u[::-1].copy()
    if how == "twice":
        return np.concatenate([u, u])
    return np.concatenate([u[len(u) // 2 :], u[: len(u) // 2][::-1]])


def lookup(rec, m, w, form):
    """all points through one argument form -> complex array"""
    if form.startswith("vector"):
        return to_np(rec.call(m.get_epsilon, torch.tensor(w, dtype=torch.float32 if form.endswith("32") else torch.float64)))
    if form == "numpy":
        return to_np(rec.call(m.get_epsilon, np.asarray(w)))
    if form == "list":
        return to_np(rec.call(m.get_epsilon, [float(v) for v in w]))
    if form == "column":
        return to_np(rec.call(m.get_epsilon, torch.tensor(w)[:, None]))
    if form == "requires grad":
        return to_np(rec.call(m.get_epsilon, torch.tensor(w, dtype=torch.float32, requires_grad=True)))
    out = []
    for v in w:
        a = {"floats": float(v), "0-d tensors": torch.tensor(v, dtype=torch.float32), "1-element": torch.tensor([v], dtype=torch.float64), "numpy scalars": np.float64(v)}[form]
        e = rec.call(m.get_epsilon, a)
        if tuple(e.shape) != ():
            rec.fail(f"permittivity at one wavelength has shape {tuple(e.shape)}")
            return None
        out.append(complex(e))
    return np.array(out)


def judge(rec, name, src, w, got):
    v, s, sc = src(w)
    rec.close(name, got, v, rtol=4e-6, scale=sc + (4 * 6e-8 * w * s) / 4e-6)


def run_database(cfg, rec):
    src = Source(os.path.join(DATA, cfg["file"]))
    name = cfg["file"].split("_")[0]
    w = order(points(src), cfg["order"])
    init = None
    if cfg["init"]:
        init = torch.tensor(np.unique(w)[:: max(1, len(w) // 40)], dtype=torch.float32)
    m = rec.call(pmd.materials.MatDatabase, name, init_lookup_wavelengths=init)
    got = lookup(rec, m, w, cfg["form"])
    if got is None:
        return
    judge(rec, f"eps({cfg['file']}) of {cfg['form']}", src, w, got)
    # asked again in another form, after everything has been looked up
    again = to_np(rec.call(m.get_epsilon, torch.tensor(w[::-1].copy(), dtype=torch.float32)))[::-1]
    rec.close("repeated lookup", again, got, rtol=1e-6, atol=1e-9)
    lo, hi = src.range
    rec.true("range", abs(float(m.wl_range[0]) - lo) < 1e-3 * lo and abs(float(m.wl_range[1]) - hi) < 1e-3 * hi, f"{m.wl_range} for {lo}..{hi}")


def run_names(cfg, rec):
    n = cfg["file"].split("_")[0]
    q = {"as is": n, "lower": n.lower(), "upper": n.upper(), "swap": n.swapcase()}[cfg["case"]]
    av = rec.call(pmd.materials.list_available_materials)
    rec.true("list of materials", n.lower() in [a.lower() for a in av] and len(set(av)) == len(NAMES), str(av))
    m = rec.call(pmd.materials.MatDatabase, q)
    src = Source(os.path.join(DATA, cfg["file"]))
    w = f32(np.linspace(src.range[0], src.range[1], 17))
    judge(rec, f"eps of {q}", src, w, to_np(rec.call(m.get_epsilon, torch.tensor(w))))
    rec.true("name", str(m.__name__).lower() == n.lower(), m.__name__)
    rec.call(repr, m)


def run_gradient(cfg, rec):
    src = Source(os.path.join(DATA, cfg["file"]))
    m = rec.call(pmd.materials.MatDatabase, cfg["file"].split("_")[0])
    if src.table:
        w = 0.5 * (src.wl[:-1] + src.wl[1:])
        w = w[np.diff(src.wl) > 1e-3]
        if len(w) > 120:
            w = w[:: len(w) // 120]
    else:
        w = np.linspace(src.range[0], src.range[1], 60)[1:-1]
    w = f32(w)
    if cfg["warm"]:
        rec.call(m.get_epsilon, torch.tensor(w, dtype=torch.float32))
    ref = np.array([src.slope(v) for v in w])
    for part in ("real", "imag"):
        if cfg["form"] == "vector":
            t = torch.tensor(w, dtype=torch.float32, requires_grad=True)
            e = rec.call(m.get_epsilon, t)
            g = torch.autograd.grad(getattr(e, part).sum(), t, allow_unused=True)[0]
            got = np.zeros(len(w)) if g is None else to_np(g)
        else:
            got = []
            for v in w:
                t = torch.tensor(v, dtype=torch.float32, requires_grad=True)
                e = rec.call(m.get_epsilon, t)
                g = torch.autograd.grad(getattr(e, part), t, allow_unused=True)[0] if e.requires_grad else None
                rec.true("gradient exists", e.requires_grad)
                got.append(0.0 if g is None else float(g))
            got = np.array(got)
        _, s, sc = src(w)
        gap = np.array([np.diff(src.wl)[np.searchsorted(src.wl, v) - 1] for v in w]) if src.table else w
        rec.close(f"d {part} eps / d wavelength", got, getattr(ref, part), rtol=1e-3, scale=np.abs(ref) + 3e-3 * sc / gap + 3e-4 * sc * w * 1e-4 / gap**2)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c11_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


GRID = {"even": [0.4, 0.5, 0.6, 0.7, 0.8], "uneven": [0.35, 0.5, 0.505, 0.9, 2.5]}
NK = [(1.5, 0.2), (2.5, 1.0), (0.3, 3.0), (4.0, 0.01), (3.7, 0.0)]


def _perm(n, k):
    import itertools

    if n > 5:
        return {"up": range(n), "down": range(n)[::-1], "mixed": [(17 * i + 5) % n for i in range(n)]}[k]

    return list(itertools.permutations(range(n)))[k]


def custom_text(cfg):
    sep = "\t" if cfg["layout"] == "tabs" else "   "
    fmt = (lambda v: f"{v:.6e}") if cfg["layout"] == "scientific" else (lambda v: f"{v:g}")
    t = "REFERENCES: \"none\"\nCOMMENTS: \"generated\"\nDATA:\n"
    if cfg["kind"] == "formula 1":
        co = [cfg["c0"]] + [fmt(v) for v in [0.7, 0.07, 0.41, 0.12, 0.9, 9.9, 0.35, 12.5, 0.2, 0.15, 0.05, 0.04, 0.6, 20.0, 0.11, 0.18][: 2 * cfg["terms"]]]
        t += f"  - type: formula 1\n    {cfg['range']}: 0.3 2.0\n    coefficients: {' '.join(co)}\n"
    else:
        t += f"  - type: tabulated {cfg['kind']}\n    data: |\n"
        for i in _perm(cfg["n"], cfg["perm"]):
            if cfg["n"] > 5:
                w, n, k = 0.25 + 1.5 * i / cfg["n"] + 0.3 / cfg["n"] * (i % 3), 2.0 + 1.7 * np.sin(0.37 * i), 0.05 * (i % 11)
                if cfg["layout"] != "scientific":
                    w, n = round(w, 5), round(n, 4)
            else:
                w, (n, k) = GRID[cfg["grid"]][i], NK[i]
            cols = [fmt(w), fmt(n)] + ([fmt(k)] if cfg["kind"] == "nk" else [])
            t += "        " + (" " if sep == "\t" else "") + sep.join(cols) + ("\n\n" if cfg["layout"] == "blank lines" else "\n")
    if cfg["extra"] == "second table":
        t += "  - type: tabulated nk\n    data: |\n        0.3 9.0 9.0\n        3.0 9.0 9.0\n"
    elif cfg["extra"] == "second formula":
        t += "  - type: formula 1\n    wavelength_range: 0.2 5.0\n    coefficients: 0 9.0 0.1\n"
    return t + "SPECS:\n    n_is_absolute: true\n"


def run_custom(cfg, rec):
    with Scratch() as d:
        path = os.path.join(d, "my-mat.yml")
        with open(path, "w") as f:
            f.write(custom_text(cfg))
        src = Source(path)
        # a database name together with a file: the file counts, the name is only a label
        m = rec.call(pmd.materials.MatDatabase, "Au" if cfg.get("named") else "", path) if cfg["kind"] != "formula 1" else rec.call(pmd.materials.MatDatabase, yaml_file=path)
        rec.true("name", m.__name__ == ("Au" if cfg.get("named") else "my-mat"), m.__name__)
        w = points(src)
        judge(rec, "eps", src, w, to_np(rec.call(m.get_epsilon, torch.tensor(w, dtype=torch.float32))))
        m2 = rec.call(pmd.materials.MatDatabase, yaml_file=path)
        for v in w[:7]:
            judge(rec, "eps at one wavelength", src, np.array(v), to_np(rec.call(m2.get_epsilon, float(v))))
        rec.call(repr, m)


def run_reject(cfg, rec):
    what = cfg["what"]
    if what == "name":
        rec.must_raise(f"material {cfg['v']!r}", pmd.materials.MatDatabase, cfg["v"], exc=(ValueError, KeyError))
        return
    with Scratch() as d:
        path = os.path.join(d, "bad.yml")
        if what == "missing":
            rec.must_raise("missing file", lambda: pmd.materials.MatDatabase("Au", path), exc=(OSError,))
            return
        if what == "formula":
            t = f"DATA:\n  - type: formula {cfg['v']}\n    wavelength_range: 0.3 2.0\n    coefficients: 0 0.7 0.07 0.4 0.1\n"
        elif what == "type":
            t = f"DATA:\n  - type: {cfg['v']}\n    data: |\n        0.3 1.0 0.1\n        0.9 1.0 0.1\n"
        elif what == "k only":
            t = "DATA:\n  - type: tabulated k\n    data: |\n        0.3 1.0\n        0.9 1.0\n"
        else:
            t = "DATA:\n  - type: formula 1\n    coefficients: 0 0.7 0.07\n"
        with open(path, "w") as f:
            f.write(t)

        def use():
            m = pmd.materials.MatDatabase(yaml_file=path)
            return m.get_epsilon(torch.tensor([500.0]))

        rec.must_raise(f"{what} {cfg['v']}", use)


def run_constant(cfg, rec):
    v = complex(*cfg["v"])
    g = cfg["given"]
    if g in ("float", "int", "tensor f32") and (v.imag != 0 or (g == "int" and v.real != int(v.real))):
        v = complex(round(v.real), 0)
    if g == "default":
        m, v = rec.call(pmd.materials.MatConstant), 2.0 + 0j
    else:
        a = dict(complex=lambda: v, float=lambda: v.real, int=lambda: int(v.real)).get(g)
        if a is None:
            a = {"tensor c64": lambda: torch.tensor(v, dtype=torch.complex64), "tensor c128": lambda: torch.tensor(v, dtype=torch.complex128),
                 "tensor f32": lambda: torch.tensor(v.real, dtype=torch.float32), "0-d numpy": lambda: np.array(v)}[g]
        m = rec.call(pmd.materials.MatConstant, a())
    rec.call(repr, m)
    one = [500, 500.0, torch.tensor(500.0), torch.tensor(1e-3, dtype=torch.float64), torch.tensor([633.0]), np.float64(1e6), torch.tensor(3)]
    for w in one:
        rec.close(f"eps({w})", rec.call(m.get_epsilon, w), np.array(v), rtol=3e-7)
    many = [torch.linspace(300, 900, 7), torch.linspace(300, 900, 2, dtype=torch.float64), np.linspace(1, 1e5, 5), [400.0, 500.0, 600.0], torch.tensor([[400.0], [500.0]]), torch.tensor([400, 500])]
    for w in many:
        n = len(w)
        rec.close(f"eps of {n} wavelengths", rec.call(m.get_epsilon, w), np.full(n, v), rtol=3e-7)


def run_particle(cfg, rec):
    """through the high-level interface: the permittivities of core, shell and host at the wavelengths of the wavenumbers"""
    src = Source(os.path.join(DATA, cfg["file"]))
    lo, hi = src.range
    w = np.array([0.5 * (lo + hi)]) if cfg["scalar"] else np.linspace(lo + 0.01 * (hi - lo), hi - 0.01 * (hi - lo), 9)
    k0 = torch.tensor(2 * np.pi / w, dtype=torch.float64)
    db = rec.call(pmd.materials.MatDatabase, cfg["file"].split("_")[0])
    mats = dict(core=2.0, shell=1.5, env=1.33)
    mats[cfg["role"]] = db
    p = rec.call(pmd.Particle, mat_core=mats["core"], mat_shell=mats["shell"], mat_env=mats["env"], r_core=50.0, r_shell=70.0)
    out = rec.call(p.get_material_permittivities, k0)
    lay, env = out[0], out[-1]
    ww = f32(2 * np.pi / to_np(k0))
    v, s, sc = src(ww)
    scale = sc + (40 * 6e-8 * ww * s) / 4e-6
    lay, env = to_np(lay), to_np(env)
    got = dict(env=env)
    rec.true("layers", lay.shape[0] == 2, str(lay.shape))
    got["core"], got["shell"] = lay[0], lay[1]
    for role in ("core", "shell", "env"):
        g = np.ravel(got[role])
        if role == cfg["role"]:
            rec.close(f"eps of {role}", g, v, rtol=4e-6, scale=scale)
        else:
            rec.close(f"eps of {role}", g, np.full(len(g), complex(mats[role]) ** 2), rtol=1e-6)
