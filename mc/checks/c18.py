"""C18: every computation runs on the device of the particle and gives there what it gives on the CPU."""
import itertools
import math

import numpy as np
import torch

from mc import simdev
from mc.simdev import DEVICE, Device, put
from mc.world import BACKENDS, C, F, PI, bk, ms, pmd, t64, tc, to_np

h, s = pmd.helper, pmd.special
LEVEL = "model_checking"
CHUNK = 8
RULE = (
    "The real code runs on a simulated second device (mc/simdev.py: every tensor operation is intercepted, operands on different devices are refused, values leave only by an explicit copy). "
    "Every observable x solver x particle description x way of reaching the device x form of the arguments, gradients, every special function and helper, and all histories of moves and evaluations "
    "of two particles sharing materials are executed there; each result must live on that device and equal the result of the same program on the CPU."
)
BOUNDS = {
    "quick": "10 particle descriptions x 5 ways to the device x 4 observables x 4 solvers x 7 argument forms (pairs); function interface with 8 placements; histories of length <= 3 over 11 operations; 30 special functions and helpers",
    "thorough": "all combinations; histories of length <= 4",
}
ASSUMPTIONS = [
    "the simulated device follows the placement rules of real accelerators for the operations the library uses; kernels are those of the CPU",
    "the bridge to the coupled-dipole solver is not included (device handling of that package is not ours)",
]

DESC = {
    "layers1": lambda t: dict(r_layers=t([60.0]), eps_layers=t([12 + 0.1j]), mat_env=1.33),
    "layers2": lambda t: dict(r_layers=t([40.0, 60.0]), eps_layers=t([2.25 + 0j, 4 + 1j]), mat_env=1.0),
    "layers3": lambda t: dict(r_layers=t([20.0, 40.0, 60.0]), eps_layers=t([2.25 + 0j, -9 + 0.5j, 4.0]), mat_env=1.33),
    "legacy1": lambda t: dict(r_core=60.0, mat_core=3.5, mat_env=1.0),
    "legacy2": lambda t: dict(r_core=40.0, mat_core=1.5 + 0.1j, r_shell=60.0, mat_shell=2.0, mat_env=1.33),
    "radius tensors": lambda t: dict(r_core=t(40.0), mat_core=2.0, r_shell=t(60.0), mat_shell=t(1.5), mat_env=t(1.2)),
    "table": lambda t: dict(r_core=60.0, mat_core=M("Au"), mat_env=1.0),
    "formula": lambda t: dict(r_layers=[60.0], mat_layers=[M("SiO2")], mat_env=1.0),
    "mixed": lambda t: dict(r_layers=t([20.0, 50.0, 60.0]), mat_layers=[M("Ag"), M("TiO2"), K(2.25)], mat_env=K(1.7)),
    "host material": lambda t: dict(r_core=40.0, mat_core=M("Si"), r_shell=60.0, mat_shell=M("Al2O3o"), mat_env=M("SiO2")),
}
WAYS = ["argument", "moved", "there and back", "from tensors", "materials first"]
OBS = ["cross", "coef", "angular", "near", "internal"]
KS = ["tensor", "list", "cpu tensor", "float", "array", "0d", "one"]
KVAL = [0.0126, 0.0085, 0.0151]
TH = [0.0, 0.5, PI / 2, 2.2, PI]
PTS = [[20.0, 10.0, 5.0], [70.0, 30.0, -20.0], [-60.0, 50.0, 40.0], [0.0, 0.0, 150.0], [200.0, 0.0, 0.0], [-3.0, 40.0, -30.0]]
FUNS = dict(cross=ms.cross_sections, coef=ms.mie_coefficients, angular=ms.angular_scattering, near=ms.nearfields, internal=ms.mie_coefficients)
PLACES = ["all", "k0", "numbers", "host default", "layer lists", "theta cpu", "legacy"]


def M(name):
    return pmd.materials.MatDatabase(name)


def K(eps):
    return pmd.materials.MatConstant(eps)


def nlayers(d):
    return 3 if d in ("layers3", "mixed") else 2


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["particle", "function", "gradient", "special", "helper", "material", "history"])
    if part == "particle":
        d = ch.pick("description", list(DESC))
        c = dict(part=part, d=d, way=ch.pick("way", WAYS), obs=ch.pick("observable", OBS[: 4 if nlayers(d) > 2 else 5]), b=ch.pick("backend", BACKENDS if nlayers(d) < 3 else BACKENDS[:1]), k=ch.pick("k0", KS),
                 n_max=ch.pick("orders", [None, 3]), arg=ch.pick("positions", ["there", "cpu", "list"]), name=ch.pick("device name", ["lazy", "lazy:0", "object"]))
        if c["obs"] == "internal" and c["b"][0] == "pena" or c["obs"] not in ("angular", "near") and c["arg"] != "there":
            ch.prune()
        if not T and (c["way"] != "argument") + (c["k"] != "tensor") + (c["n_max"] is not None) + (c["arg"] != "there") + (c["name"] != "lazy") > 1:
            ch.prune()
        return c
    if part == "function":
        L = ch.pick("layers", [1, 2, 3])
        c = dict(part=part, L=L, obs=ch.pick("observable", OBS[: 4 if L > 2 else 5]), b=ch.pick("backend", BACKENDS if L < 3 else BACKENDS[:1]), place=ch.pick("placement", PLACES), np=ch.pick("particles", [1, 2]),
                 n_max=ch.pick("orders", [None, 3]), precision=ch.pick("precision", ["double", "single"]))
        if c["obs"] == "internal" and c["b"][0] == "pena" or c["place"] == "legacy" and L > 2 or c["place"] == "theta cpu" and c["obs"] not in ("angular", "near"):
            ch.prune()
        if not T and (c["place"] != "all") + (c["np"] != 1) + (c["n_max"] is not None) + (c["precision"] != "double") > 1:
            ch.prune()
        return c
    if part == "gradient":
        L = ch.pick("layers", [1, 2, 3])
        return dict(part=part, L=L, obs=ch.pick("observable", OBS[:4]), b=ch.pick("backend", BACKENDS if L < 3 else BACKENDS[:1]), api=ch.pick("interface", ["function", "particle"]), n_max=ch.pick("orders", [None, 3]))
    if part == "special":
        return dict(part=part, f=ch.pick("function", list(SPECIAL)), n=ch.pick("order", [1, 4, 9]), z=ch.pick("argument", ["complex", "real", "2d", "wide", "small"]), precision=ch.pick("precision", ["double", "single"]), grad=ch.pick("derivative", [False, True]))
    if part == "helper":
        return dict(part=part, f=ch.pick("function", list(HELPER)))
    if part == "material":
        return dict(part=part, m=ch.pick("material", ["Au", "SiO2", "const", "const real", "Si", "list"]), way=ch.pick("way", ["argument", "moved", "there and back", "lookup first"]), w=ch.pick("wavelengths", ["tensor", "cpu tensor", "list", "float", "0d", "outside"]), twice=ch.pick("twice", [False, True]))
    n = ch.pick("length", [1, 2, 3] + ([4] if T else []))
    return dict(part=part, ops=[ch.pick("operation", list(OPS)) for _ in range(n)])


# ------------------------------------------------------------------ two worlds: the device and the CPU
class World:
    """how tensors are made: on the simulated device, or all on the CPU (the model)"""

    def __init__(self, sim):
        self.sim = sim
        self.dev = DEVICE if sim else torch.device("cpu")

    def there(self, x, grad=False):
        t = x if isinstance(x, torch.Tensor) else torch.tensor(x, dtype=C if np.iscomplexobj(x) else F)
        if self.sim:
            return put(t, grad)
        return t.detach().clone().requires_grad_(grad)

    def here(self, x):
        return x if isinstance(x, torch.Tensor) else torch.tensor(x, dtype=C if np.iscomplexobj(x) else F)


def both(rec, program):
    """run the program on the device and on the CPU"""
    ref = program(World(False))
    with Device():
        got = rec.call(program, World(True))
    return got, ref


def judge(rec, got, ref, dev=DEVICE, path="result", rtol=1e-10):
    if isinstance(ref, dict):
        rec.true(f"{path}: keys", set(got) == set(ref), f"{sorted(got)}")
        for k in ref:
            if k in got:
                judge(rec, got[k], ref[k], dev, f"{path}[{k}]", rtol)
    elif isinstance(ref, (list, tuple)):
        rec.true(f"{path}: length", len(got) == len(ref))
        for i, (a, b) in enumerate(zip(got, ref)):
            judge(rec, a, b, dev, f"{path}[{i}]", rtol)
    elif isinstance(ref, torch.Tensor):
        rec.true(f"{path}: device", isinstance(got, torch.Tensor) and got.device == dev, f"{getattr(got, 'device', type(got))}")
        if isinstance(got, torch.Tensor):
            rec.true(f"{path}: type", got.dtype == ref.dtype, f"{got.dtype} {ref.dtype}")
            a, b = to_np(simdev.value(got)), to_np(ref)
            if not np.isfinite(b).all():
                rec.true(f"{path}: not finite alike", a.shape == b.shape and np.array_equal(np.isfinite(a), np.isfinite(b)))
            else:
                rec.close(path, a, b, rtol=rtol if ref.dtype in (F, C) else 1e-5, atol=1e-290)
    elif isinstance(ref, np.ndarray):
        rec.close(path, got, ref, rtol=rtol)
    else:
        rec.true(f"{path}: value", type(got) is type(ref) and (got == ref or got != got and ref != ref), f"{got} {ref}")


def k_of(w, k):
    return {"tensor": lambda: w.there(KVAL), "list": lambda: KVAL, "cpu tensor": lambda: w.here(KVAL), "float": lambda: KVAL[0], "array": lambda: np.array(KVAL), "0d": lambda: w.there(KVAL[1]), "one": lambda: w.there(KVAL[:1])}[k]()


def options(b, n_max, precision="double"):
    o = bk(b)
    if n_max is not None:
        o["n_max"] = n_max
    if precision != "double":
        o["precision"] = precision
    return o


def run(cfg, rec):
    globals()["run_" + cfg["part"]](cfg, rec)


def make(w, d, way, dev):
    """the particle on the device"""
    t = w.here
    if way == "from tensors":
        t = w.there
    kw = DESC[d](t)
    if way == "materials first":
        for q in [kw.get("mat_core"), kw.get("mat_shell"), kw.get("mat_env")] + list(kw.get("mat_layers") or []):
            if hasattr(q, "set_device"):
                q.set_device(dev)
    if way in ("moved", "there and back"):
        p = pmd.Particle(**kw)
        if way == "there and back":
            p.get_cross_sections(KVAL[0])
            p.set_device(dev)
            p.get_cross_sections(KVAL[0])
            p.set_device("cpu")
            p.get_cross_sections(KVAL[1])
        p.set_device(dev)
        return p
    return pmd.Particle(device=dev, **kw)


def ask(p, obs, k, opt, w=None, arg="there"):
    put_ = dict(there=lambda v: w.there(v), cpu=lambda v: w.here(v), list=lambda v: v)[arg]
    if obs == "cross":
        return p.get_cross_sections(k, **opt)
    if obs == "coef":
        return p.get_mie_coefficients(k, **opt)
    if obs == "internal":
        return p.get_mie_coefficients(k, return_internal=True, **opt)
    if obs == "angular":
        return p.get_angular_scattering(k, put_(TH), **opt)
    return p.get_nearfields(k, put_(PTS), **opt)


def state(p):
    """tensors the particle owns"""
    out = dict(r_layers=p.r_layers, r_c=p.r_c)
    if p.r_s is not None:
        out["r_s"] = p.r_s
    if p.eps_layers is not None:
        out["eps_layers"] = p.eps_layers
    return out


def run_particle(cfg, rec):
    def program(w):
        dev = "cpu" if not w.sim else DEVICE if cfg["name"] == "object" else cfg["name"]
        p = make(w, cfg["d"], cfg["way"], dev)
        if w.sim:
            rec.true("device of the particle", torch.device(p.device).type == DEVICE.type, str(p.device))
            repr(p)
        return dict(result=ask(p, cfg["obs"], k_of(w, cfg["k"]), options(cfg["b"], cfg["n_max"]), w, cfg["arg"]), state=state(p), eps=list(p.get_material_permittivities(k_of(w, cfg["k"]))))

    judge(rec, *both(rec, program))


RAD = [[20.0, 40.0, 60.0], [35.0, 42.0, 80.0]]
EPS = [2.25 + 0.2j, 12.0 + 0j, -6.0 + 0.4j]


def run_function(cfg, rec):
    L, place, obs = cfg["L"], cfg["place"], cfg["obs"]

    def program(w):
        r = [q[3 - L :] for q in RAD][: cfg["np"]]
        e = EPS[:L]
        r = r if cfg["np"] > 1 else r[0]
        put_ = w.there if place in ("all", "host default", "theta cpu", "legacy") else (lambda v: v)
        kw = dict(k0=w.there(KVAL), r_layers=put_(r), eps_layers=put_(e), eps_env=put_(1.7) if place != "k0" else w.there(1.7))
        if place == "numbers" and cfg["np"] == 1:
            kw["k0"] = w.there(KVAL[0])
        if place == "layer lists":
            kw["eps_env"] = w.there([1.7] * 3)
        if place == "host default":
            del kw["eps_env"]
        if place == "legacy":
            rr = torch.atleast_2d(w.there(r))
            del kw["r_layers"], kw["eps_layers"]
            kw.update(r_c=rr[:, 0], eps_c=w.there([e[0]] * len(rr) if len(rr) > 1 else e[0]))
            if L > 1:
                kw.update(r_s=rr[:, 1], eps_s=w.there([e[1]] * len(rr) if len(rr) > 1 else e[1]))
        opt = options(cfg["b"], cfg["n_max"], cfg["precision"])
        other = w.here if place == "theta cpu" else w.there
        if obs == "angular":
            opt["theta"] = other(TH)
        if obs == "near":
            opt["r_probe"] = other(PTS)
        if obs == "internal":
            opt["return_internal"] = True
        return FUNS[obs](**kw, **opt)

    judge(rec, *both(rec, program))


def total(res, obs):
    names = dict(cross=["q_ext", "cs_sca", "cs_abs"], coef=["a_n", "b_n"], angular=["S1", "S2", "i_unpol"], near=["E_s", "H_s", "E_t"])[obs]
    return sum((res[n].abs() ** 2 if res[n].is_complex() else res[n]).sum() / (1 + 0.1 * i) for i, n in enumerate(names))


def run_gradient(cfg, rec):
    L, obs = cfg["L"], cfg["obs"]

    def program(w):
        r, e, k = w.there(RAD[0][3 - L :], True), w.there(EPS[:L], True), w.there(KVAL, True)
        opt = options(cfg["b"], cfg["n_max"])
        leaves = dict(r=r, eps=e, k0=k)
        if cfg["api"] == "particle":
            p = pmd.Particle(r_layers=r, eps_layers=e, mat_env=1.3, device=w.dev)
            res = ask(p, obs, k, opt, w)
        else:
            env = leaves["host"] = w.there(1.7, True)
            if obs == "angular":
                opt["theta"] = leaves["theta"] = w.there(TH[1:4], True)
            if obs == "near":
                opt["r_probe"] = leaves["probe"] = w.there(PTS[:4], True)
            res = FUNS[obs](k0=k, r_layers=r, eps_layers=e, eps_env=env, **opt)
        total(res, obs).backward()
        return {n: v.grad for n, v in leaves.items() if v.grad is not None}

    got, ref = both(rec, program)
    judge(rec, got, ref, rtol=1e-9)


# ------------------------------------------------------------------ special functions
def _n(w, n):
    return w.there(torch.tensor(n)) if w.sim else torch.tensor(n)


SPECIAL = {
    **{f: (lambda w, n, z, p, f=f: getattr(s, f)(_n(w, n), z)) for f in ("sph_jn", "sph_yn", "sph_h1n", "sph_jn_der", "sph_yn_der", "sph_h1n_der", "psi", "chi", "xi")},
    **{f: (lambda w, n, z, p, f=f: getattr(s, f)(_n(w, n), z, precision=p)) for f in ("sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch", "xi_torch")},
    "D1n_torch": lambda w, n, z, p: s.D1n_torch(_n(w, n), z, precision=p),
    "D3n_torch": lambda w, n, z, p: s.D3n_torch(_n(w, n), z, s.D1n_torch(_n(w, n), z, precision=p), precision=p),
    "pena_D1": lambda w, n, z, p: s.pena_D1_n(_n(w, n), z, precision=p),
    "pena_D3": lambda w, n, z, p: s.pena_D3_n(_n(w, n), z, precision=p),
    "pena_psi_zeta": lambda w, n, z, p: s.pena_psi_zeta_n(_n(w, n), z, precision=p),
    "pi_tau": lambda w, n, z, p: s.pi_tau(n, torch.cos(z.real if z.is_complex() else z)),
    **{f"{f} {k}": (lambda w, n, z, p, f=f, k=k: _vsh(w, f, n, z, k)) for f in ("vsh", "vsh_pena") for k in (1, 3)},
}


def _vsh(w, f, n, z, kind):
    r = (z.abs() * 100.0).reshape(1, 1, -1)
    ang = (z.abs() * 0 + 0.7).reshape(1, 1, -1)
    return list(getattr(s, f)(n, w.there([[[0.01]]]) + 0 * r, w.there([[[1.3 + 0j]]]) + 0 * r, r, ang, 2 * ang, kind))


ZS = {"complex": [0.5 + 0.1j, 1.0, 3 - 0.3j, 12 + 1j], "real": [0.6, 2.0, 9.0], "2d": [[0.9, 2.0 + 1j], [4.0, 30.0]], "wide": [0.3, 60.0, 150.0 + 2j], "small": [1e-3, 0.02]}


def run_special(cfg, rec):
    zz = ZS[cfg["z"]]
    if cfg["f"] == "pi_tau" or cfg["f"].startswith("vsh"):
        zz = list(np.ravel(np.array(zz)))

    def program(w):
        z = w.there(np.array(zz).tolist(), cfg["grad"])
        out = SPECIAL[cfg["f"]](w, cfg["n"], z, cfg["precision"])
        out = list(out) if isinstance(out, (tuple, list)) else [out]
        if cfg["grad"]:
            sum((q.abs().log1p() if q.is_complex() else q.abs().log1p()).sum() for q in out).backward()
            return [z.grad]
        return out

    try:
        program(World(False))
    except Exception:  # noqa: BLE001  not offered on the CPU either
        return rec.true("nothing to compare", True)
    got, ref = both(rec, program)
    judge(rec, got, ref, rtol=1e-9)


# ------------------------------------------------------------------ helpers
def _interp(w):
    x, y = w.there([3.0, 1.0, 2.0, 5.0]), w.there([1 + 1j, 2.0, 0.5j, 3.0])
    return h.interp1d(w.there([1.5, 0.2, 4.0, 9.0, 2.0]), x, y)


HELPER = {
    "interp1d": _interp,
    "to spherical": lambda w: list(h.transform_xyz_to_spherical(*[w.there(v) for v in ([1.0, 0, -2], [0.0, 0, 3], [0.0, 2, -1])])),
    "to cartesian": lambda w: list(h.transform_spherical_to_xyz(*[w.there(v) for v in ([1.0, 2, 3], [0.0, 1, PI], [0.0, 2, 3])])),
    "vector components": lambda w: h.transform_fields_spherical_to_cartesian(*[w.there([1.0 + 1j, 2.0, 0.5j]) for _ in range(3)], *[w.there(v) for v in ([1.0, 2, 3], [0.0, 1, PI], [0.0, 2, 3])]),
    "wiscombe": lambda w: int(h.get_truncution_criteroin_wiscombe(w.there([0.1, 5.0, 30.0]))),
    "wiscombe one": lambda w: int(h.get_truncution_criteroin_wiscombe(w.there(12.0))),
    "pena": lambda w: int(h.get_truncution_criteroin_pena2009(w.there([[0.01, 0.02]]), w.there([[40.0, 60.0]]), w.there([[[2.0 + 0j, 3.0], [4.0, 5.0]]]), w.there([[1.0, 1.0]]))),
    "detach": lambda w: [np.asarray(q) for q in h.detach_tensor((w.there([1.0, 2.0], True), w.there(3.0)))],
}


def run_helper(cfg, rec):
    judge(rec, *both(rec, HELPER[cfg["f"]]))


# ------------------------------------------------------------------ materials
def run_material(cfg, rec):
    def program(w):
        dev = w.dev
        make_ = {"Au": lambda **k: pmd.materials.MatDatabase("Au", **k), "SiO2": lambda **k: pmd.materials.MatDatabase("SiO2", **k), "Si": lambda **k: pmd.materials.MatDatabase("Si", **k),
                 "const": lambda **k: pmd.materials.MatConstant(2.0 + 0.5j, **k), "const real": lambda **k: pmd.materials.MatConstant(w.there(3.0), **k),
                 "list": lambda **k: pmd.materials.MatDatabase("Ag", init_lookup_wavelengths=[500.0, 700.0], **k)}[cfg["m"]]
        if cfg["way"] == "argument":
            m = make_(device=dev)
        else:
            m = make_()
            if cfg["way"] == "lookup first":
                m.get_epsilon(w.here([500.0, 600.0]))
            m.set_device(dev)
            if cfg["way"] == "there and back":
                m.get_epsilon(w.there([500.0]))
                m.set_device("cpu")
                m.get_epsilon(w.here([500.0, 800.0]))
                m.set_device(dev)
        wl = {"tensor": lambda: w.there([500.0, 633.3, 800.0]), "cpu tensor": lambda: w.here([500.0, 633.3, 800.0]), "list": lambda: [500.0, 633.3], "float": lambda: 500.0, "0d": lambda: w.there(600.0),
              "outside": lambda: w.there([100.0, 500.0, 5e4])}[cfg["w"]]()
        out = [m.get_epsilon(wl)]
        if cfg["twice"]:
            out += [m.get_epsilon(wl), m.get_epsilon(wavelength=w.there([500.0]))]
        repr(m)
        return out

    judge(rec, *both(rec, program), rtol=1e-6)


# ------------------------------------------------------------------ histories
OPS = ["A there", "A here", "B there", "B here", "table there", "table here", "A cross", "A near", "B cross", "B gradient", "table", "new"]


def world(w):
    t, f, c = M("Au"), M("SiO2"), K(2.25 + 0.1j)
    o = dict(t=t, A=pmd.Particle(r_core=40.0, mat_core=t, r_shell=60.0, mat_shell=c, mat_env=1.33), B=pmd.Particle(r_layers=[20.0, 50.0], mat_layers=[c, t], mat_env=f))
    return o


def step(o, w, name):
    """returns (result, device it must live on)"""
    k = [0.0126, 0.009]
    dev, cpu = w.dev, torch.device("cpu")
    who, _, what = name.partition(" ")
    if what in ("there", "here"):
        x = o["t"] if who == "table" else o[who]
        x.set_device(dev if what == "there" else "cpu")
        return None, None
    if name == "table":
        return o["t"].get_epsilon(w.here([500.0, 640.0])), o["t"].device
    if name == "new":  # one more user of the shared material, on the device
        p = pmd.Particle(r_core=30.0, mat_core=o["t"], mat_env=1.0, device=dev)
        return p.get_cross_sections(w.here(k), n_max=2), p.device
    p = o[who]
    if what == "cross":
        return p.get_cross_sections(w.here(k), n_max=2), p.device
    if what == "near":
        return p.get_nearfields(w.here(k), w.here(PTS[:3]), n_max=2), p.device
    kk = w.here(torch.tensor(k, dtype=F)).clone().requires_grad_(True)
    p.get_cross_sections(kk, n_max=2)["q_ext"].sum().backward()
    return kk.grad, cpu


REF = {}


def run_history(cfg, rec):
    w0 = World(False)
    w = World(True)
    with Device():
        o = rec.call(world, w)
    for i, name in enumerate(cfg["ops"]):
        if name not in REF:
            REF[name] = step(world(w0), w0, name)[0]
        with Device():
            r, dev = rec.call(step, o, w, name)
        if r is not None:
            judge(rec, r, REF[name], torch.device(dev) if torch.device(dev).type == "cpu" else DEVICE, f"{i} {name}")
        else:
            rec.true("moved", True)
