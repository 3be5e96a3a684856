"""C16: single precision agrees with double precision to single accuracy; double stays double."""
import numpy as np
import torch

from mc.world import BACKENDS, C, F, FIELDS, PI, Config, bk, fmax, legacy_domain, ms, natural, pmd, t64, tc, to_np, wiscombe

LEVEL = "model_checking"
CHUNK = 8
RULE = (
    "Every observable x solver x Bessel algorithm x precision setting x type of the inputs (either precision, mixed both ways, global default type) x particle of one to five layers x size x order is "
    "computed and compared with the double-precision result for exactly the same (rounded) inputs and with an independent high-precision solution; the same for batches, the particle interface with "
    "database materials, gradients, and every special function with a precision setting."
)
BOUNDS = {
    "quick": "11 particles x 6 sizes x 4 solvers x 5 input types x 2 precisions; orders: automatic, 1, 3, far above; each argument in either precision (2^5); special functions: 12 orders x 16 arguments",
    "thorough": "20 particles x 9 sizes x 2 hosts",
}
ASSUMPTIONS = [
    "single accuracy: 1e-4 of the largest value up to size parameter 2, growing to 4e-3 at 20 (sharp resonances amplify the rounding of the inputs); measured errors are 10 times smaller",
    "the closed-form core-shell formulas need y_n to fit the single-precision range: far orders are checked for the default solver only",
]

LET = [("d15",), ("m", "d15"), ("d40",), ("a",), ("m",), ("d15", "d40"), ("v", "a", "d15"), ("d15", "m", "d40", "a"), ("l",), ("s", "d15"), ("d40", "v", "d15", "a", "m")]
LET_T = [("t",), ("d40", "m"), ("a", "a"), ("z",), ("v", "d15"), ("d15", "v"), ("s",), ("M",), ("d15", "d15", "d40")]
X = [1.0, 0.1, 5.0, 0.5, 10.0, 2.0]
X_T = [0.02, 3.0, 20.0]
TYPES = {"32": (torch.float32, torch.complex64), "64": (torch.float64, torch.complex128), "32/128": (torch.float32, torch.complex128), "64/64": (torch.float64, torch.complex64)}
OBS = ["cross", "coef", "angular", "near"]
PTS = np.array([[20.0, 10.0, 5.0], [70.0, 30.0, -20.0], [-60.0, 50.0, 40.0], [120.0, -90.0, 60.0], [0.0, 0.0, 150.0], [200.0, 0.0, 0.0], [0.0, -130.0, 0.0], [-3.0, 40.0, -50.0]])
TH = [0.0, 0.5, PI / 2, 2.2, 3.1]


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["observable", "order", "batch", "particle", "gradient", "special", "mixed"])
    lets = LET + (LET_T if T else [])
    if part == "observable":
        L = ch.pick("layers", lets)
        c = dict(part=part, L=L, x=ch.pick("x", X + (X_T if T else [])), b=ch.pick("backend", BACKENDS if len(L) < 3 else BACKENDS[:1]), types=ch.pick("types", list(TYPES)), precision=ch.pick("precision", ["single", "double"]),
                 obs=ch.pick("obs", OBS), host=ch.pick("host", [1.33, 1.0] if T else [1.33]), T=T)
        c["default"] = ch.pick("default dtype", ["f32", "f64"] if T or c["x"] == 1.0 else ["f32"])
        return c
    if part == "order":
        L = ch.pick("layers", lets[:8])
        return dict(part=part, L=L, x=ch.pick("x", X), b=ch.pick("backend", BACKENDS if len(L) < 3 else BACKENDS[:1]), types=ch.pick("types", ["32", "64"]), n_max=ch.pick("n_max", [1, 2, 3, 40, 120] if T else [1, 3, 40]), obs=ch.pick("obs", OBS), T=T)
    if part == "batch":
        return dict(part=part, b=ch.pick("backend", BACKENDS), types=ch.pick("types", list(TYPES)), nk=ch.pick("nk", [2, 1, 3]), np=ch.pick("np", [2, 1, 3]), layers=ch.pick("layers", [1, 2]), obs=ch.pick("obs", OBS), T=T)
    if part == "particle":
        return dict(part=part, b=ch.pick("backend", BACKENDS), k=ch.pick("k", ["f32", "f64", "float", "list"]), mat=ch.pick("mat", ["Au", "const", "tensor32", "tensor64"]), obs=ch.pick("obs", OBS), default=ch.pick("default dtype", ["f32", "f64"]), T=T)
    if part == "gradient":
        L = ch.pick("layers", [("d15",), ("m", "d15"), ("d40", "a")] + ([("v", "a", "d15")] if T else []))
        return dict(part=part, L=L, x=ch.pick("x", [1.0, 0.3, 4.0]), b=ch.pick("backend", BACKENDS if len(L) < 3 else BACKENDS[:1]), types=ch.pick("types", ["32", "64"]), obs=ch.pick("obs", OBS), T=T)
    if part == "mixed":
        L = ch.pick("layers", [("m", "d15"), ("d15",), ("d40", "v", "a")])
        return dict(part=part, L=L, b=ch.pick("backend", BACKENDS if len(L) < 3 else BACKENDS[:1]), single=[ch.pick(q, [False, True]) for q in ("k0", "r", "eps", "env", "x")], obs=ch.pick("obs", OBS), precision=ch.pick("precision", ["double", "single"]), T=T)
    return dict(part=part, f=ch.pick("function", list(FUN)), n=ch.pick("order", [1, 2, 3, 5, 8, 12, 17]), types=ch.pick("types", ["c64", "c128", "f32", "f64"]), T=T)


def tol_of(x):
    return 1e-4 * (1 if x <= 2 else 4 if x <= 5 else 10 if x <= 10 else 40)


def make(c, f, g):
    """inputs in the given types"""
    return t64([c.k0]).to(f), dict(r_layers=t64(c.r).to(f), eps_layers=(tc(c.n) ** 2).to(g), eps_env=t64(c.n_env**2).to(f))


def wide(v):
    return v.to(C if v.is_complex() else F)


def run_mixed(cfg, rec):
    """every argument in either precision: the result for these values; wavenumbers and radii in single precision leave the other arguments alone"""
    c = Config(1.3, list(cfg["L"]), "even", 1.33, 70.7)
    d = [torch.float32 if q else F for q in cfg["single"]]
    k, kw = t64([c.k0]).to(d[0]), dict(r_layers=t64(c.r).to(d[1]), eps_layers=(tc(c.n) ** 2).to(torch.complex64 if cfg["single"][2] else C), eps_env=t64(c.n_env**2).to(d[3]))
    obs = cfg["obs"]
    x = dict(angular=dict(theta=t64(TH)), near=dict(r_probe=t64((PTS + 0.317).tolist()))).get(obs, {})
    x = {q: v.to(d[4]) for q, v in x.items()}
    fun = dict(cross=ms.cross_sections, coef=ms.mie_coefficients, angular=ms.angular_scattering, near=ms.nearfields)[obs]
    opt = dict(n_max=5, **bk(cfg["b"]))
    got = rec.call(fun, k, **kw, **x, precision=cfg["precision"], **opt)
    ref = rec.call(fun, wide(k), **{q: wide(v) for q, v in kw.items()}, **{q: wide(v) for q, v in x.items()}, precision="double", **opt)
    names = dict(cross=["q_ext", "q_sca", "cs_ext"], coef=["a_n", "b_n"], angular=["S1", "S2", "i_unpol"], near=list(FIELDS))[obs]
    ref = {q: to_np(ref[q]) for q in names}
    exact = cfg["precision"] == "double" and not any(cfg["single"][2:]) and (obs != "cross" or not cfg["single"][1])
    judge(rec, obs, got, ref, 1e-10 if exact else 1e-4)


def evaluate(rec, obs, k, kw, opt, f, call=None):
    """observable -> {name: array}"""
    fun = dict(cross=ms.cross_sections, coef=ms.mie_coefficients, angular=ms.angular_scattering, near=ms.nearfields)[obs]
    opt = dict(opt)
    if obs == "angular":
        opt["theta"] = t64(TH).to(f)
    if obs == "near":
        opt["r_probe"] = t64(PTS.tolist()).to(f)
    r = (rec.call if rec is not None else (lambda fn, **q: fn(**q)))(fun, k0=k, **kw, **opt)
    names = dict(cross=["q_ext", "q_sca", "q_abs", "cs_ext", "cs_sca"], coef=["a_n", "b_n"], angular=["S1", "S2", "i_unpol", "i_par"], near=list(FIELDS))[obs]
    return {n: r[n] for n in names}


def scales(obs, ref, nat, k0, n_env):
    """what an error of each quantity is measured against"""
    out = {}
    for n, v in ref.items():
        if obs == "near":
            out[n] = fmax(v) + 0.02 * np.abs(v).max()
        elif obs == "coef":
            out[n] = np.ones_like(np.abs(v)) if nat is None else np.abs(v) + 0.1 * nat["c"].reshape(np.abs(v).shape)
        elif n[0] == "q":
            out[n] = np.abs(ref["q_ext"]) + (0.1 * nat["q"] if nat else 0)
        elif n.startswith("cs"):
            out[n] = np.abs(ref["cs_ext"]) + (0.1 * nat["cs"] if nat else 0)
        elif n[0] == "S":
            out[n] = np.abs(v).max() + (0.1 * nat["s"] if nat else 0)
        else:
            out[n] = np.abs(v).max() + (0.1 * nat["s"] ** 2 if nat else 0)
    return out


class default_dtype:
    def __init__(self, name):
        self.new = torch.float64 if name == "f64" else torch.float32

    def __enter__(self):
        self.old = torch.get_default_dtype()
        torch.set_default_dtype(self.new)

    def __exit__(self, *a):
        torch.set_default_dtype(self.old)


def run(cfg, rec):
    globals()["run_" + cfg["part"]](cfg, rec)


def judge(rec, obs, got, ref, tol, nat=None, k0=None, n_env=1.0):
    ref = {n: to_np(v) for n, v in ref.items()}
    sc = scales(obs, ref, nat, k0, n_env)
    for n in ref:
        rec.close(n, to_np(got[n]), ref[n], rtol=tol, scale=sc[n])


def reference(obs, c, n, k, kw):
    """independent solution for the rounded inputs"""
    from mc.oracle import Sphere

    kk, r, e, h = float(k[0]), [float(v) for v in kw["r_layers"]], to_np(kw["eps_layers"]), float(kw["eps_env"])
    S = Sphere(kk, r, [complex(np.sqrt(complex(v))) for v in e], np.sqrt(h), n)
    x = kk * np.sqrt(h) * r[-1]
    g = natural(S, x)
    nat = dict(q=g["q"], cs=g["q"] * PI * r[-1] ** 2, s=g["s"], c=S.scale)
    if obs == "coef":
        return dict(a_n=S.a, b_n=S.b), nat, S
    if obs == "cross":
        ext, sca = (q.sum() for q in S.cross_sections())
        a = PI * r[-1] ** 2
        return dict(q_ext=ext / a, q_sca=sca / a, q_abs=(ext - sca) / a, cs_ext=ext, cs_sca=sca), nat, S
    if obs == "angular":
        s1, s2 = S.s12(np.array([float(v) for v in TH]))
        return dict(S1=s1, S2=s2, i_unpol=(abs(s1) ** 2 + abs(s2) ** 2) / 2, i_par=abs(s2) ** 2), nat, S
    E, H = S.fields(PTS, True)
    ph = np.exp(1j * kk * np.sqrt(h) * PTS[:, 2])[:, None]
    out = np.linalg.norm(PTS, axis=1) > r[-1]
    Ei, Hi = ph * np.array([1.0, 0, 0]), np.sqrt(h) * ph * np.array([0, 1.0, 0])
    Et, Ht = np.where(out[:, None], E + Ei, E), np.where(out[:, None], H + Hi, H)
    return dict(E_t=Et, H_t=Ht), nat, S


def run_observable(cfg, rec):
    c = Config(cfg["x"], cfg["L"], n_env=cfg["host"])
    if cfg["b"][0] != "pena" and not legacy_domain(c, 4.0):
        rec.true("outside the domain of the closed forms", True)
        return
    f, g = TYPES[cfg["types"]]
    k, kw = make(c, f, g)
    n = wiscombe(cfg["x"]) + 3
    opt = dict(precision=cfg["precision"], **bk(tuple(cfg["b"])))
    with default_dtype(cfg["default"]):
        got = evaluate(rec, cfg["obs"], k, kw, dict(opt, n_max=n if cfg["x"] >= 0.5 else 4), f)
        n = n if cfg["x"] >= 0.5 else 4
        auto = evaluate(rec, cfg["obs"], k, kw, opt, f) if cfg["obs"] != "coef" else None
    ref, nat, _ = reference(cfg["obs"], c, n, k, kw)
    if cfg["obs"] == "coef":
        ref = {q: v.reshape(to_np(got[q]).shape) for q, v in ref.items()}
    else:
        ref = {q: v.reshape(to_np(got[q]).shape) for q, v in ref.items()}
    full = cfg["precision"] == "double" and cfg["types"] == "64"
    tol = tol_of(cfg["x"]) * (1 if not full else 1e-4)
    judge(rec, cfg["obs"], {q: got[q] for q in ref}, ref, tol, nat)
    if auto is not None:
        judge(rec, cfg["obs"], {q: auto[q] for q in ref}, ref, max(tol, 1e-4), nat)


def run_order(cfg, rec):
    c = Config(cfg["x"], cfg["L"], n_env=1.33)
    n = cfg["n_max"]
    if cfg["b"][0] != "pena" and (not legacy_domain(c, 4.0) or n > wiscombe(cfg["x"]) + 3):
        rec.true("outside the domain of the closed forms", True)
        return
    f, g = TYPES[cfg["types"]]
    k, kw = make(c, f, g)
    got = evaluate(rec, cfg["obs"], k, kw, dict(precision="single", n_max=n, **bk(tuple(cfg["b"]))), f)
    kd, kwd = k.to(F), {q: wide(v) for q, v in kw.items()}
    ref = evaluate(None, cfg["obs"], kd, kwd, dict(n_max=n), F)
    _, nat, _ = reference("cross", c, min(n, wiscombe(cfg["x"]) + 6), k, kw)
    nat = None if cfg["obs"] == "coef" else nat
    judge(rec, cfg["obs"], got, ref, tol_of(cfg["x"]), nat)


def run_batch(cfg, rec):
    f, g = TYPES[cfg["types"]]
    nk, P, L = cfg["nk"], cfg["np"], cfg["layers"]
    k = t64([0.012, 0.018, 0.025][:nk]).to(f)
    r = t64([[50.0, 80.0], [70.0, 110.0], [60.0, 90.0]])[:P, :L].to(f)
    e = tc([[[2.25, 12.0 + 0.5j], [2.3, 11.0 + 0.4j], [2.35, 10.0]], [[-5.0 + 1j, 2.0], [-7.0 + 1.2j, 2.1], [-9.0 + 1.5j, 2.2]], [[4.0, 3.0 + 1j], [4.1, 3.0 + 0.9j], [4.2, 3.0 + 0.8j]]])[:P, :nk, :L].permute(0, 2, 1).to(g)
    kw = dict(r_layers=r, eps_layers=e, eps_env=t64(1.77).to(f))
    got = evaluate(rec, cfg["obs"], k, kw, dict(precision="single", n_max=8, **bk(tuple(cfg["b"]))), f)
    auto = evaluate(rec, cfg["obs"], k, kw, dict(precision="single", **bk(tuple(cfg["b"]))), f) if cfg["obs"] != "coef" else None
    ref = evaluate(None, cfg["obs"], k.to(F), {q: wide(v) for q, v in kw.items()}, dict(n_max=8), F)
    judge(rec, cfg["obs"], got, ref, 5e-3)
    if auto:
        judge(rec, cfg["obs"], auto, ref, 5e-3)


def run_particle(cfg, rec):
    m = {"Au": lambda: dict(mat_layers=[pmd.materials.MatDatabase("Au"), pmd.materials.MatDatabase("SiO2")]), "const": lambda: dict(mat_layers=[pmd.materials.MatConstant(9.0 + 0.5j), 2.0]),
         "tensor32": lambda: dict(eps_layers=tc([9.0 + 0.5j, 4.0]).to(torch.complex64)), "tensor64": lambda: dict(eps_layers=tc([9.0 + 0.5j, 4.0]))}[cfg["mat"]]
    k = [2 * PI / 550.0, 2 * PI / 700.0]
    kk = {"f32": t64(k).to(torch.float32), "f64": t64(k), "float": k[0], "list": k}[cfg["k"]]
    f = torch.float32 if cfg["k"] == "f32" else F
    b = bk(tuple(cfg["b"]))

    def go(prec, kk, f, **o):
        p = pmd.Particle(r_layers=t64([50.0, 70.0]).to(f), mat_env=1.33, **m())
        fun = dict(cross=p.get_cross_sections, coef=p.get_mie_coefficients, angular=p.get_angular_scattering, near=p.get_nearfields)[cfg["obs"]]
        a = dict(k0=kk, precision=prec, n_max=7, **o)
        if cfg["obs"] == "angular":
            a["theta"] = t64(TH).to(f)
        if cfg["obs"] == "near":
            a["r_probe"] = t64(PTS.tolist()).to(f)
        names = dict(cross=["q_ext", "q_sca", "cs_ext", "cs_abs"], coef=["a_n", "b_n"], angular=["S1", "S2"], near=list(FIELDS))[cfg["obs"]]
        r = fun(**a)
        return {n: r[n] for n in names}

    with default_dtype(cfg["default"]):
        got = rec.call(go, "single", kk, f, **b)
        dbl = rec.call(go, "double", kk, f, **b)
    ref = go("double", t64(k if cfg["k"] != "float" else k[:1]), F)
    for q in (got, dbl):
        judge(rec, cfg["obs"], {n: to_np(v).reshape(to_np(ref[n]).shape) for n, v in q.items()}, ref, 3e-4)


def run_gradient(cfg, rec):
    c = Config(cfg["x"], cfg["L"], n_env=1.33)
    f, g = TYPES[cfg["types"]]

    def go(f, g, prec, b):
        k, kw = make(c, f, g)
        k.requires_grad_(True)
        kw["r_layers"] = kw["r_layers"].clone().requires_grad_(True)
        kw["eps_layers"] = kw["eps_layers"].clone().requires_grad_(True)
        r = evaluate(None, cfg["obs"], k, kw, dict(precision=prec, n_max=wiscombe(cfg["x"]) + (1 if cfg["x"] >= 1 else 0), **b), f)
        out = {}
        for n, v in r.items():
            if n in ("E_i", "H_i", "q_abs"):
                continue
            s = (v.abs() ** 2).sum() if v.is_complex() else v.sum()
            out[n] = torch.autograd.grad(s, (k, kw["r_layers"], kw["eps_layers"]), retain_graph=True)
        return out

    got = rec.call(go, f, g, "single", bk(tuple(cfg["b"])))
    ref = go(F, C, "double", {})
    for n, w in ref.items():
        for a, b, what in zip(got[n], w, ("k0", "r", "eps")):
            b = to_np(b)
            rec.close(f"d {n} / d {what}", to_np(a), b, rtol=1e-2 if cfg["obs"] != "near" else 2e-2, scale=np.abs(b).max())


s = pmd.special


def _jy(fn):
    return lambda n, z, p: fn(torch.tensor(n), z, precision=p)


def _psi_zeta(i):
    def go(n, z, p):
        D1 = s.pena_D1_n(torch.tensor(n), z, precision=p)
        D3 = s.pena_D3_n(torch.tensor(n), z, D1=D1, precision=p)
        return s.pena_psi_zeta_n(torch.tensor(n), z, D1=D1, D3=D3, precision=p)[i]

    return go


FUN = {
    "sph_jn": _jy(s.sph_jn), "sph_yn": _jy(s.sph_yn), "sph_h1n": _jy(s.sph_h1n), "psi": _jy(s.psi), "chi": _jy(s.chi), "xi": _jy(s.xi),
    "sph_jn_torch": _jy(s.sph_jn_torch), "sph_jn_torch_via_rec": _jy(s.sph_jn_torch_via_rec), "sph_yn_torch": _jy(s.sph_yn_torch), "sph_h1n_torch": _jy(s.sph_h1n_torch),
    "psi_torch": _jy(s.psi_torch), "chi_torch": _jy(s.chi_torch), "xi_torch": _jy(s.xi_torch), "D1n_torch": _jy(s.D1n_torch), "D3n_torch": lambda n, z, p: s.D3n_torch(torch.tensor(n), z, s.D1n_torch(torch.tensor(n), z, precision=p), precision=p),
    "pena_D1": _jy(s.pena_D1_n), "pena_D3": lambda n, z, p: s.pena_D3_n(torch.tensor(n), z, D1=s.pena_D1_n(torch.tensor(n), z, precision=p), precision=p),
    "pena_psi": _psi_zeta(0), "pena_zeta": _psi_zeta(1),
}
ZS = [0.5, 1.3, 2.0, 4.4, 7.0, 11.3, 16.0, 0.8 + 0.3j, 3.0 + 1.0j, 5.0 + 2.0j, 9.0 + 0.01j, 2.0 + 3.0j, 0.3 + 0.1j, 12.0 + 3.0j, 20.0, 6.5 + 0.5j]


def run_special(cfg, rec):
    t = {"c64": torch.complex64, "c128": C, "f32": torch.float32, "f64": F}[cfg["types"]]
    zs = [q for q in ZS if abs(q) >= 0.12 * cfg["n"]]
    z = torch.tensor([complex(q) for q in zs], dtype=C)
    z = (z.real if not t.is_complex else z).to(t)
    fn = FUN[cfg["f"]]
    got = to_np(rec.call(fn, cfg["n"], z, "single"))
    same = to_np(rec.call(fn, cfg["n"], z, "double"))
    ref = to_np(fn(cfg["n"], z.to(C), "double"))
    # values pass through zero: an error is measured against the size of neighbouring orders
    sc = np.abs(ref)
    for sh in (1, -1):
        nb = np.abs(np.roll(ref, sh, axis=0))
        if sh == 1:
            nb[0] = 0
        else:
            nb[-1] = 0
        sc = np.maximum(sc, np.minimum(nb, sc * 1e3))
    rec.close("single", got, ref, rtol=1e-3, scale=sc)
    rec.close("double", same, ref, rtol=1e-3 if cfg["types"] in ("c64", "f32") else 1e-9, scale=sc)
