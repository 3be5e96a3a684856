"""C07: equivalent inputs give equal results, inconsistent inputs are rejected."""
import numpy as np
import torch

from mc.world import C, F, FIELDS, PI, fmax, laid, ms, pmd, t64, tc, to_np

LEVEL = "model_checking"
CHUNK = 6
RULE = (
    "Every interface (layered and legacy functions, core-shell module, Particle built from permittivities, refractive indices or material objects, in "
    "layered or legacy form) x problem x backend, with every choice of up to D inputs given in another accepted form (python numbers, integers, lists, "
    "tuples, NumPy, 32-bit tensors, extra singleton axes, repeated wavelengths), must return what the canonical tensor call returns. Every inconsistent "
    "input of the list x layer count x observable x position of the defect must raise."
)
BOUNDS = {
    "quick": "8 interfaces x 6 problems (1-3 layers, 1-2 wavelengths) x D=1 (D=2 for three interfaces of one problem); 2 backends; material words of 1-3 layers x hosts x wavelengths x forms; 52 kinds of inconsistent input x 1-4 layers x 4 observables x 8 ways to call, alone or in one particle of a batch of three; shapes: every shape of permittivities up to 3 axes of length 6 and every host length up to 12 x 1-4 particles x 1-3 layers x 1-6 wavelengths, accepted exactly when documented",
    "thorough": "as quick with D=2 for all problems and all backends",
}
ASSUMPTIONS = ["32-bit and python inputs are compared to single-precision accuracy, 64-bit inputs to 1e-9", "all numbers are exactly representable in single precision"]

# (indices, radii, wavenumbers, host index): exactly representable in single precision
PROB = {
    "sphere": ([1.5], [100], [2**-6], 1.0),
    "absorber": ([2 + 0.5j], [96], [2**-6, 3 * 2**-8], 1.25),
    "coreshell": ([4.0, 1.5], [48, 96], [2**-6], 1.25),
    "metalshell": ([1.5, 0.25 + 3j], [64, 80], [2**-6, 3 * 2**-8], 1.0),
    "triple": ([4.0, 0.25 + 3j, 1.5], [32, 64, 96], [2**-6, 3 * 2**-8], 1.5),
    "tripled": ([1.5, 4.0, 2.0], [32, 80, 96], [2**-6], 1.0),
}
IFACE = ["layers", "legacy", "coreshell", "P_eps", "P_n", "P_mat", "PL_n", "PL_mat"]
FORMS = {
    "k0": ["axis0", "axis1", "f32", "numpy", "list", "scalar", "repeat", "strided", "lazy"],
    "r": ["int", "f32", "numpy", "list", "tuple", "axis0", "strided", "lazy"],
    "eps": ["c64", "numpy", "list", "axis0", "spectral", "full", "real", "strided", "lazy"],
    "env": ["one", "spectral", "complex", "python", "int", "numpy", "f32", "lazy"],
    "theta": ["scalar", "f32", "numpy", "list", "int", "strided", "lazy"],
    "probe": ["f32", "numpy", "list", "int", "strided", "lazy", "transposed"],
    "n_max": ["tensor", "numpy"],
    "backend": ["upper"],
}
DOUBLE = {"strided", "lazy", "transposed", "axis0", "axis1", "numpy", "one", "spectral", "complex", "repeat", "full", "tensor", "upper", "tuple0"}
OBS = ["coef", "cross", "angular", "near"]

REJECT = [
    "r_equal", "r_decreasing", "r_nan", "r_3d", "eps_short", "eps_long", "eps_2d", "eps_3d_layers", "eps_3d_particles", "eps_3d_spectral", "eps_4d",
    "eps_spectral", "env_length", "env_2d", "k0_2d", "no_eps", "no_r", "nothing", "backend", "too_many_layers", "n_zero", "theta_2d", "probe_2", "probe_4",
    "internal_pena", "legacy_decreasing", "legacy_mixed", "legacy_shape", "legacy_eps_shape", "legacy_no_eps",
]
REJECT_P = [
    "P_equal", "P_decreasing", "P_2d", "P_empty", "P_both", "P_both_forms", "P_none", "P_no_r", "P_no_mat", "P_mat_short", "P_mat_long", "P_eps_short",
    "P_eps_spectral", "PL_no_core", "PL_no_mat", "PL_shell_alone", "PL_mat_alone", "PL_decreasing", "PL_equal", "PL_vector", "P_probe_2", "P_k0_2d",
]


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["forms", "materials", "reject", "shapes"])
    if part == "shapes":
        face = ch.pick("interface", ["layers", "particle", "legacy"])
        N = 1 if face == "particle" else ch.pick("particles", [1, 2, 3, 4])
        L = ch.pick("layers", [1, 2, 3] if face != "legacy" else [1, 2])
        return dict(part=part, face=face, N=N, L=L, K=ch.pick("wavelengths", [1, 2, 3, 4, 6]), backend=ch.pick("backend", ["pena"] + (["torch"] if T and L < 3 else [])), obs=ch.pick("observable", OBS if T else OBS[1:2]))
    if part == "materials":
        L = ch.pick("layers", [1, 2, 3])
        word = [ch.pick("material", MATS if L < 3 or T else MATS[1:4]) for _ in range(L)]
        return dict(part="materials", word=word, host=ch.pick("host", ["one", "n1.25", "mat"]), nk=ch.pick("wavelengths", [1, 2, 3]),
                    legacy=ch.pick("legacy", [False, True] if L < 3 else [False]))
    if part == "reject":
        kind = ch.pick("defect", REJECT + REJECT_P)
        L = ch.pick("layers", [2] if "legacy" in kind or kind[:2] == "PL" else [1, 2, 3, 4])
        if L == 1 and kind in ("r_equal", "r_decreasing", "P_equal", "P_decreasing", "r_nan"):
            ch.prune()
        if L < 3 and kind == "too_many_layers":
            ch.prune()
        where = ch.pick("where", range(L - 1)) if kind in ("r_equal", "r_decreasing", "r_nan", "P_equal", "P_decreasing") else 0
        # in a batch the defect sits in one particle, the others are sound
        particle = None
        if kind in ("r_equal", "r_decreasing", "r_nan", "legacy_decreasing", "legacy_mixed"):
            particle = ch.pick("particle", ([] if kind == "legacy_mixed" else [None]) + [0, 1, 2])
        backend = "pena"
        if kind == "too_many_layers":
            backend = ch.pick("backend", ["torch", "scipy"])
        elif L <= 2 and kind not in ("internal_pena", "backend") and kind[0] != "P":
            backend = ch.pick("backend", ["pena", "torch", "scipy"])
        if kind in ("theta_2d", "probe_2", "probe_4", "P_probe_2", "internal_pena"):
            obs = {"t": "angular", "p": "near", "P": "near", "i": "coef"}[kind[0]]
        else:
            obs = ch.pick("observable", OBS)
        return dict(part="reject", kind=kind, L=L, where=where, backend=backend, obs=obs, particle=particle)
    face = ch.pick("interface", IFACE)
    prob = ch.pick("problem", list(PROB))
    n = PROB[prob][0]
    if face in ("legacy", "coreshell", "PL_n", "PL_mat") and len(n) > 2:
        ch.prune()
    backend = ch.pick("backend", ["pena"] + (["torch"] if len(n) <= 2 else []) + (["scipy"] if T and len(n) <= 2 else []))
    D = 2 if T or (prob == "coreshell" and backend == "pena" and face in ("layers", "legacy", "P_mat")) else 1
    dev = {}
    names = list(FORMS)
    i = -1
    for _ in range(D):
        rest = names[i + 1 :]
        if not rest:
            break
        w = ch.pick("input", ["-"] + rest)
        if w == "-":
            break
        i = names.index(w)
        dev[w] = ch.pick("form", [f for f in FORMS[w] if fits(w, f, face, prob)])
    return dict(part="forms", interface=face, problem=prob, backend=backend, dev=dev)


def fits(w, f, face, prob):
    """is the form defined for this interface and problem?"""
    n, r, k, env = PROB[prob]
    one = len(k) == 1
    if w == "k0":
        if f in ("strided", "lazy"):
            return True
        return (one or f != "scalar") and (not one or f != "repeat")
    if f in ("strided", "lazy"):
        return face in ("layers", "P_eps") or face in ("legacy", "coreshell") and f == "lazy" or w in ("theta", "probe") or w == "r" and face[:2] != "PL"
    if w == "r":
        return face in ("layers", "P_eps", "P_n", "P_mat") and not (f == "axis0" and face[0] == "P") or (f in ("int", "f32", "numpy", "list") and face[0] != "P" or f in ("int", "f32", "list"))
    if w == "eps":
        if f == "real" and any(complex(q).imag for q in n):
            return False
        if face in ("layers", "P_eps"):
            return True
        if face in ("legacy", "coreshell"):
            return f in ("c64", "numpy", "list", "spectral", "full", "real")
        return f in ("c64", "numpy", "list", "real")
    if w == "env":
        if face in ("layers", "legacy", "coreshell"):
            return f != "int" or env == 1.0
        return f in ("complex", "python", "numpy", "f32") or (f == "int" and env == 1.0)
    if w == "theta":
        return True
    return True


def form_k(v, f):
    if f == "f32":
        return torch.tensor(v, dtype=torch.float32)
    if f == "axis0":
        return t64([v])
    if f == "axis1":
        return t64(v)[:, None]
    if f == "numpy":
        return np.array(v)
    if f == "list":
        return list(v)
    if f == "scalar":
        return float(v[0])
    return laid(t64(v), f)


def form_seq(v, f, real=True):
    """radii or permittivities of the layers"""
    if f == "int":
        return torch.tensor([int(q) for q in v])
    if f == "f32":
        return torch.tensor(v, dtype=torch.float32)
    if f == "c64":
        return torch.tensor(v, dtype=torch.complex64)
    if f == "numpy":
        return np.array(v, dtype=float if real else complex)
    if f == "list":
        return list(v)
    if f == "tuple":
        return tuple(v)
    if f == "axis0":
        return (t64 if real else tc)([list(v)])
    if f == "real":
        return t64([complex(q).real for q in v])
    return laid((t64 if real else tc)(list(v)), f)


def one(v, f, real=True):
    """a single number"""
    if f == "int":
        return int(v)
    if f == "f32":
        return torch.tensor(v, dtype=torch.float32)
    if f == "c64":
        return torch.tensor(v, dtype=torch.complex64)
    if f == "numpy":
        return np.float64(v) if real else np.array(v)
    if f in ("list", "python"):
        return float(v) if real else complex(v)
    if f == "real":
        return t64(complex(v).real)
    return laid((t64 if real else tc)(v), f)


def build_call(cfg):
    """-> fn(observable, extra) for the interface of this configuration"""
    n, r, k, env = PROB[cfg["problem"]]
    dev, face = cfg["dev"], cfg["interface"]
    r = [float(q) for q in r]
    e = [complex(q) ** 2 for q in n]
    eenv = env**2
    kk = list(k) if dev.get("k0") != "repeat" else list(k) + [k[0]]
    K = form_k(kk, dev.get("k0"))
    nk = len(kk)
    fe, fr, fv = dev.get("eps"), dev.get("r"), dev.get("env")
    b = cfg["backend"].upper() if "backend" in dev else cfg["backend"]
    if face in ("layers", "legacy", "coreshell"):
        if fv == "one":
            v = t64([eenv])
        elif fv == "spectral":
            v = t64([eenv] * nk)
        elif fv == "complex":
            v = tc(eenv)
        elif fv == "numpy":
            v = np.array([eenv] * nk)
        else:
            v = one(eenv, fv)
        kw = dict(eps_env=v, backend=b)
        if face == "layers":
            E = form_seq(e, fe, False)
            if fe == "spectral":
                E = tc(e)[:, None].repeat(1, nk)
            elif fe == "full":
                E = tc(e)[None, :, None].repeat(1, 1, nk)
            kw.update(r_layers=form_seq(r, fr), eps_layers=E)
        else:
            def le(x):
                if fe == "spectral":
                    return tc([x] * nk)
                if fe == "full":
                    return tc([[x] * nk])
                return one(x, fe, False)

            kw.update(r_c=one(r[0], fr), eps_c=le(e[0]))
            if len(r) == 2:
                kw.update(r_s=one(r[1], fr), eps_s=le(e[1]))
            elif face == "coreshell":  # homogeneous sphere written as a core with a shell of no thickness
                kw.update(r_s=kw["r_c"], eps_s=kw["eps_c"])
        mod = ms
        if face == "coreshell":
            import pymiediff.coreshell as mod
        fn = dict(coef=mod.mie_coefficients, cross=mod.cross_sections, angular=mod.angular_scattering, near=mod.nearfields)
        return lambda o, *a, **x: fn[o](K, *a, **kw, **x)

    menv = one(env, "python" if fv is None else fv) if fv != "complex" else tc(env)
    mat = pmd.materials.MatConstant
    if face == "P_eps":
        E = form_seq(e, fe, False)
        if fe == "spectral":
            E = tc(e)[:, None].repeat(1, nk)
        elif fe == "full":
            E = tc(e)[None, :, None].repeat(1, 1, nk)
        elif fe == "axis0":
            E = tc([e])
        p = dict(r_layers=form_seq(r, fr), eps_layers=E)
    else:
        def m(q):
            if face.endswith("mat"):
                return mat(one(q**2, fe or "python", False))
            if isinstance(q, float) and fe in (None, "numpy", "list"):
                return q if fe != "numpy" else np.float64(q)
            if fe in ("c64", "real"):
                return one(q, fe, False)
            return complex(q)

        if face[:2] == "PL":
            p = dict(r_core=one(r[0], fr), mat_core=m(n[0]))
            if len(r) == 2:
                p.update(r_shell=one(r[1], fr), mat_shell=m(n[1]))
        else:
            p = dict(r_layers=form_seq(r, fr), mat_layers=[m(q) for q in n])
    part = pmd.Particle(mat_env=menv, **p)
    fn = dict(coef=part.get_mie_coefficients, cross=part.get_cross_sections, angular=part.get_angular_scattering, near=part.get_nearfields)
    return lambda o, *a, **x: fn[o](K, *a, backend=b, **x)


THETA = [0.0, 0.75, 2.5]
THETA_I = [0, 1, 2]
# fractions: a cast to integers must show
PROBE = [[4.5, -8.25, 12.5], [64.75, 32.5, -16.5], [-120.5, 100.25, 80.5]]
PROBE_I = [[4, -8, 12], [64, 32, -16], [-120, 100, 80]]


def form_theta(f):
    return {None: t64(THETA), "f32": torch.tensor(THETA), "numpy": np.array(THETA), "list": THETA, "int": torch.tensor(THETA_I), "scalar": 2.0, "strided": laid(t64(THETA), f), "lazy": laid(t64(THETA), f)}[f]


def form_probe(f):
    return {None: t64(PROBE), "f32": torch.tensor(PROBE), "numpy": np.array(PROBE), "list": PROBE, "int": torch.tensor(PROBE_I), "strided": laid(t64(PROBE), f), "lazy": laid(t64(PROBE), f), "transposed": laid(t64(PROBE), f)}[f]


def form_n(n, f):
    return {None: n, "tensor": torch.tensor(n), "numpy": np.int64(n)}[f]


MATS = ["const", "Si", "Au", "SiO2", "num", "Ge"]


def run_materials(cfg, rec):
    """a particle made of material objects is the particle of the permittivities these return"""
    mk = {"const": lambda: pmd.materials.MatConstant(3.75 + 2j), "num": lambda: 1.5}
    mats = [mk.get(m, lambda m=m: pmd.materials.MatDatabase(m))() for m in cfg["word"]]
    wl = [600.0, 500.0, 850.0][: cfg["nk"]]
    K = 2 * PI / t64(wl)
    eps = []
    for m in mats:
        eps.append([complex(to_np(m.get_epsilon(w))) if hasattr(m, "get_epsilon") else m**2 for w in wl])
    r = [32.0 * (l + 1) for l in range(len(mats))]
    host = {"one": 1.0, "n1.25": 1.25, "mat": pmd.materials.MatConstant(1.5625)}[cfg["host"]]
    canon = dict(r_layers=t64(r), eps_layers=tc(eps)[None], eps_env=t64(1.0 if cfg["host"] == "one" else 1.5625))
    if cfg["legacy"]:
        a = dict(r_core=r[0], mat_core=mats[0])
        if len(r) == 2:
            a.update(r_shell=r[1], mat_shell=mats[1])
    else:
        a = dict(r_layers=t64(r), mat_layers=mats)
    part = rec.call(pmd.Particle, mat_env=host, **a)
    el, ee = rec.call(part.get_material_permittivities, K)
    rec.close("get_material_permittivities", np.reshape(to_np(el), (len(r), cfg["nk"])), eps, rtol=1e-6)
    rec.close("host permittivity", np.broadcast_to(to_np(ee), (cfg["nk"],)), np.full(cfg["nk"], float(canon["eps_env"])), rtol=1e-6)
    tol = 3e-5

    def cmp(name, got, ref, scale):
        rec.close(name, got, np.squeeze(to_np(ref)), rtol=tol, scale=scale)

    a, b = rec.call(part.get_mie_coefficients, K), ms.mie_coefficients(K, **canon)
    rec.true("n_max", int(a["n_max"]) == int(b["n_max"]))
    if rec.viol:
        return
    for q in ("a_n", "b_n"):
        cmp(q, a[q], b[q], 1.0)
    a, b = rec.call(part.get_cross_sections, K), ms.cross_sections(K, **canon)
    for q in ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs"):
        cmp(q, a[q], b[q], float(to_np(b[q.split("_")[0] + "_ext"]).max()))
    a, b = rec.call(part.get_angular_scattering, K, t64(THETA)), ms.angular_scattering(K, t64(THETA), **canon)
    for q in ("S1", "S2"):
        cmp(q, a[q], b[q], float(np.abs(to_np(b["S1"])).max()))
    a, b = rec.call(part.get_nearfields, K, t64(PROBE)), ms.nearfields(K, t64(PROBE), **canon)
    for q in FIELDS:
        cmp(q, a[q], b[q], np.squeeze(np.maximum(fmax(to_np(b[q])), 1.0) * np.ones(3)))


_CANON = {}


def canonical(problem, backend, kk, nm, f_theta, f_probe):
    """the canonical tensor call (computed once per process)"""
    key = (problem, backend, tuple(kk), nm, f_theta, f_probe)
    if key not in _CANON:
        n, r, _, env = PROB[problem]
        kw = dict(r_layers=t64([float(q) for q in r]), eps_layers=tc([complex(q) ** 2 for q in n]), eps_env=t64(env**2), backend=backend, n_max=nm)
        K = t64(kk)
        res = (ms.mie_coefficients(K, **kw), ms.cross_sections(K, **kw), ms.angular_scattering(K, t64({"scalar": [2.0], "int": THETA_I}.get(f_theta, THETA)), **kw),
               ms.nearfields(K, t64(PROBE_I if f_probe == "int" else PROBE), **kw))
        _CANON[key] = [{k: to_np(v).copy() for k, v in o.items()} for o in res]
    return _CANON[key]


def run(cfg, rec):
    if cfg["part"] == "materials":
        return run_materials(cfg, rec)
    if cfg["part"] == "reject":
        return run_reject(cfg, rec)
    if cfg["part"] == "shapes":
        return run_shapes(cfg, rec)
    n, r, k, env = PROB[cfg["problem"]]
    dev = cfg["dev"]
    kk = list(k) if dev.get("k0") != "repeat" else list(k) + [k[0]]
    fn = rec.call(build_call, cfg)
    # single precision enters through 32-bit inputs, python numbers and materials
    single = any(f not in DOUBLE for f in dev.values()) or cfg["interface"][0] == "P"
    tol = 3e-5 if single else 1e-9
    particle = cfg["interface"][0] == "P"

    def cmp(name, got, ref, scale):
        ref = to_np(ref)
        if particle:
            ref = np.squeeze(ref)
            if np.ndim(scale):
                scale = np.squeeze(scale)
        rec.close(name, got, ref, rtol=tol, scale=scale)

    for nm in (None, 4):
        nk = {} if nm is None else dict(n_max=nm)
        nd = {} if nm is None else dict(n_max=form_n(nm, dev.get("n_max")))
        if nm is None and "n_max" in dev:
            continue
        ref = canonical(cfg["problem"], cfg["backend"], kk, nm, dev["theta"] if dev.get("theta") in ("scalar", "int") else None, "int" if dev.get("probe") == "int" else None)
        a, b = rec.call(fn, "coef", **nd), ref[0]
        rec.true("n_max", int(a["n_max"]) == int(b["n_max"]), f"{int(a['n_max'])} != {int(b['n_max'])}")
        if rec.viol:
            return
        for q in ("a_n", "b_n"):
            cmp(q, a[q], b[q], 1.0)
        for q in ("k", "n_env", "eps_env"):
            rec.close(q, np.broadcast_to(np.ravel(to_np(a[q])), (len(kk),)), np.broadcast_to(np.ravel(to_np(b[q])), (len(kk),)), rtol=tol)
        a, b = rec.call(fn, "cross", **nd), ref[1]
        top = {p: float(to_np(b[p + "_ext"]).max()) for p in ("cs", "q")}
        for p in ("cs", "q"):
            for q in ("ext", "sca", "abs"):
                cmp(f"{p}_{q}", a[f"{p}_{q}"], b[f"{p}_{q}"], top[p])
                cmp(f"{p}_{q}_multipoles", a[f"{p}_{q}_multipoles"], b[f"{p}_{q}_multipoles"], top[p])
        g = np.unique(np.round(to_np(a["cs_geo"]).ravel(), 6))
        rec.close("cs_geo", g[0], PI * r[-1] ** 2, rtol=tol)
        rec.close("wavelength", np.ravel(to_np(a["wavelength"])), 2 * PI / np.array(kk), rtol=tol)
        a, b = rec.call(fn, "angular", form_theta(dev.get("theta")), **nd), ref[2]
        m = float(np.abs(to_np(b["S1"])).max())
        for q in ("S1", "S2"):
            cmp(q, a[q], b[q], m)
        for q in ("i_per", "i_par", "i_unpol"):
            cmp(q, a[q], b[q], m**2)
        a, b = rec.call(fn, "near", form_probe(dev.get("probe")), **nd), ref[3]
        for q in FIELDS:
            s = np.maximum(fmax(to_np(b[q])), 1.0) * np.ones(3)
            if dev.get("probe") is None and not particle and not single:
                cmp(q, a[q], b[q], s)
            else:
                cmp(q, a[q], b[q], s)


def run_reject(cfg, rec):
    kind, L, where, obs = cfg["kind"], cfg["L"], cfg["where"], cfg["obs"]
    r = [40.0 + 20 * l for l in range(L)]
    e = [2.25 + 0.5 * l for l in range(L)]
    K = t64([0.01, 0.012, 0.014, 0.016, 0.018])  # 5 wavelengths: differs from every other count
    theta, probe = t64([0.3, 1.2]), t64(PROBE)
    kw = dict(r_layers=t64(r), eps_layers=tc(e), eps_env=t64(1.2), backend=cfg["backend"])
    fns = dict(coef=lambda K, **a: ms.mie_coefficients(K, **a), cross=lambda K, **a: ms.cross_sections(K, **a),
               angular=lambda K, **a: ms.angular_scattering(K, theta, **a), near=lambda K, **a: ms.nearfields(K, probe, **a))
    if kind[0] == "P":
        return reject_particle(kind, r, e, where, rec, K, obs, L)
    if cfg["particle"] is not None:
        return reject_batch(cfg, rec, K, fns)
    legacy = dict(r_c=t64(40.0), eps_c=tc(2.25), r_s=t64(60.0), eps_s=tc(4.0), eps_env=1.2, backend=cfg["backend"])
    if kind[:6] == "legacy":
        kw = legacy
    # the sound input is accepted
    rec.call(fns[obs], K, **{**kw, "backend": "pena"} if kind == "too_many_layers" else kw)
    if kind == "r_equal":
        r[where + 1] = r[where]
        kw["r_layers"] = t64(r)
    elif kind == "r_decreasing":
        r[where], r[where + 1] = r[where + 1], r[where]
        kw["r_layers"] = t64(r)
    elif kind == "r_nan":
        r[where] = float("nan")
        kw["r_layers"] = t64(r)
    elif kind == "r_3d":
        kw["r_layers"] = t64([[r]])
    elif kind == "eps_short":
        kw["eps_layers"] = tc(e[:-1]) if L > 1 else tc([])
    elif kind == "eps_long":
        kw["eps_layers"] = tc(e + [2.0])
    elif kind == "eps_2d":
        kw["eps_layers"] = torch.ones((L + 6, L + 7), dtype=C) * 2
    elif kind == "eps_3d_layers":
        kw["eps_layers"] = torch.ones((1, L + 1, 5), dtype=C) * 2
    elif kind == "eps_3d_particles":
        kw["eps_layers"] = torch.ones((2, L, 5), dtype=C) * 2
    elif kind == "eps_3d_spectral":
        kw["eps_layers"] = torch.ones((1, L, 3), dtype=C) * 2
    elif kind == "eps_4d":
        kw["eps_layers"] = torch.ones((1, 1, L, 5), dtype=C) * 2
    elif kind == "eps_spectral":
        kw["eps_layers"] = torch.ones((L, 6), dtype=C) * 2
    elif kind == "env_length":
        kw["eps_env"] = t64([1.2, 1.3])
    elif kind == "env_2d":
        kw["eps_env"] = t64([[1.2] * 5])
    elif kind == "k0_2d":
        K = torch.stack((K, K))
    elif kind == "no_eps":
        kw["eps_layers"] = None
    elif kind == "no_r":
        kw["r_layers"] = None
    elif kind == "nothing":
        kw["r_layers"] = kw["eps_layers"] = None
    elif kind == "backend":
        kw["backend"] = "pina"
    elif kind == "n_zero":
        kw["n_max"] = 0
    elif kind == "theta_2d":
        theta = t64([[0.3, 1.2]] * 2)
    elif kind == "probe_2":
        probe = t64([[1.0, 2.0]] * 3)
    elif kind == "probe_4":
        probe = t64([[1.0, 2.0, 3.0, 4.0]] * 3)
    elif kind == "internal_pena":
        kw["return_internal"] = True
    elif kind == "legacy_decreasing":
        kw["r_s"] = t64(30.0)
    elif kind == "legacy_shape":
        kw["r_s"] = t64([50.0, 60.0])
    elif kind == "legacy_eps_shape":
        kw["eps_s"] = tc([2.0, 3.0])
    elif kind == "legacy_no_eps":
        kw["eps_c"] = None
    if kind == "internal_pena" and cfg["backend"] != "pena":
        return
    rec.must_raise(f"{kind} ({obs}, {L} layers)", fns[obs], K, **kw)


def classify(shape, N, L, K, face):
    """-> (layout, full) for a documented shape of the permittivities, "open" where a one could stand for more, None where nothing fits"""
    s = tuple(shape)
    if face == "legacy":
        if len(s) == 1:
            return "N" if N > 1 and s == (N,) else "K" if s == (K,) else "open" if s == (1,) else None
        return "NK" if s == (N, K) else "open" if len(s) == 2 and s[0] in (1, N) and s[1] in (1, K) else None
    if len(s) == 1:
        return "L" if s == (L,) else "open" if s == (1,) else None
    if len(s) == 2:
        if s == (N, L):
            return "NL"
        if s == (L, K):
            return "LK"
        fits = any(a in (1, p) and b in (1, q) for (a, b) in [s] for p, q in ((N, L), (L, K)))
        return "open" if fits else None
    if s == (N, L, K):
        return "NLK"
    return "open" if s[0] in (1, N) and s[1] in (1, L) and s[2] in (1, K) else None


def run_shapes(cfg, rec):
    """all shapes of permittivities and hosts up to six: accepted exactly when they fit, and then read as documented"""
    N, L, K, face = cfg["N"], cfg["L"], cfg["K"], cfg["face"]
    kk = t64([0.01 + 0.001 * i for i in range(K)])
    r = t64([[40.0 + 20 * l + 5 * p for l in range(L)] for p in range(N)])
    fn = dict(coef=ms.mie_coefficients, cross=ms.cross_sections, angular=lambda k, **a: ms.angular_scattering(k, t64([0.3, 1.2]), **a), near=lambda k, **a: ms.nearfields(k, t64(PROBE[:2]), **a))[cfg["obs"]]
    key = dict(coef="a_n", cross="q_ext", angular="S1", near="E_t")[cfg["obs"]]
    opt = dict(backend=cfg["backend"], n_max=2)

    def ask(eps, env=t64(1.2)):
        if face == "particle":
            p = pmd.Particle(r_layers=r[0], eps_layers=eps, mat_env=1.0)
            return dict(coef=p.get_mie_coefficients, cross=p.get_cross_sections, angular=lambda k, **a: p.get_angular_scattering(k, t64([0.3, 1.2]), **a), near=lambda k, **a: p.get_nearfields(k, t64(PROBE[:2]), **a))[cfg["obs"]](kk, **opt)[key]
        if face == "legacy":
            a = dict(r_c=r[:, 0], eps_c=eps, **(dict(r_s=r[:, 1], eps_s=eps + 1.0) if L == 2 else {}))
        else:
            a = dict(r_layers=r, eps_layers=eps)
        return fn(kk, eps_env=env, **a, **opt)[key]

    def full(eps, lay):
        """documented meaning: (N, L, K)"""
        e = to_np(eps)
        if face == "legacy":
            e = {"N": lambda: e[:, None], "K": lambda: e[None], "NK": lambda: e}[lay]()
            e = np.broadcast_to(e, (N, K))
            return np.stack([e + l for l in range(L)], 1)
        e = {"L": lambda: e[None, :, None], "NL": lambda: e[:, :, None], "LK": lambda: e[None], "NLK": lambda: e}[lay]()
        return np.broadcast_to(e, (N, L, K))

    def model(e3, env=1.2 if face != "particle" else 1.0):
        return fn(kk, r_layers=r, eps_layers=torch.tensor(np.array(e3)), eps_env=t64(env), **opt)[key]

    top = 7
    shapes = [(a,) for a in range(0, top)] + [(a, b) for a in range(1, top) for b in range(1, top)]
    if face != "legacy":
        shapes += [(a, b, c) for a in range(1, 6) for b in range(1, 5) for c in range(1, top)]
    for s in shapes:
        lay = classify(s, N, L, K, face)
        eps = tc(2.0 + np.arange(int(np.prod(s))).reshape(s) * 0.1 + 0.2j)
        if lay is None:
            rec.must_raise(f"permittivities of shape {s} for {N} particles, {L} layers, {K} wavelengths", ask, eps)
        elif lay != "open":
            rec.close(f"permittivities of shape {s}", to_np(rec.call(ask, eps)).reshape(-1), to_np(model(full(eps, lay))).reshape(-1), rtol=1e-9)
    if face == "particle":
        return
    base = tc(np.full((N,) if face == "legacy" and N > 1 else (K,) if face == "legacy" else (L,), 2.5 + 0.1j))
    e3 = np.stack([np.full((N, K), 2.5 + 0.1j + (l if face == "legacy" else 0)) for l in range(L)], 1)
    for n in range(0, top + 6):
        env = t64([1.0 + 0.05 * i for i in range(n)])
        if n in (1, K):
            rec.close(f"host of length {n}", to_np(rec.call(ask, base, env)), to_np(model(e3, env.tolist() if n > 1 else env[0].item())), rtol=1e-9)
        else:
            rec.must_raise(f"host of length {n} for {K} wavelengths", ask, base, env)


def reject_batch(cfg, rec, K, fns):
    """one particle of three is inconsistent"""
    kind, L, where, obs, bad = cfg["kind"], cfg["L"], cfg["where"], cfg["obs"], cfg["particle"]
    if kind[:6] == "legacy":
        kw = dict(r_c=[40.0, 45.0, 50.0], r_s=[60.0, 70.0, 80.0], eps_c=tc([2.25] * 3), eps_s=tc([4.0] * 3), eps_env=1.2, backend=cfg["backend"])
        rec.call(fns[obs], K, **{**kw, "r_c": t64(kw["r_c"]), "r_s": t64(kw["r_s"])})
        kw["r_s"][bad] = kw["r_c"][bad] - (0.0 if kind == "legacy_mixed" else 10.0)
        kw["r_c"], kw["r_s"] = t64(kw["r_c"]), t64(kw["r_s"])
    else:
        r = [[40.0 + 20 * l + 5.0 * p for l in range(L)] for p in range(3)]
        e = [[2.25 + 0.5 * l for l in range(L)]] * 3
        kw = dict(r_layers=t64(r), eps_layers=tc(e), eps_env=t64(1.2), backend=cfg["backend"])
        rec.call(fns[obs], K, **kw)
        if kind == "r_equal":
            r[bad][where + 1] = r[bad][where]
        elif kind == "r_decreasing":
            r[bad][where], r[bad][where + 1] = r[bad][where + 1], r[bad][where]
        else:
            r[bad][where] = float("nan")
        kw["r_layers"] = t64(r)
    rec.must_raise(f"{kind} in particle {bad} of 3 ({obs}, {L} layers)", fns[obs], K, **kw)


def reject_particle(kind, r, e, where, rec, K, obs, L):
    P = pmd.Particle
    theta, probe = t64([0.3, 1.2]), t64(PROBE)

    def use(**a):
        p = P(**a)
        return dict(coef=lambda: p.get_mie_coefficients(K), cross=lambda: p.get_cross_sections(K), angular=lambda: p.get_angular_scattering(K, theta),
                    near=lambda: p.get_nearfields(K, probe))[obs]()

    n = [x**0.5 for x in e]
    ok = dict(r_core=40.0, mat_core=1.5, r_shell=60.0, mat_shell=2.0) if kind[:2] == "PL" else dict(r_layers=t64(r), mat_layers=n)
    rec.call(use, **ok)
    a = dict(ok)
    if kind == "P_equal":
        r[where + 1] = r[where]
        a["r_layers"] = t64(r)
    elif kind == "P_decreasing":
        r[where], r[where + 1] = r[where + 1], r[where]
        a["r_layers"] = t64(r)
    elif kind == "P_2d":
        a["r_layers"] = t64([r])
    elif kind == "P_empty":
        a = dict(r_layers=t64([]), mat_layers=[])
    elif kind == "P_both":
        a["eps_layers"] = tc(e)
    elif kind == "P_both_forms":
        a["r_core"] = 20.0
    elif kind == "P_none":
        a = {}
    elif kind == "P_no_r":
        a["r_layers"] = None
    elif kind == "P_no_mat":
        a["mat_layers"] = None
    elif kind == "P_mat_short":
        a["mat_layers"] = n[:-1]
    elif kind == "P_mat_long":
        a["mat_layers"] = n + [1.5]
    elif kind == "P_eps_short":
        a = dict(r_layers=t64(r), eps_layers=tc(e + [2.0]))
    elif kind == "P_eps_spectral":
        a = dict(r_layers=t64(r), eps_layers=torch.ones((L, 6), dtype=C) * 2)
    elif kind == "PL_no_core":
        a["r_core"] = None
    elif kind == "PL_no_mat":
        a["mat_core"] = None
    elif kind == "PL_shell_alone":
        a["mat_shell"] = None
    elif kind == "PL_mat_alone":
        a["r_shell"] = None
    elif kind == "PL_decreasing":
        a["r_shell"] = 30.0
    elif kind == "PL_equal":
        a["r_shell"] = 40.0
    elif kind == "PL_vector":
        a["r_core"], a["r_shell"] = t64([40.0, 41.0]), t64([60.0, 61.0])
    elif kind == "P_probe_2":
        probe = t64([[1.0, 2.0]] * 3)
    elif kind == "P_k0_2d":
        K = torch.stack((K, K))
    rec.must_raise(f"{kind} ({obs}, {L} layers)", use, **a)
