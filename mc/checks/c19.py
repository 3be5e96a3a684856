"""C19: what is returned beside the observables describes the problem that was solved."""
import copy
import itertools
import pickle
import re

import numpy as np
import torch

from mc.world import C, F, FIELDS, N, PI, ms, pmd, t64, tc, to_np

LEVEL = "model_checking"
CHUNK = 8
RULE = (
    "entries: every observable x entry point x number of particles x layers x wavelengths x truncation x host x solver; every descriptive entry of the returned dictionary is compared, "
    "particle by particle and wavelength by wavelength, with what the arguments say, and every observable has the documented axes. describe: permittivities, aliases and text of every particle "
    "(all words of materials). copy: every history of copying, pickling and editing one of the two; at the end both are compared with particles built from scratch (every prefix is a history of its own)."
)
BOUNDS = {
    "quick": "4 observables (at one or several angles or points) x 5 entry points x 1-3 particles x 1-3 layers x 6 wavenumber lists x 4 truncations x 3 hosts x 3 solvers; material words of up to 3 layers over 6 materials x 4 hosts; copy histories of length <= 3 over 11 operations",
    "thorough": "more wavenumber lists, words of 4 layers, histories of length 4",
}
ASSUMPTIONS = [
    "descriptive entries of the solver functions may have singleton axes in place of particles or wavelengths",
    "entries of the particle interface are those of the solver without axes of length one",
]

KS = {"3": [0.011, 0.007, 0.0145], "1": [0.0123], "2": [0.01, 0.02], "repeat": [0.01, 0.02, 0.01], "5": [0.02, 0.017, 0.011, 0.009, 0.0085], "0d": 0.0123, "6": [0.01 + 0.001 * i for i in range(6)], "equal": [0.01, 0.01]}
OBS = ["coef", "cross", "angular", "near"]
TH = [0.0, 0.7, 1.9, PI, -0.4, 7.0]
PTS = [[4.5, -8.0, 12.0], [64.0, 32.5, -16.0], [-120.0, 100.0, 80.25], [0.0, 0.0, 90.0], [0.0, 0.0, 0.0]]
LET = ["d15", "m", "a", "d40", "v", "w", "l", "t", "s"]
MATS = ["num", "const", "Au", "SiO2", "complex", "tensor"]
HOSTS = ["1", "1.33", "SiO2", "tensor"]
FRESH = {}
OPS = ["deepcopy", "copy", "pickle", "run", "run copy", "radius", "radius of copy", "material", "material of copy", "device", "host of copy"]


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["entries", "describe", "copy"])
    if part == "copy":
        n = ch.pick("length", [1, 2, 3] + ([4] if T else []))
        ops = [ch.pick("operation", OPS) for _ in range(n)]
        if not any(o in ("deepcopy", "copy", "pickle") for o in ops):
            ch.prune()
        return dict(part=part, ops=ops, kind=ch.pick("kind", ["mat", "eps", "legacy"]))
    if part == "describe":
        L = ch.pick("layers", [1, 2, 3] + ([4] if T else []))
        w = [ch.pick("material", MATS if L < 3 else MATS[:4]) for _ in range(L)]
        return dict(part=part, word=w, host=ch.pick("host", HOSTS), ks=ch.pick("k0", ["3", "1", "0d"]), api=ch.pick("api", ["layers", "legacy"] if L < 3 else ["layers"]))
    face = ch.pick("entry", ["layers", "legacy", "particle", "materials", "legacy particle"])
    L = ch.pick("layers", [1, 2, 3] if face in ("layers", "particle", "materials") else [1, 2])
    b = ch.pick("backend", ["pena", "torch", "scipy"] if L < 3 else ["pena"])
    P = ch.pick("particles", [1, 2, 3] if face in ("layers", "legacy") else [1])
    return dict(part=part, face=face, L=L, backend=b, P=P, ks=ch.pick("k0", list(KS) if T else list(KS)[:6]), n_max=ch.pick("n_max", [None, 1, 4, "tensor"]), host=ch.pick("host", ["1.3", "dispersive", "default"]), obs=ch.pick("observable", OBS + ["angular one", "near one"]))


def run(cfg, rec):
    globals()["run_" + cfg["part"]](cfg, rec)


def same(rec, name, got, want, squeezed):
    """exact values; the solver may leave singleton axes for those that do not matter"""
    got, want = to_np(got), np.asarray(want)
    if squeezed:
        want = np.squeeze(want)
        rec.true(f"axes of {name}", got.shape == want.shape, f"{got.shape} instead of {want.shape}")
    else:
        got = got[(0,) * (got.ndim - want.ndim)] if got.ndim > want.ndim and set(got.shape[: got.ndim - want.ndim]) == {1} else got
        ok = len(got.shape) <= len(want.shape) and all(a in (1, b) for a, b in zip(got.shape[::-1], want.shape[::-1]))
        rec.true(f"axes of {name}", ok, f"{got.shape} instead of {want.shape}")
    if not rec.viol:
        rec.close(name, np.broadcast_to(got, want.shape), want, rtol=1e-6)


def run_entries(cfg, rec):
    face, L, P, obs = cfg["face"], cfg["L"], cfg["P"], cfg["obs"].split()[0]
    th, pts = (TH[1:2], PTS[:1]) if cfg["obs"].endswith("one") else (TH, PTS)
    k = KS[cfg["ks"]]
    kk = np.atleast_1d(np.array(k, float))
    K = len(kk)
    particle = face in ("particle", "materials", "legacy particle")
    r = np.array([[40.0 + 21 * l + 5.5 * p for l in range(L)] for p in range(P)])
    n = np.array([[N[LET[(3 * p + l) % len(LET)]] for l in range(L)] for p in range(P)])
    dispersive = cfg["host"] == "dispersive"
    if particle and dispersive:
        mat = pmd.materials.MatDatabase("SiO2")
        env = np.array([complex(to_np(mat.get_epsilon(2 * PI / q)).ravel()[0]) for q in kk]).real
    else:
        env = np.array([1.1 + 0.2 * i for i in range(K)]) if dispersive else np.full(K, 1.0 if cfg["host"] == "default" else 1.69)
    # permittivities differ between wavelengths where the entry point allows it
    e = np.array(n)[:, :, None] ** 2 * np.ones(K)
    if face in ("layers", "particle") or face == "legacy" and P == 1:
        e = e * (1 + 0.03 * np.arange(K))
    nm = cfg["n_max"]
    opt = dict(backend=cfg["backend"], **({} if nm is None else dict(n_max=torch.tensor(3) if nm == "tensor" else nm)))
    name = dict(coef="mie_coefficients", cross="cross_sections", angular="angular_scattering", near="nearfields")[obs]
    x = dict(angular=[t64(th)], near=[t64(pts)]).get(obs, [])
    kt = t64(k)
    if particle:
        host = {} if cfg["host"] == "default" else dict(mat_env=mat if dispersive else t64(1.3))
        if face == "particle":
            p = pmd.Particle(r_layers=t64(r[0]), eps_layers=tc(e[0]), **host)
        elif face == "materials":
            p = pmd.Particle(r_layers=t64(r[0]), mat_layers=[pmd.materials.MatConstant(tc(q)) for q in e[0, :, 0]], **host)
        else:
            q = dict(r_core=t64(r[0, 0]), mat_core=tc(n[0, 0]))
            if L == 2:
                q.update(r_shell=t64(r[0, 1]), mat_shell=tc(n[0, 1]))
            p = pmd.Particle(**q, **host)
        o = rec.call(getattr(p, "get_" + name), kt, *x, **opt)
    else:
        kw = {} if cfg["host"] == "default" else dict(eps_env=t64(env) if dispersive else t64(1.69))
        if face == "layers":
            kw.update(r_layers=t64(r if P > 1 else r[0]), eps_layers=tc(e if P > 1 else e[0]))
        else:
            for l, s in enumerate("cs"[:L]):
                kw.update({"r_" + s: t64(r[:, l] if P > 1 else r[0, l]), "eps_" + s: tc(e[:, l, :] if P > 1 else e[0, l])})
        o = rec.call(getattr(ms, name), kt, *x, **kw, **opt)
    want = {}
    orders = None
    if obs != "near":
        lead = {"coef": "a_n", "cross": "cs_ext_multipoles", "angular": None}[obs]
        want["k0"] = np.broadcast_to(kk, (K,))
        if lead:
            a = to_np(o[lead])
            full = {"coef": (P, K), "cross": (P, K)}[obs]
            orders = a.size // int(np.prod(full)) // (2 if obs == "cross" else 1)
            rec.true("n_max", int(o["n_max"]) == orders, f"{int(o['n_max'])} with {orders} orders")
            if nm is not None:
                rec.true("requested order", orders == (3 if nm == "tensor" else nm), str(orders))
            want["n"] = np.arange(1, orders + 1)
    if obs == "coef":
        h = np.sqrt(env)
        root = np.sqrt(e.astype(complex))
        want.update(k=np.broadcast_to(kk * h, (P, K)), r_c=np.broadcast_to(r[:, :1], (P, K)), r_s=np.broadcast_to(r[:, -1:], (P, K)), eps_c=e[:, 0], eps_s=e[:, -1], eps_env=np.broadcast_to(env, (P, K)),
                    n_c=root[:, 0], n_s=root[:, -1], n_env=np.broadcast_to(h, (P, K)), r_layers=r, eps_layers=e, m_layers=root / h, L=np.array(L))
        axes = {q: (orders, P, K) for q in ("a_n", "b_n")}
        # the full matrix counts for these two; k0 has no particle axis
        want["k0"] = np.broadcast_to(kk, (P, K))
    elif obs == "cross":
        want["wavelength"] = 2 * PI / kk
        want["cs_geo"] = np.broadcast_to(PI * r[:, -1:] ** 2, (P, K))
        axes = {f"{q}_{s}": (P, K) for q in ("cs", "q") for s in ("ext", "sca", "abs")}
        axes.update({f"{q}_{s}_multipoles": (2, orders, P, K) for q in ("cs", "q") for s in ("ext", "sca", "abs")})
    elif obs == "angular":
        want["wavelength"], want["theta"] = 2 * PI / kk, np.array(th)
        axes = {q: (P, K, len(th)) for q in ("S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree")}
    else:
        axes = {q: (P, K, len(pts), 3) for q in FIELDS}
    for q, v in want.items():
        rec.true(f"entry {q}", q in o, str(sorted(o)))
        if q in o:
            same(rec, q, o[q], v, particle)
    for q, s in axes.items():
        if particle:
            s = tuple(v for v in s if v != 1)
        rec.true(f"axes of {q}", q in o and tuple(o[q].shape) == s, f"{tuple(o[q].shape) if q in o else None} instead of {s}")
        if q in o:
            rec.true(f"{q} finite", bool(torch.isfinite(o[q]).all()))
    if obs == "cross" and not rec.viol:
        g = to_np(o["cs_geo"])
        for s in ("ext", "sca", "abs"):
            for t in ("", "_multipoles"):
                a, b = to_np(o[f"cs_{s}{t}"]), to_np(o[f"q_{s}{t}"])
                rec.close(f"q_{s}{t}", b * np.broadcast_to(g if particle else np.broadcast_to(PI * r[:, -1:] ** 2, (P, K)), b.shape), a, rtol=1e-9, atol=1e-300)


def material(w, i):
    m = pmd.materials
    v = 1.5 + 0.25 * i
    if w == "num":
        return v, lambda wl: v**2
    if w == "complex":
        return complex(v, 0.5), lambda wl: complex(v, 0.5) ** 2
    if w == "tensor":
        return tc(v + 0.1j), lambda wl: (v + 0.1j) ** 2
    if w == "const":
        return m.MatConstant(3.0 + 1j * i), lambda wl: 3.0 + 1j * i
    o = m.MatDatabase(w)
    f = m.MatDatabase(w)
    return o, lambda wl: complex(to_np(f.get_epsilon(float(wl))).ravel()[0])


def numbers(text):
    return [float(q) for q in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", text)]


def run_describe(cfg, rec):
    w, L = cfg["word"], len(cfg["word"])
    mats, eps = zip(*(material(q, i) for i, q in enumerate(w)))
    r = [30.25 + 17.5 * i for i in range(L)]
    henv, hmodel = {"1": (1.0, lambda wl: 1.0), "1.33": (1.33, lambda wl: 1.33**2), "tensor": (t64(1.2), lambda wl: 1.44), "SiO2": material("SiO2", 0)}[cfg["host"]]
    if cfg["api"] == "layers":
        p = rec.call(pmd.Particle, r_layers=t64(r), mat_layers=list(mats), mat_env=henv)
    else:
        q = dict(r_core=t64(r[0]), mat_core=mats[0])
        if L == 2:
            q.update(r_shell=t64(r[1]), mat_shell=mats[1])
        p = rec.call(pmd.Particle, mat_env=henv, **q)
    k = KS[cfg["ks"]]
    kk = np.atleast_1d(np.array(k, float))
    el, ev = rec.call(p.get_material_permittivities, t64(k))
    tail = () if np.ndim(k) == 0 or len(kk) == 1 else (len(kk),)
    want = np.array([[f(2 * PI / q) for q in kk] for f in eps])
    rec.close("permittivities", np.broadcast_to(to_np(el).reshape(L, -1), want.shape), want, rtol=1e-5)
    rec.close("host", np.broadcast_to(to_np(ev).ravel(), kk.shape), np.array([hmodel(2 * PI / q) for q in kk]), rtol=1e-5)
    rec.true("axes", el.shape[0] == L and el.numel() in (L, L * len(kk)) and ev.numel() in (1, len(kk)), f"{tuple(el.shape)} {tuple(ev.shape)} {tail}")
    rec.close("radii", p.r_layers, np.array(r), rtol=1e-12)
    rec.close("core radius", p.r_c, np.array(r[0]), rtol=1e-12)
    rec.true("core material", p.mat_c is p.mat_layers[0])
    if L > 1:
        rec.close("outer radius", p.r_s, np.array(r[-1]), rtol=1e-12)
        rec.true("outer material", p.mat_s is p.mat_layers[-1])
    else:
        rec.true("no shell", p.r_s is None and p.mat_s is None)
    # materials given as objects are the caller's, in the caller's order
    for a, b, q in zip(mats, p.mat_layers, w):
        if q in ("const", "Au", "SiO2"):
            rec.true("material object", a is b)
    text = rec.call(repr, p)
    have = numbers(text)
    pos = -1
    for v in r:
        i = next((i for i, q in enumerate(have) if i > pos and abs(q - v) < 1e-3), None)
        rec.true(f"text mentions the radius {v}", i is not None, text)
        pos = i if i is not None else pos
    for m, q in zip(p.mat_layers, w):
        rec.true(f"text mentions the material {q}", m.__name__ in text, text)
    rec.true("text mentions the host", p.mat_env.__name__ in text, text)


def scratch(s):
    """a particle with the given content"""
    m = {"Au": lambda: pmd.materials.MatDatabase("Au"), "c": lambda: pmd.materials.MatConstant(3.0 + 0.5j), "d": lambda: pmd.materials.MatConstant(6.25)}
    h = dict(mat_env=s["host"])
    if s["kind"] == "eps":
        return pmd.Particle(r_layers=t64(s["r"]), eps_layers=tc([{"Au": -9 + 1j, "c": 3.0 + 0.5j, "d": 6.25}[q] for q in s["m"]]), **h)
    if s["kind"] == "legacy":
        return pmd.Particle(r_core=t64(s["r"][0]), mat_core=m[s["m"][0]](), r_shell=t64(s["r"][1]), mat_shell=m[s["m"][1]](), **h)
    return pmd.Particle(r_layers=t64(s["r"]), mat_layers=[m[q]() for q in s["m"]], **h)


def look(p):
    k = t64([0.0123, 0.0101])
    o = p.get_cross_sections(k, n_max=3)
    f = p.get_nearfields(k, t64(PTS[:3]), n_max=2)
    return [to_np(o["cs_ext"]), to_np(o["cs_sca"]), to_np(f["E_t"]), to_np(p.r_layers)]


def run_copy(cfg, rec):
    a = dict(kind=cfg["kind"], r=[40.0, 62.0], m=["c", "Au"], host=1.2)
    pa, pb, b = scratch(a), None, None
    shared = False  # copy.copy shares what the original holds: editing in place would show in both, replacing would not
    for op in cfg["ops"]:
        if op in ("deepcopy", "copy", "pickle"):
            pb = rec.call({"deepcopy": copy.deepcopy, "copy": copy.copy, "pickle": lambda q: pickle.loads(pickle.dumps(q))}[op], pa)
            b = dict(a, r=list(a["r"]), m=list(a["m"]))
        elif op == "run":
            rec.call(look, pa)
        elif op == "device":
            rec.call(pa.set_device, "cpu")
        else:
            q, s = (pb, b) if op.endswith("copy") else (pa, a)
            if q is None:
                continue
            if op == "run copy":
                rec.call(look, q)
            elif op.startswith("radius"):
                q.r_layers = t64([45.0, 70.0])
                s["r"] = [45.0, 70.0]
            elif op.startswith("host"):
                q.mat_env = None  # the old material is gone before the new one exists
                q.mat_env = pmd.materials.MatConstant(2.25)
                s["host"] = 1.5
            elif s["kind"] == "eps":
                q.eps_layers = tc([3.0 + 0.5j, 6.25])
                s["m"] = ["c", "d"]
            else:
                q.mat_layers = [q.mat_layers[0], pmd.materials.MatConstant(6.25)]
                s["m"] = ["c", "d"]
    # the state after every proper prefix is the final state of a shorter history
    for nm, p, s in (("original", pa, a), ("copy", pb, b)):
        if p is not None:
            key = repr(sorted(s.items()))
            if key not in FRESH:
                FRESH[key] = look(scratch(s))
            for i, (x, y) in enumerate(zip(rec.call(look, p), FRESH[key])):
                rec.close(f"{nm} [{i}]", x, y, rtol=1e-6)
