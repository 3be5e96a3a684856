"""C09: automatic differentiation returns the true derivative of every observable for every input."""
import math

import numpy as np
import torch

from mc.world import BACKENDS, FIELDS, PI, Config, N, bk, ms, pmd, to_np

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "Every backend x observable x stack x size x order mode x batch layout, all inputs differentiable at once: the gradient of every returned quantity with "
    "respect to every component (real and imaginary part) of every input is compared with fourth-order finite differences of the same function; then every "
    "history up to length 3 over {all inputs at once, each input alone, second backward on the kept graph, fresh evaluation, accumulation} must give the same gradients."
)
BOUNDS = {
    "quick": "4 backends x 4 observables x (L=1: 8 words, L=2: 6, L=3: 3, L=4: 1) x 2-3 order modes x 4 batch layouts (paired) + particles with differentiable material constants, radii, wavenumbers and dispersive materials",
    "thorough": "all combinations of words, sizes, order modes and layouts",
}
ASSUMPTIONS = [
    "probe positions on an interface are excluded (one-sided derivatives)",
    "materials are single precision: gradients through them are compared to 1 %",
]

WORDS = {
    1: [(["d15"], 1.0), (["a"], 1.0), (["m"], 1.5), (["d40"], 2.0), (["d15"], 0.02), (["s"], 8.0), (["z"], 1.0), (["d15"], 25.0)],
    2: [(["d15", "m"], 1.2), (["m", "d15"], 1.5), (["d40", "a"], 2.0), (["a", "d15"], 5.0), (["m", "d40"], 0.1), (["v", "d15"], 3.0)],
    3: [(["d15", "m", "d40"], 1.5), (["a", "d15", "m"], 4.0), (["m", "v", "a"], 0.3)],
    4: [(["d15", "m", "a", "d40"], 2.5)],
}
LAYOUT = ["single", "scalar", "batch", "share", "real"]
HIST = ["joint", "each", "again", "fresh", "accumulate"]


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["solver", "history", "particle", "axis"])
    if part == "axis":
        return dict(part=part, z=ch.pick("z", [150.0, -150.0, 20.0]), obs="near")
    if part == "particle":
        return dict(part=part, obs=ch.pick("observable", ["coef", "cross", "angular", "near"]), kind=ch.pick("kind", ["constants", "numbers", "legacy", "dispersive", "eps"]),
                    L=ch.pick("layers", [1, 2]), nk=ch.pick("wavelengths", [1, 2]), backend=ch.pick("backend", ["pena", "torch"]))
    L = ch.pick("layers", [1, 2, 3, 4] if part == "solver" else [1, 2, 3])
    b = ch.pick("backend", BACKENDS if L <= 2 else BACKENDS[:1])
    obs = ch.pick("observable", ["coef", "cross", "angular", "near"])
    if part == "history":
        if not T and (L, b) not in ((1, BACKENDS[0]), (3, BACKENDS[0]), (2, BACKENDS[1]), (2, BACKENDS[3])):
            ch.prune()
        word, x = WORDS[L][0]
        h = [ch.pick("step", HIST) for _ in range(2 if not T else 3)]
        return dict(part=part, word=word, x=x, backend=list(b), obs=obs, order=3, layout="batch" if L == 2 else "single", hist=h)
    word, x = ch.pick("word", WORDS[L])
    c = Config(x, word)
    if b[0] != "pena" and max(c.k0 * c.r[-1] * abs(n.imag) for n in c.n) > 8:
        ch.prune()
    layout = ch.pick("layout", LAYOUT)
    if layout == "real" and any(N[w].imag for w in word):
        ch.prune()
    order = ch.pick("order", ["auto", 1, 3, "over"])
    if order == "over" and (obs in ("near", "angular") or x > 8 or b[0] != "pena"):
        ch.prune()
    if not T:
        i = WORDS[L].index((word, x))
        # pair layouts, order modes and words
        j = LAYOUT.index(layout) + ["auto", 1, 3, "over"].index(order) + i
        if layout != "real" and j % 3 and not (i == 0 and layout == "single"):
            ch.prune()
        if x > 20 and (layout in ("batch", "share") or obs == "near"):
            ch.prune()
        if obs == "near" and b[0] == "pena" and j % 2 and layout != "single":
            ch.prune()
    return dict(part=part, word=word, x=x, backend=list(b), obs=obs, order=order, layout=layout)


def base_inputs(cfg):
    """name -> numpy array"""
    c = Config(cfg["x"], cfg["word"], "even", 1.2)
    L = len(c.r)
    e = np.array([n**2 for n in c.n])
    lay = cfg["layout"]
    d = {}
    if lay == "scalar":
        d["k0"] = np.array(c.k0)
        d["r"], d["eps"], d["env"] = np.array(c.r), e, np.array(1.44)
    elif lay == "single":
        d["k0"] = np.array([c.k0])
        d["r"], d["eps"], d["env"] = np.array(c.r), e, np.array([1.44])
    elif lay == "real":
        d["k0"] = np.array([c.k0, 0.9 * c.k0])
        d["r"], d["eps"], d["env"] = np.array([c.r]), e.real.copy(), np.array(1.44)
    elif lay == "batch":
        d["k0"] = np.array([c.k0, 1.13 * c.k0, 0.8 * c.k0])
        d["r"] = np.array([c.r, [0.83 * q for q in c.r]])
        d["eps"] = e[None, :, None] * np.array([1.0, 1.1])[:, None, None] * np.array([1.0, 1.05 + 0.01j, 0.95])[None, None, :]
        d["env"] = np.array([1.44, 1.3, 1.5])
    else:  # one permittivity for all particles and wavelengths
        d["k0"] = np.array([c.k0, 1.13 * c.k0])
        d["r"] = np.array([c.r, [0.83 * q for q in c.r], [0.9 * q for q in c.r]])
        d["eps"], d["env"] = e, np.array(1.44)
    if cfg["obs"] == "angular":
        d["theta"] = np.array([0.0, 0.9, PI, 4.0])
    if cfg["obs"] == "near":
        R = c.r[-1]
        mid = [0.5 * c.r[0] * 0.8] + [0.5 * (a + b) for a, b in zip(c.r, c.r[1:])]
        u = [(0.6, 0.48, 0.64), (-0.48, 0.64, -0.6), (0.8, 0.0, 0.6), (0.0, 0.8, -0.6)]
        p = [tuple(q * w for q in u[i % 4]) for i, w in enumerate(mid)]
        p += [(0.9 * R, -0.7 * R, 0.8 * R), (-1.3 * R, 0.0, 0.0), (0.0, 1.4 * R, 0.3 * R)]
        d["probe"] = np.array(p)
        d["E_0"] = np.array(0.7 - 0.4j)
    return d


def evaluate(cfg, t, n_max):
    kw = dict(r_layers=t["r"], eps_layers=t["eps"], eps_env=t["env"], n_max=n_max, **bk(cfg["backend"]))
    obs = cfg["obs"]
    if obs == "coef":
        o = ms.mie_coefficients(t["k0"], **kw)
        keys = ["a_n", "b_n"]
    elif obs == "cross":
        o = ms.cross_sections(t["k0"], **kw)
        keys = [p + q + s for p in ("cs_", "q_") for q in ("ext", "sca", "abs") for s in ("", "_multipoles")]
    elif obs == "angular":
        o = ms.angular_scattering(t["k0"], t["theta"], **kw)
        keys = ["S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree"]
    else:
        o = ms.nearfields(t["k0"], t["probe"], E_0=t["E_0"], **kw)
        keys = list(FIELDS)
    return {k: o[k] for k in keys}


def tensors(d, grad):
    return {k: torch.tensor(v, dtype=torch.complex128 if np.iscomplexobj(v) else torch.float64, requires_grad=grad) for k, v in d.items()}


def functional(o):
    """a fixed real linear combination of real and imaginary parts of the output"""
    f = o.reshape(-1)
    i = torch.arange(f.numel(), dtype=torch.float64)
    w = torch.cos(1.3 * i + 0.4)
    if f.is_complex():
        return (f.real * w).sum() + (f.imag * torch.sin(0.7 * i + 1.1)).sum()
    return (f * w).sum()


STEP = 5e-5


def steps(d):
    s = {}
    for k, v in d.items():
        if k == "k0":
            s[k] = STEP * np.abs(v)
        elif k == "r":
            g = np.diff(np.concatenate([np.zeros(v.shape[:-1] + (1,)), v], -1), axis=-1)
            s[k] = STEP * g.min() * np.ones_like(v)
        elif k == "eps":
            s[k] = STEP * np.abs(v)
        elif k == "probe":
            s[k] = STEP * 60.0 * np.ones_like(v)
        else:
            s[k] = STEP * np.ones(np.shape(v))
    return s


def differences(f, d, h, which):
    """fourth-order differences of every output functional: key -> array of the shape of d[which] (complex: d/dRe + i d/dIm)"""
    v = d[which]
    out = {}
    for idx in np.ndindex(*v.shape):
        for unit in (1.0, 1j) if np.iscomplexobj(v) else (1.0,):
            hs = h[which][idx]
            acc = {}
            for m, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
                dd = dict(d)
                q = v.copy()
                q[idx] += m * hs * unit
                dd[which] = q
                for k, val in f(dd).items():
                    acc[k] = acc.get(k, 0.0) + w * val
            for k, val in acc.items():
                out.setdefault(k, np.zeros(v.shape, dtype=v.dtype))
                out[k][idx] += unit * val / (12 * hs)
    return out


def check_grads(rec, cfg, d, evalfn, n_max, tol=2e-5, noise=1e-8, h=None, names=None, probe_hist=None, exclude=()):
    t = tensors(d, True)
    o = rec.call(evalfn, cfg, t, n_max)
    names = names or [k for k in d]
    h = h or steps(d)

    def plain(dd):
        with torch.no_grad():
            return {k: float(functional(v)) for k, v in evalfn(cfg, tensors(dd, False), n_max).items()}

    keys = list(o)
    L = {k: functional(o[k]) for k in keys}
    size = {k: float(o[k].detach().abs().sum()) for k in keys}
    for k in keys:  # absorption is a difference; the real parts of small coefficients are differences of their moduli
        size[k] = max(size[k], size.get(k.replace("abs", "ext"), 0.0))
        if cfg.get("obs") == "cross" and cfg.get("x", 1) < 0.5:
            size[k] += 6 * cfg["x"] * (1.0 if k[0] == "q" else PI * 1e4) * o[k].numel()
    fd = {w: differences(plain, d, h, w) for w in names}
    ad = {}
    for k in keys:
        if not L[k].requires_grad:
            rec.fail(f"{k} does not depend on any input")
            return
        g = rec.call(torch.autograd.grad, L[k], [t[w] for w in names], retain_graph=True, allow_unused=True)
        for w, gg in zip(names, g):
            if (k, w) in exclude:
                continue
            gg = torch.zeros_like(t[w]) if gg is None else gg
            ad[k, w] = to_np(gg)
            ref = fd[w][k]
            unit = size[k] * noise / h[w] * STEP if np.ndim(h[w]) == 0 else size[k] * noise * STEP / np.min(h[w])
            rec.close(f"d {k} / d {w}", ad[k, w], ref, rtol=0, atol=tol * np.max(np.abs(ref)) + unit)
    return t, o, L, ad


def n_of(cfg, d):
    if cfg["order"] in ("auto", "over"):
        t = tensors(d, False)
        n = int(ms.mie_coefficients(t["k0"], r_layers=t["r"], eps_layers=t["eps"], eps_env=t["env"], **bk(cfg["backend"]))["n_max"])
        return n if cfg["order"] == "auto" else n + 30
    return cfg["order"]


def run(cfg, rec):
    if cfg["part"] == "particle":
        return run_particle(cfg, rec)
    if cfg["part"] == "axis":
        return run_axis(cfg, rec)
    d = base_inputs(cfg)
    n_max = n_of(cfg, d)
    if cfg["part"] == "solver":
        # with automatic truncation the gradient is taken with the automatic order
        r = check_grads(rec, cfg, d, evaluate, n_max)
        if rec.viol or r is None:
            return
        t, o, L, ad = r
        if cfg["order"] == "auto":
            o2 = rec.call(evaluate, cfg, t, None)
            for k in o2:
                g = torch.autograd.grad(functional(o2[k]), list(t.values()), retain_graph=True, allow_unused=True)
                for w, gg in zip(t, g):
                    a = ad[k, w]
                    rec.close(f"automatic order: d {k} / d {w}", np.zeros_like(a) if gg is None else gg, a, rtol=0, atol=1e-9 * np.max(np.abs(a)) + 1e-300)
        return
    # histories of evaluations and backward passes on the same input tensors
    t = tensors(d, True)
    fresh = tensors(d, True)
    ref = {}
    o = rec.call(evaluate, cfg, fresh, n_max)
    for k in o:
        g = torch.autograd.grad(functional(o[k]), list(fresh.values()), retain_graph=True, allow_unused=True)
        ref[k] = [torch.zeros_like(v) if q is None else q for q, v in zip(g, fresh.values())]

    def same(k, g, tag):
        for w, q, r in zip(t, g, ref[k]):
            q = torch.zeros_like(r) if q is None else q
            rec.close(f"{tag}: d {k} / d {w}", q, to_np(r), rtol=0, atol=1e-9 * float(r.abs().max()) + 1e-300)

    kept = None
    for i, step in enumerate(cfg["hist"]):
        tag = f"step {i} ({step})"
        if step == "joint" or (step == "again" and kept is None):
            kept = rec.call(evaluate, cfg, t, n_max)
            for k in kept:
                same(k, rec.call(torch.autograd.grad, functional(kept[k]), list(t.values()), retain_graph=True, allow_unused=True), tag)
        elif step == "again":
            for k in kept:
                same(k, rec.call(torch.autograd.grad, functional(kept[k]), list(t.values()), retain_graph=True, allow_unused=True), tag)
        elif step == "fresh":
            o = rec.call(evaluate, cfg, t, n_max)
            for k in o:
                same(k, rec.call(torch.autograd.grad, functional(o[k]), list(t.values()), retain_graph=True, allow_unused=True), tag)
        elif step == "each":
            for j, w in enumerate(t):
                one = tensors(d, False)
                one[w].requires_grad_(True)
                o = rec.call(evaluate, cfg, one, n_max)
                for k in o:
                    f = functional(o[k])
                    g = rec.call(torch.autograd.grad, f, [one[w]], retain_graph=True)[0] if f.requires_grad else torch.zeros_like(one[w])
                    r = ref[k][j]
                    rec.close(f"{tag}: d {k} / d {w}", g, to_np(r), rtol=0, atol=1e-9 * float(r.abs().max()) + 1e-300)
        else:
            o = rec.call(evaluate, cfg, t, n_max)
            tot = sum(functional(v) for v in o.values())
            for v in t.values():
                v.grad = None
            rec.call(tot.backward, retain_graph=True)
            rec.call(tot.backward)
            for j, w in enumerate(t):
                r = sum(ref[k][j] for k in ref)
                g = t[w].grad
                rec.close(f"{tag}: accumulated gradient of {w}", torch.zeros_like(r) if g is None else g, 2 * to_np(r), rtol=0,
                          atol=1e-9 * sum(float(ref[k][j].abs().max()) for k in ref) + 1e-300)
                t[w].grad = None


def run_axis(cfg, rec):
    c = dict(word=["d15"], x=1.2, layout="single", obs="near", backend=["pena", "recurrence"], order=6)
    d = base_inputs(c)
    d["probe"] = np.array([[0.0, 0.0, cfg["z"]]])
    check_grads(rec, c, d, evaluate, 6, names=["probe", "k0", "r", "eps"])


def run_particle(cfg, rec):
    """gradients through particles: radii, wavenumber and material constants (single precision)"""
    L, nk, obs, kind = cfg["L"], cfg["nk"], cfg["obs"], cfg["kind"]
    wl = [612.0, 733.0][:nk] if kind == "dispersive" else [600.0, 700.0][:nk]
    d = dict(k0=2 * PI / np.array(wl), r=np.array([60.0, 95.0][:L]))
    nvals = [2.0 + 0.1j, 1.5 + 0.3j][:L]
    if kind in ("constants", "eps"):
        d["eps"] = np.array(nvals) ** 2
    elif kind != "dispersive":
        d["n"] = np.array(nvals)
    if kind in ("constants", "numbers", "legacy"):
        d["env"] = np.array(1.3)
    db = [pmd.materials.MatDatabase(m) for m in ("Si", "Au")][:L]

    def make(t):
        env = t["env"] if "env" in t else 1.2
        if kind == "constants":
            return pmd.Particle(r_layers=t["r"], mat_layers=[pmd.materials.MatConstant(t["eps"][l]) for l in range(L)], mat_env=env)
        if kind == "eps":
            return pmd.Particle(r_layers=t["r"], eps_layers=t["eps"], mat_env=env)
        if kind == "dispersive":
            return pmd.Particle(r_layers=t["r"], mat_layers=db, mat_env=env)
        m = [t["n"][l] for l in range(L)]
        if kind == "numbers":
            return pmd.Particle(r_layers=t["r"], mat_layers=m, mat_env=env)
        a = dict(r_core=t["r"][0], mat_core=m[0], mat_env=env)
        if L == 2:
            a.update(r_shell=t["r"][1], mat_shell=m[1])
        return pmd.Particle(**a)

    def ev(c, t, n_max):
        p = make(t)
        kw = dict(n_max=n_max, backend=cfg["backend"])
        if obs == "coef":
            o = p.get_mie_coefficients(t["k0"], **kw)
            return {k: o[k] for k in ("a_n", "b_n")}
        if obs == "cross":
            o = p.get_cross_sections(t["k0"], **kw)
            return {k: o[k] for k in ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs")}
        if obs == "angular":
            o = p.get_angular_scattering(t["k0"], torch.tensor([0.4, 2.0], dtype=torch.float64), **kw)
            return {k: o[k] for k in ("S1", "S2", "i_unpol")}
        o = p.get_nearfields(t["k0"], torch.tensor([[10.0, 12.0, -20.0], [70.0, -60.0, 80.0]], dtype=torch.float64), **kw)
        return {k: o[k] for k in FIELDS}

    h = {}
    for k, v in d.items():
        h[k] = {"k0": 2e-3 if kind != "dispersive" else 5e-4, "r": 5e-3, "eps": 1e-2, "n": 1e-2, "env": 1e-2}[k] * np.maximum(np.abs(v), 1e-30)
    # a tabulated permittivity is piecewise linear: stay inside one interval
    check_grads(rec, cfg, d, ev, 5, tol=1e-2, noise=2e-6 * 5e-4 / STEP, h={k: v for k, v in h.items()})
    if rec.viol:
        return
    # the same particle object, evaluated repeatedly
    t = tensors(d, True)
    p = rec.call(make, t)
    gs = []
    for _ in range(3):
        o = rec.call(p.get_cross_sections, t["k0"], n_max=3, backend=cfg["backend"])
        f = functional(o["cs_ext"].reshape(-1)) + functional(o["q_sca"].reshape(-1))
        gs.append([to_np(g) for g in rec.call(torch.autograd.grad, f, list(t.values()), retain_graph=True)])
    for i in (1, 2):
        for w, a, b in zip(t, gs[i], gs[0]):
            rec.close(f"evaluation {i}: d / d {w}", a, b, rtol=1e-9, scale=np.abs(b).max() * np.ones(b.shape))
