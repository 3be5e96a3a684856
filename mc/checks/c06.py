"""C06: vectorised evaluation over particles, wavelengths, positions/angles equals evaluating each case alone."""
import numpy as np

from mc.world import BACKENDS, FIELDS, PI, bk, fmax, ms, t64, tc, to_np

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "Every combination of particle, wavelength, layer and probe counts (coinciding counts included), permittivity layout, host layout, backend and order "
    "mode is evaluated as one batch for every observable; every entry is compared with the evaluation of that particle, wavelength and probe alone."
)
BOUNDS = {
    "quick": "particles 1..3 x wavelengths 1..3 x layers 1..3 x probes {1,3} x all layouts x host and order modes paired; 4 backends for up to two layers; legacy argument form; batches whose members repeat, nearly coincide, span decades or differ in one input by 3e-3..1e-7; batches of up to 321 wavelengths, 257 particles, 1100 positions",
    "thorough": "particles 1..4 x wavelengths 1..4 x layers 1..4 x probes 1..4, all layouts, host layouts, orders {auto,1,2,3}, 4 backends; legacy argument form; the special batches of the quick tier at all layer counts and backends",
}
ASSUMPTIONS = ["single evaluations are the model (their values are judged by C01-C05)",
               "where a 2-D permittivity fits both documented layouts, the particle layout is meant (documented precedence)"]

RAD = [[40.0, 75.0, 110.0, 130.0], [90.0, 95.0, 160.0, 200.0], [20.0, 60.0, 70.0, 90.0], [55.0, 56.0, 120.0, 121.0]]
EPS = [2.25 + 0j, 12.0 + 0.4j, 4.0 + 0.1j, 1.7 + 0j]
K0 = [0.0126, 0.0085, 0.0151, 0.0105]
ENV = [1.0, 1.21, 1.7689, 1.44]


def eps_of(p, l, k, layout):
    e = EPS[l]
    if layout in ("NpL", "NpLNk", "NpL1"):
        e = e * (1 + 0.35 * p)
    if layout in ("LNk", "NpLNk", "1LNk"):
        e = e * (1 + 0.11 * k) + 0.05j * k
    return e


CONTENT = ["repeated", "close", "nearly", "span", "contrast", "metal", "descending", "weak"]
# members that differ in one input only, by little
SLIGHT = ["eps over wavelengths", "eps over particles", "host", "k0", "radii"]
BIG = [(257, 1, 3), (1, 321, 3), (3, 2, 1100), (33, 37, 2), (6, 7, 60), (129, 3, 2), (2, 65, 9)]


def gen(ch, tier):
    T = tier == "thorough"
    kind = ch.pick("kind", ["batch", "content", "slight", "big"])
    if kind == "slight":
        what, d = ch.pick("input", SLIGHT), ch.pick("difference", [3e-3, 4e-4, 3e-5, 1e-7])
        L = ch.pick("L", [1, 2, 3] if T else [1, 2])
        b = ch.pick("backend", BACKENDS if T and L <= 2 else [BACKENDS[0]] + ([BACKENDS[1 + L]] if L <= 2 else []))
        return dict(kind=kind, content=[what, d], L=L, backend=list(b), orders=7)
    if kind == "content":
        what = ch.pick("content", CONTENT)
        L = ch.pick("L", [1, 2, 3, 4] if T else [1, 2, 3])
        b = ch.pick("backend", BACKENDS if L <= 2 else BACKENDS[:1])
        return dict(kind=kind, content=what, L=L, backend=list(b), orders=ch.pick("orders", ["auto", 4] if T or b[0] == "pena" else ["auto"]))
    if kind == "big":
        shape = ch.pick("shape", BIG)
        L = ch.pick("L", [1, 2, 3] if T else [1 + sum(shape) % 2, 3])
        b = ch.pick("backend", (BACKENDS if T else [BACKENDS[0], BACKENDS[sum(shape) % 3 + 1]]) if L <= 2 else BACKENDS[:1])
        return dict(kind=kind, shape=list(shape), L=L, backend=list(b))
    top = 4 if T else 3
    form = ch.pick("form", ["layers", "legacy"])
    L = ch.pick("L", range(1, top + 1) if form == "layers" else [1, 2])
    Np = ch.pick("particles", range(1, top + 1))
    Nk = ch.pick("wavelengths", range(1, top + 1))
    lay = ch.pick("layout", ["L", "NpL", "LNk", "NpLNk", "1LNk", "NpL1"] if form == "layers" else ["L", "NpL", "LNk", "NpLNk"])
    if form == "layers":
        if lay == "LNk" and (L, Nk) == (Np, L) and Np > 1:
            ch.prune()
    else:
        if (lay == "NpL" and Np == 1) or (lay == "L" and Np > 1):
            ch.prune()  # a scalar legacy permittivity describes one particle
        if lay == "LNk" and (Nk == Np):
            ch.prune()  # read as one value per particle
    env = ch.pick("host", ["scalar", "Nk"])
    b = ch.pick("backend", BACKENDS if L <= 2 else BACKENDS[:1])
    order = ch.pick("orders", ["auto", 2, 3] if (b[0] == "pena" or not T) else ["auto", 1, 2, 3])
    if not T and ((env == "Nk") == (order == 2) or L == 3 and order != "auto" and (Np + Nk + order) % 2):
        ch.prune()
    Npos = ch.pick("probes", [1, 2, 3, 4] if T else ([1, 3] if order == 3 else [3]))
    return dict(kind=kind, form=form, L=L, Np=Np, Nk=Nk, layout=lay, host=env, backend=list(b), orders=order, Npos=Npos)


def content(what, L):
    """three particles x four wavelengths whose contents are related in a particular way"""
    r = np.array([RAD[p][:L] for p in (0, 1, 3)])
    k0 = np.array(K0)
    e = np.array([[[EPS[l] * (1 + 0.3 * p) * (1 + 0.11 * k) for k in range(4)] for l in range(L)] for p in range(3)])
    env = np.array([1.69, 1.21, 1.44, 1.0])
    if what == "repeated":  # members that occur twice
        r[2], e[2] = r[0], e[0]
        k0[2], e[:, :, 2], env[2] = k0[0], e[:, :, 0], env[0]
    elif what == "close":  # members that differ by a millionth or a thousandth
        r = r[0] * np.array([[1.0], [1 + 1e-6], [1 + 1e-3]])
        e = e[:1, :, :1] * np.ones((3, 1, 4))
        k0 = k0[0] * np.array([1, 1 + 1e-6, 1 + 1e-3, 1 + 1e-5])
        env = np.full(4, 1.69)
    elif what == "nearly":  # same sizes, permittivities that differ in the last digits
        r = r[:1] * np.ones((3, 1))
        e = e[:1, :, :1] * (1 + np.array([0, 1e-6, 1e-3])[:, None, None] + np.array([0, 1e-5, 1e-4, 1e-2])[None, None, :])
        env = 1.69 * (1 + np.array([0, 1e-6, 1e-4, 1e-2]))
    elif what == "span":  # sizes and wavelengths that differ by two orders of magnitude
        r = r * np.array([[0.02], [1.0], [5.0]])
        k0 = k0 * np.array([1.0, 0.02, 1.0, 3.0])
    elif what == "contrast":  # a member without contrast, a wavelength without contrast
        e[1] = env
        e[:, :, 2] = env[2]
    elif what == "metal":  # one metal among dielectrics, one absorbing wavelength
        e[2] = -12 + 0.7j + 0.3 * np.arange(4)
        e[0, :, 1] += 2j
    elif what == "descending":
        r, e = r[::-1].copy(), e[::-1].copy()
        k0 = np.sort(k0)[::-1].copy()
    elif what == "weak":  # dispersion of host and layers, non-dispersive elsewhere
        e[0] = e[0, :, :1]
        e[1, :, 1:] = e[1, :, :1] * (1 + 1e-4)
        env = np.array([1.69, 1.69, 1.69, 1.6900001])
    return r, e, k0, env


def slight(what, d, L):
    r = np.array([RAD[0][:L]] * 3)
    k0 = np.full(4, K0[0])
    e = np.array(EPS[:L])[None, :, None] * np.ones((3, 1, 4))
    env = np.full(4, 1.69)
    w = np.array([0, 1, -1, 2]) * d
    if what == "eps over wavelengths":
        e = e * (1 + w)
    elif what == "eps over particles":
        e = e * (1 + w[:3, None, None])
    elif what == "host":
        env = env * (1 + w)
    elif what == "k0":
        k0 = k0 * (1 + w)
    else:
        r = r * (1 + w[:3, None])
    return r, e, k0, env


def big(shape, L):
    Np, Nk, Npos = shape
    p, k, i = np.arange(Np), np.arange(Nk), np.arange(Npos)
    r = np.array(RAD[0][:L])[None, :] * (0.6 + 0.9 * ((p * 7) % (Np + 3)) / (Np + 3))[:, None]
    k0 = 0.008 + 0.006 * ((k * 11) % (Nk + 5)) / (Nk + 5)
    e = np.array(EPS[:L])[None, :, None] * (1 + 0.3 * np.sin(p))[:, None, None] + 0.2j * (1 + np.cos(k))[None, None, :]
    env = 1.3 + 0.3 * np.cos(k)
    th = np.linspace(-0.2, 3.5, Npos)
    P = np.stack([150 * np.sin(2.1 * i), 130 * np.cos(1.3 * i), 170 * np.sin(0.7 * i + 0.3)], 1)
    return r, e, k0, env, th, P


def some(n):
    return sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n)))


def run(cfg, rec):
    if cfg["kind"] in ("content", "slight"):
        r, e, k0, env = content(cfg["content"], cfg["L"]) if cfg["kind"] == "content" else slight(*cfg["content"], cfg["L"])
        kw = dict(r_layers=t64(r), eps_layers=tc(e), eps_env=t64(env), **bk(cfg["backend"]))
        nm = None if cfg["orders"] == "auto" else cfg["orders"]
        if cfg["content"] == "span" and nm is None and cfg["backend"][0] != "pena":
            nm = 12  # the closed-form functions overflow at orders far above the size
        th = t64([0.3, 2.0, PI, 0.3])
        m = r[:, -1].max()
        P = t64(m * np.array([[0.1, -0.15, 0.12], [0.5, 0.2, -0.2], [-1.1, 0.9, 0.6], [0.1, -0.15, 0.12]]))
        return compare(rec, cfg["backend"], r, e, k0, env, th, P, nm, kw, [(p, k) for p in range(3) for k in range(4)])
    if cfg["kind"] == "big":
        r, e, k0, env, th, P = big(cfg["shape"], cfg["L"])
        kw = dict(r_layers=t64(r), eps_layers=tc(e), eps_env=t64(env), **bk(cfg["backend"]))
        Np, Nk, Npos = cfg["shape"]
        entries = [(p, k) for p in some(Np) for k in some(Nk)]
        return compare(rec, cfg["backend"], r, e, k0, env, t64(th), t64(P), 6, kw, entries, probes=[some(Npos)])
    L, Np, Nk, lay = (cfg[k] for k in ("L", "Np", "Nk", "layout"))
    r = np.array([RAD[p][:L] for p in range(Np)])
    e = np.array([[[eps_of(p, l, k, lay) for k in range(Nk)] for l in range(L)] for p in range(Np)])
    k0 = np.array(K0[:Nk])
    env = np.array([ENV[k] if cfg["host"] == "Nk" else 1.3 for k in range(Nk)])
    arr = {"L": e[0, :, 0], "NpL": e[:, :, 0], "LNk": e[0], "NpLNk": e, "1LNk": e[:1], "NpL1": e[:, :, :1]}[lay]
    if cfg["form"] == "layers":
        kw = dict(r_layers=t64(r if Np > 1 else r[0]), eps_layers=tc(arr))
    else:
        pick = {"L": lambda l: e[0, l, 0], "NpL": lambda l: e[:, l, 0], "LNk": lambda l: e[0, l], "NpLNk": lambda l: e[:, l]}[lay]
        kw = dict(r_c=t64(r[:, 0]), eps_c=tc(pick(0)))
        if L == 2:
            kw.update(r_s=t64(r[:, 1]), eps_s=tc(pick(1)))
    kw.update(eps_env=t64(env if cfg["host"] == "Nk" else env[0]), **bk(cfg["backend"]))
    nm = None if cfg["orders"] == "auto" else cfg["orders"]
    th = t64([0.3, 2.0, PI, 1.1][: cfg["Npos"]])
    P = t64([[10.0, -15.0, 12.0], [60.0, 30.0, -20.0], [-150.0, 170.0, 90.0], [0.0, 0.0, 58.0]][: cfg["Npos"]])
    compare(rec, cfg["backend"], r, e, k0, env, th, P, nm, kw, [(p, k) for p in range(Np) for k in range(Nk)])


def compare(rec, backend, r, e, k0, env, th, P, nm, kw, entries, probes=None):
    """the batched call against every entry evaluated alone (probes: judged positions, None for all, alone and together)"""
    Np, Nk, Npos = len(r), len(k0), len(P)
    K = t64(k0)
    co = rec.call(ms.mie_coefficients, K, n_max=nm, **kw)
    n_used = int(co["n_max"])
    cs = rec.call(ms.cross_sections, K, n_max=nm, **kw)
    an = rec.call(ms.angular_scattering, K, th, n_max=nm, **kw)
    nf = rec.call(ms.nearfields, K, P, n_max=nm, **kw)
    rec.true("orders of cross sections", int(cs["n_max"]) == n_used)
    co, cs, an, nf = ({k: to_np(v) for k, v in o.items()} for o in (co, cs, an, nf))
    want = {"a_n": (n_used, Np, Nk), "b_n": (n_used, Np, Nk)}
    for k, s in want.items():
        rec.true(f"{k} shape", co[k].shape == s, f"{co[k].shape} != {s}")
    for k in ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs"):
        rec.true(f"{k} shape", cs[k].shape == (Np, Nk), f"{cs[k].shape}")
        s = cs[k + "_multipoles"].shape
        rec.true(f"{k}_multipoles shape", s == (2, n_used, Np, Nk), f"{s}")
    for k in ("S1", "S2", "i_per", "i_par", "i_unpol", "pol_degree"):
        rec.true(f"{k} shape", an[k].shape == (Np, Nk, Npos), f"{an[k].shape}")
    for k in FIELDS:
        rec.true(f"{k} shape", nf[k].shape == (Np, Nk, Npos, 3), f"{nf[k].shape}")
    if rec.viol:
        return
    for o, nme in ((cs, "cross sections"), (an, "angular")):
        rec.close(f"{nme} k0", np.atleast_1d(o["k0"]), k0, rtol=1e-12)
        rec.close(f"{nme} wavelength", np.atleast_1d(o["wavelength"]), 2 * PI / k0, rtol=1e-12)
    for p, k in entries:
        if True:
            one = dict(r_layers=t64(r[p]), eps_layers=tc(e[p, :, k]), eps_env=t64(env[k]), n_max=n_used, **bk(backend))
            k1 = K[k : k + 1]
            tag = f"[particle {p} wavelength {k}]"
            c1 = {q: to_np(v) for q, v in rec.call(ms.mie_coefficients, k1, **one).items()}
            for q in ("a_n", "b_n"):
                rec.close(f"{q} {tag}", co[q][:, p, k], c1[q][:, 0, 0], rtol=1e-9, atol=1e-13 * max(abs(c1["a_n"]).max(), abs(c1["b_n"]).max()) + (1e-28 if backend[0] == "pena" else 1e-13))
            s1 = {q: to_np(v) for q, v in rec.call(ms.cross_sections, k1, **one).items()}
            n_arr = 2 * np.arange(1, n_used + 1) + 1  # natural magnitude: sum of the coefficients without cancellation
            sc = 2 * PI / (k0[k] ** 2 * env[k]) * float(np.sum(n_arr * (abs(c1["a_n"]) + abs(c1["b_n"]))[:, 0, 0])) + 1e-14
            qc = sc / (PI * r[p, -1] ** 2)
            for q in ("ext", "sca", "abs"):
                rec.close(f"cs_{q} {tag}", cs["cs_" + q][p, k], s1["cs_" + q][0, 0], rtol=1e-9, atol=1e-12 * sc)
                rec.close(f"q_{q} {tag}", cs["q_" + q][p, k], s1["q_" + q][0, 0], rtol=1e-9, atol=1e-12 * qc)
                rec.close(f"cs_{q}_multipoles {tag}", cs[f"cs_{q}_multipoles"][:, :, p, k], s1[f"cs_{q}_multipoles"][:, :, 0, 0], rtol=1e-9, atol=1e-12 * sc)
                rec.close(f"q_{q}_multipoles {tag}", cs[f"q_{q}_multipoles"][:, :, p, k], s1[f"q_{q}_multipoles"][:, :, 0, 0], rtol=1e-9, atol=1e-12 * qc)
            g = np.broadcast_to(cs["cs_geo"].reshape(-1, Np, cs["cs_geo"].shape[-1])[0], (Np, Nk))[p, k]
            rec.close(f"cs_geo {tag}", g, PI * r[p, -1] ** 2, rtol=1e-12)
            groups = [list(range(Npos))] if probes is None else probes
            if probes is None and (p, k) in ((0, 0), (Np - 1, Nk - 1)) and Npos > 1:
                groups += [[t] for t in range(Npos)]
            for ts in groups:
                a1 = {q: to_np(v) for q, v in rec.call(ms.angular_scattering, k1, th[ts], **one).items()}
                for q in ("S1", "S2", "i_per", "i_par", "i_unpol"):
                    m = max(abs(a1["S1"]).max(), abs(a1["S2"]).max()) if q[0] == "S" else a1["i_unpol"].max()
                    rec.close(f"{q} {tag} angles {ts}", an[q][p, k, ts], a1[q][0, 0], rtol=1e-9, atol=1e-10 * m + (0.0 if backend[0] == "pena" else 1e-12))
                f1 = {q: to_np(v) for q, v in rec.call(ms.nearfields, k1, P[ts], **one).items()}
                for q in FIELDS:
                    ref = f1[q][0, 0]
                    rec.close(f"{q} {tag} positions {ts}", nf[q][p, k, ts], ref, rtol=1e-8, scale=fmax(ref), atol=1e-10)
