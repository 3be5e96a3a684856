"""C10: automatic truncation is converged for every particle of a batch, explicit truncation is exact."""
import itertools

import numpy as np
import torch

from mc.world import BACKENDS, C, FIELDS, PI, Config, N, bk, fmax, legacy_domain, ms, octants, t64, tc, to_np

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "prefix: for every stack, size and backend every order 1..auto+12 is requested, the coefficients, sums, amplitudes and fields are compared with the "
    "partial sums of the longest series.  auto: every permutation of particles of different size, contrast and layering and of wavelengths in one batch, "
    "and both sides of every threshold of the criteria, is evaluated with automatic truncation and with 1, 5 and 20 more orders.  "
    "extreme: every order x size x stack, all results finite."
)
BOUNDS = {
    "quick": "prefix: 4 backends x 14 stacks x 3 sizes; auto: all permutations of 3 particles x 2 wavelengths over 5 size sets x 4 backends, 22 sizes around the thresholds x 4 stacks; extreme: 10 orders x 9 sizes x 6 stacks",
    "thorough": "more sizes, 4-particle permutations, all stacks",
}
ASSUMPTIONS = [
    "the fields of the torch and scipy backends use Wiscombe's criterion of the outer size parameter: converged to 1e-4 of the incident field next to the surface",
    "finite results for any order are required from the default solver (the closed forms of the other two overflow far above the size parameter)",
]

STACKS = {1: ["d15", "d40", "a", "m", "v", "z"], 2: ["d15+m", "m+d40", "a+d15", "d40+v", "v+d40"], 3: ["d15+m+d40", "d40+v+d15", "a+d40+m"]}
SETS = {"spread": [0.1, 2.0, 12.0], "close": [7.9, 8.1, 3.0], "tiny": [1e-3, 0.5, 1e-2], "large": [40.0, 1.0, 9.0], "same": [2.0, 2.0, 2.01], "four": [0.2, 25.0, 5.0, 1.0]}
EDGE = [0.01, 1.0, 3.0, 5.0, 6.0, 7.0, 7.5, 7.9, 7.99, 8.0, 8.01, 8.1, 8.5, 9.0, 12.0, 20.0, 50.0, 120.0, 300.0, 1000.0, 4199.0, 4201.0]


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["prefix", "auto", "edge", "extreme"])
    if part == "prefix":
        L = ch.pick("layers", [1, 2, 3])
        b = ch.pick("backend", BACKENDS if L <= 2 else BACKENDS[:1])
        st = ch.pick("stack", STACKS[L])
        x = ch.pick("size", [1.0, 0.1, 5.0] + ([0.01, 10.0, 20.0] if T else []))
        if b[0] != "pena" and not legacy_domain(Config(x, st.split("+"))):
            ch.prune()
        return dict(part=part, stack=st, x=x, backend=list(b))
    if part == "auto":
        b = ch.pick("backend", BACKENDS)
        s = ch.pick("set", list(SETS) if T else [k for k in SETS if k != "four"])
        perm = ch.pick("order of particles", list(itertools.permutations(range(len(SETS[s])))))
        L = ch.pick("layers", [1, 2] if b[0] != "pena" else [1, 2, 3])
        return dict(part=part, backend=list(b), set=s, perm=list(perm), L=L, wl=ch.pick("order of wavelengths", [[0, 1], [1, 0]] if T else ([[0, 1], [1, 0]] if L == 2 else [[0, 1]])))
    if part == "edge":
        x = ch.pick("size", EDGE + ([15.0, 30.0, 80.0, 2000.0, 5000.0] if T else []))
        b = ch.pick("backend", BACKENDS if x <= 60 else BACKENDS[:1])
        st = ch.pick("stack", ["d15", "m", "d40+v", "v+a+d15"] if x < 2000 else ["d15", "m"])
        if b[0] != "pena" and (st.count("+") > 1 or not legacy_domain(Config(x, st.split("+")))):
            ch.prune()
        return dict(part=part, x=x, stack=st, backend=list(b))
    n = ch.pick("order", [1, 2, 3, 7, 20, 60, 150, 400, 1000, 2500])
    x = ch.pick("size", [1.0, 1e-6, 1e-4, 1e-2, 0.1, 10.0, 100.0, 1000.0, 5000.0])
    st = ch.pick("stack", ["d15", "m", "a+d40+m", "d40", "z", "v+d15"])
    if n >= 1000 and (st not in ("d15", "m") or not T and x not in (1e-4, 1.0, 100.0)):
        ch.prune()
    return dict(part=part, n=n, x=x, stack=st)


def config(cfg):
    return Config(cfg["x"], cfg["stack"].split("+"), "even", 1.33)


def finite(v):
    v = v.detach()
    return bool(torch.isfinite(torch.view_as_real(v) if v.is_complex() else v).all())


def run(cfg, rec):
    return globals()["run_" + cfg["part"]](cfg, rec)


def positions(c):
    R = c.r[-1]
    return np.array([octants(0.5 * c.r[0])[0], octants(0.97 * R)[3], octants(1.02 * R)[5], octants(1.6 * R)[6]])


def run_prefix(cfg, rec):
    c = config(cfg)
    kw = dict(**c.kw(), **bk(cfg["backend"]))
    K, P, th = c.kt(), t64(positions(c)), t64([0.0, 0.8, 2.2, PI])
    auto = rec.call(ms.mie_coefficients, K, **kw)
    n_auto = int(auto["n_max"])
    top = n_auto + 12 if cfg["backend"][0] == "pena" else n_auto + 3
    full = rec.call(ms.mie_coefficients, K, n_max=top, **kw)
    A, B = to_np(full["a_n"])[:, 0, 0], to_np(full["b_n"])[:, 0, 0]
    cs = rec.call(ms.cross_sections, K, n_max=top, **kw)
    MP = {q: to_np(cs[f"cs_{q}_multipoles"])[:, :, 0, 0] for q in ("ext", "sca", "abs")}
    ang = {}
    nf = {}
    legacy = cfg["backend"][0] != "pena"
    unit = 2 * PI / (c.k0 * c.n_env) ** 2 * 3 * max(np.abs(A).max(), np.abs(B).max())
    for n in list(range(1, top + 1)):
        o = rec.call(ms.mie_coefficients, K, n_max=n, **kw)
        rec.true("orders", int(o["n_max"]) == n and tuple(o["a_n"].shape) == (n, 1, 1) == tuple(o["b_n"].shape) and to_np(o["n"]).tolist() == list(range(1, n + 1)), f"asked for {n}, got {o['a_n'].shape[0]}")
        if rec.viol:
            return
        for q, ref in (("a_n", A), ("b_n", B)):
            rec.close(f"{q} of {n} orders", to_np(o[q])[:, 0, 0], ref[:n], rtol=1e-8, atol=1e-12 if legacy else 1e-13 * min(1, c.k0 * c.r[-1] * c.n_env) ** 3)
        o = rec.call(ms.cross_sections, K, n_max=n, **kw)
        for q in ("ext", "sca", "abs"):
            rec.close(f"cs_{q} of {n} orders", to_np(o["cs_" + q])[0, 0], MP[q][:, :n].sum(), rtol=1e-9, atol=1e-10 * unit)
            rec.true("number of multipoles", o[f"cs_{q}_multipoles"].shape[1] == n)
        o = rec.call(ms.angular_scattering, K, th, n_max=n, **kw)
        ang[n] = np.stack([to_np(o["S1"])[0, 0], to_np(o["S2"])[0, 0]])
        # order by order: difference of successive results is that order's contribution
        if n > 1:
            d = ang[n] - ang[n - 1]
            pi_n, tau_n = pitau(n, np.cos(to_np(th)))
            f = (2 * n + 1) / (n * (n + 1))
            ref = np.stack([f * (A[n - 1] * pi_n + B[n - 1] * tau_n), f * (A[n - 1] * tau_n + B[n - 1] * pi_n)])
            rec.close(f"amplitudes of order {n}", d, ref, rtol=1e-8, atol=1e-11 * np.abs(ang[n]).max())
        if n in (1, 2, 3, n_auto, top):
            o = rec.call(ms.nearfields, K, P, n_max=n, **kw)
            nf[n] = {f: to_np(o[f])[0, 0] for f in FIELDS}
    # fields against the exact partial sums
    for n in nf:
        if n > 3 and cfg["x"] > 1:
            continue
        S = c.model(n)
        E, H = S.fields(positions(c))
        for f, ref in (("E_s", E), ("H_s", H)):
            rec.close(f"{f} of {n} orders", nf[n][f], ref, rtol=1e-6 if legacy else 1e-8, scale=np.maximum(fmax(ref), 1e-2))
    # the automatic result is the explicit one of the automatic order
    o = rec.call(ms.nearfields, K, P, **kw)
    for f in FIELDS:
        rec.close(f"{f} automatic", to_np(o[f])[0, 0], nf[n_auto][f], rtol=1e-9, scale=np.maximum(fmax(nf[n_auto][f]), 1e-2))
    o = rec.call(ms.angular_scattering, K, th, **kw)
    rec.close("S1 automatic", to_np(o["S1"])[0, 0], ang[n_auto][0], rtol=1e-9, atol=1e-12 * np.abs(ang[n_auto]).max())
    o = rec.call(ms.cross_sections, K, **kw)
    rec.close("cs_ext automatic", to_np(o["cs_ext"])[0, 0], MP["ext"][:, :n_auto].sum(), rtol=1e-9, atol=1e-10 * unit)


def pitau(n, mu):
    """angular functions of order n by their defining recurrence"""
    p0, p1 = np.zeros_like(mu), np.ones_like(mu)
    for k in range(2, n + 1):
        p0, p1 = p1, (2 * k - 1) / (k - 1) * mu * p1 - k / (k - 1) * p0
    return p1, n * mu * p1 - (n + 1) * p0


TOL = {"cs": 1e-6, "S": 1e-5}


def converged(rec, K, kw, backend, P, natural, near_ok=True):
    """every observable with the automatic order equals the one with more orders"""
    th = t64([0.0, 0.5, 2.0, PI])
    n0 = int(rec.call(ms.mie_coefficients, K, **kw)["n_max"])
    pena = backend[0] == "pena"
    for extra in (1, 5, 20) if pena else (1, 4):
        a, b = rec.call(ms.cross_sections, K, **kw), rec.call(ms.cross_sections, K, n_max=n0 + extra, **kw)
        ref = np.maximum(np.abs(to_np(b["cs_ext"])), to_np(b["cs_sca"])) + 1e-3 * natural
        for q in ("ext", "sca", "abs"):
            rec.close(f"cs_{q}, {extra} more orders", a["cs_" + q], b["cs_" + q], rtol=1e-9 if pena else TOL["cs"], scale=ref)
        a, b = rec.call(ms.angular_scattering, K, th, **kw), rec.call(ms.angular_scattering, K, th, n_max=n0 + extra, **kw)
        top = np.abs(to_np(b["S1"])).max(-1, keepdims=True) * np.ones(4)
        for q in ("S1", "S2"):
            rec.close(f"{q}, {extra} more orders", a[q], b[q], rtol=1e-8 if pena else TOL["S"], scale=top)
        if near_ok:
            a, b = rec.call(ms.nearfields, K, P, **kw), rec.call(ms.nearfields, K, P, n_max=n0 + extra, **kw)
            for f in FIELDS:
                ref = to_np(b[f])
                rec.close(f"{f}, {extra} more orders", a[f], ref, rtol=1e-6 if pena else 1e-3, scale=np.maximum(fmax(ref), 1.0))
    return n0


def run_auto(cfg, rec):
    xs = [SETS[cfg["set"]][i] for i in cfg["perm"]]
    L = cfg["L"]
    lam = np.array([500.0, 650.0])[cfg["wl"]]
    host = np.array([1.0, 1.4])[cfg["wl"]]
    K = t64(2 * PI / lam)
    frac = [(l + 1) / L for l in range(L)]
    rad = [[x * 500.0 / (2 * PI) * f for f in frac] for x in xs]
    eps = [2.25, 9.0 + 0.1j, 1.7][:L]
    kw = dict(r_layers=t64(rad), eps_layers=tc(eps), eps_env=t64(host**2), **bk(cfg["backend"]))
    P = t64([[3.0, 4.0, -5.0], [100.0, -60.0, 70.0], [600.0, 500.0, -400.0]])
    nat = np.array([[min(1.0, 2 * PI / l * h * r[-1]) ** 4 * PI * r[-1] ** 2 for l, h in zip(lam, host)] for r in rad])
    n0 = converged(rec, K, kw, cfg["backend"], P, nat, near_ok=cfg["backend"][0] == "pena")
    # the batch needs at least the orders of each of its members
    for r in rad:
        for i in range(2):
            n1 = int(rec.call(ms.mie_coefficients, K[i : i + 1], **{**kw, "r_layers": t64(r), "eps_env": t64(host[i] ** 2)})["n_max"])
            rec.true("order of the batch", n0 >= n1, f"{n0} < {n1} of a member alone")


def run_edge(cfg, rec):
    c = config(cfg)
    kw = dict(**c.kw(), **bk(cfg["backend"]))
    x = cfg["x"]
    P = t64(positions(c))
    nat = min(1.0, x) ** 4 * PI * c.r[-1] ** 2
    if x > 100:  # two evaluations suffice for the large ones
        n0 = int(rec.call(ms.mie_coefficients, c.kt(), n_max=None, **kw)["n_max"])
        a, b = rec.call(ms.cross_sections, c.kt(), **kw), rec.call(ms.cross_sections, c.kt(), n_max=n0 + 15, **kw)
        rec.true("orders", int(a["n_max"]) == n0)
        for q in ("ext", "sca", "abs"):
            rec.close(f"cs_{q}", a["cs_" + q], b["cs_" + q], rtol=1e-9, scale=to_np(b["cs_ext"]))
    else:
        n0 = converged(rec, c.kt(), kw, cfg["backend"], P, nat, near_ok=x <= 50)
    rec.true("finite order", 1 <= n0 <= 4 * x + 60, str(n0))


def run_extreme(cfg, rec):
    c = config(cfg)
    n = cfg["n"]
    kw = dict(n_max=n, **c.kw())
    o = rec.call(ms.mie_coefficients, c.kt(), **kw)
    rec.true("orders", o["a_n"].shape[0] == n == o["b_n"].shape[0])
    for q in ("a_n", "b_n"):
        rec.true(f"{q} finite", finite(o[q]))
        rec.true(f"{q} bounded", bool((o[q].abs() <= 1 + 1e-9).all()), f"max {float(o[q].abs().max())}")
    o = rec.call(ms.cross_sections, c.kt(), **kw)
    for q, v in o.items():
        if torch.is_tensor(v):
            rec.true(f"{q} finite", finite(v))
    o = rec.call(ms.angular_scattering, c.kt(), t64([0.0, 0.01, 1.0, PI / 2, 3.0, PI]), **kw)
    for q, v in o.items():
        if torch.is_tensor(v) and q != "pol_degree":
            rec.true(f"{q} finite", finite(v))
    if n <= 150 and cfg["x"] <= 100 and not (n > 60 and cfg["x"] == 100):
        P = positions(c).tolist() + [[0.0, 0.0, 0.0], [0.0, 0.0, 1.1 * c.r[-1]], [50 * c.r[-1], 0.0, 0.0]]
        o = rec.call(ms.nearfields, c.kt(), t64(P), **kw)
        for q, v in o.items():
            rec.true(f"{q} finite", finite(v))
