"""C04: angular scattering is the far field of the solution at every angle."""
import numpy as np

from mc.world import BACKENDS, N, PI, Config, bk, legacy_domain, ms, natural, t64, tc, to_np, wiscombe

LEVEL = "model_checking"
CHUNK = 3
RULE = (
    "Every particle x size x host x order mode is combined with every angle set (poles, equator, single angles, negative angles, beyond pi and 2 pi, "
    "unordered, duplicated, Gauss-Legendre nodes); amplitudes are compared with the multi-precision far field, intensities and polarisation with "
    "their definitions, and the optical theorem, the integral over the sphere and the sphere symmetries are checked against the cross sections."
)
BOUNDS = {
    "quick": "L=1: 11 letters x 8 sizes (0.05..250) x 2 hosts x 3 order modes; L=2: 25 x 3 sizes x 2 hosts; L=3: 27 x 2; L=4 words; 8 angle sets, 4 backends",
    "thorough": "L=1: 11 x 14 x 3 x 4; L=2: 121 x 5 x 2; L=3: 125 x 3; L=4,5 words; 8 angle sets, 4 backends",
}
ASSUMPTIONS = ["reference coefficients as in C01; legacy backends judged within |Im(m k r)| <= 6"]
DUP = [1.0, 0.25, 1.0, PI, 0.0, 0.25]
SETS = {
    "poles": [0.0, PI],
    "equator": [PI / 2, 3 * PI / 2],
    "generic": [0.1, 0.7, 1.3, 1.9, 2.5, 3.0],
    "unordered": DUP,
    "beyond": [PI + 0.4, 2 * PI, 2 * PI + 0.4, 3 * PI, -0.4, -PI],
    "near_poles": [1e-8, 1e-4, PI - 1e-8, PI - 1e-4],
    "single": [0.9],
    "special": [PI / 4, PI / 3, PI / 6, 3 * PI / 4],
}


def gen(ch, tier):
    T = tier == "thorough"
    fam = ch.pick("layers", [1, 2, 3, 4] + ([5] if T else []))
    host = ch.pick("host", [1.0, 1.33] + ([2.0] if T and fam == 1 else [])) if fam < 3 else 1.33
    backend, orders = ("pena", "recurrence"), "auto"
    if fam == 1:
        stack = [ch.pick("layer", list(N))]
        x = ch.pick("size", [1.0, 0.05, 0.4, PI, 6.0, 12.0, 40.0, 250.0] + ([0.01, 2.0, 8.0, 2 * PI, 25.0, 100.0] if T else []))
        orders = ch.pick("orders", ["auto", 1, 2] + ([5] if T else []))
        pat = "even"
        if x > 200 and (orders != "auto" or stack[0] not in ("d15", "m", "v", "a") and not T):
            ch.prune()
        backend = ch.pick("backend", BACKENDS if x in (1.0, 6.0) else BACKENDS[:1])
    elif fam == 2:
        al = list(N) if T else ["d15", "d40", "a", "m", "v"]
        stack = [ch.pick("layer", al) for _ in range(2)]
        x = ch.pick("size", [1.0, 5.0, 0.2] + ([PI, 20.0] if T else []))
        pat = "thin_out" if x == 5.0 else "even"
        backend = ch.pick("backend", BACKENDS if x == 1.0 else BACKENDS[:1])
    elif fam == 3:
        al = ["d15", "a", "m"] + (["d40", "v"] if T else [])
        stack = [ch.pick("layer", al) for _ in range(3)]
        x = ch.pick("size", [2.0, 9.0] + ([0.3] if T else []))
        pat = "even"
    else:
        stack = [ch.pick("layer", ["d15", "m"]) for _ in range(fam)]
        x, pat = 4.0, "thin_in"
    if backend[0] != "pena":
        if not legacy_domain(Config(x, stack, pat, host), 6.0):
            ch.prune()
        if orders == "auto":
            orders = "wiscombe"
    return dict(stack=stack, x=x, pattern=pat, host=host, orders=orders, backend=list(backend))


def run(cfg, rec):
    c = Config(cfg["x"], cfg["stack"], cfg["pattern"], cfg["host"])
    nm = {"auto": None, "wiscombe": wiscombe(cfg["x"])}.get(cfg["orders"], cfg["orders"])
    kw = dict(n_max=nm, **bk(cfg["backend"]), **c.kw())
    ncut = int(cfg["x"] + 6 * cfg["x"] ** (1 / 3) + 14)
    if nm is not None:
        ncut = min(ncut, nm)
    S = c.model(ncut)
    nat = natural(S, cfg["x"])["s"]
    amp = {}
    for name, th in SETS.items():
        th = np.array(th)
        o = rec.call(ms.angular_scattering, c.kt(), t64(th), **kw)
        s1, s2 = S.s12(th)
        tol = dict(rtol=1e-9, atol=1e-9 * nat)
        rec.close(f"{name} S1", o["S1"], s1[None, None], **tol)
        rec.close(f"{name} S2", o["S2"], s2[None, None], **tol)
        if rec.viol:
            return
        g1, g2 = to_np(o["S1"]), to_np(o["S2"])
        amp[name] = (g1[0, 0], g2[0, 0])
        rec.close(f"{name} theta", np.atleast_1d(to_np(o["theta"])), th, rtol=1e-13)
        i1, i2 = np.abs(g1) ** 2, np.abs(g2) ** 2
        t2 = dict(rtol=1e-11, atol=1e-300)
        rec.close(f"{name} i_per", o["i_per"], i1, **t2)
        rec.close(f"{name} i_par", o["i_par"], i2, **t2)
        rec.close(f"{name} i_unpol", o["i_unpol"], (i1 + i2) / 2, **t2)
        if nat**2 > 0 and np.min(i1 + i2) > 1e-20 * nat**2:
            rec.close(f"{name} pol_degree", o["pol_degree"], (i1 - i2) / (i1 + i2), rtol=1e-9, atol=1e-10)
            rec.true(f"{name} |pol_degree| <= 1", (np.abs(to_np(o["pol_degree"])) <= 1 + 1e-12).all())
    # sphere symmetries
    z = 1e-9 * nat
    s1, s2 = amp["poles"]
    rec.close("forward S1 = S2", s1[0], s2[0], rtol=1e-9, atol=z)
    rec.close("backward S1 = -S2", s1[1], -s2[1], rtol=1e-9, atol=z)
    b1, b2 = amp["beyond"]
    for b in (b1, b2):
        rec.close("2 pi periodicity", b[1], (s1 if b is b1 else s2)[0], rtol=1e-9, atol=z)
        rec.close("S(-t) = S(2 pi + t)", b[4], b[2], rtol=1e-9, atol=z)
    u = amp["unordered"][0]
    rec.close("repeated angles", [u[0], u[1]], [u[2], u[5]], rtol=1e-13, atol=1e-13 * nat)
    # optical theorem and integral over the sphere
    cs = rec.call(ms.cross_sections, c.kt(), **kw)
    k = c.k0 * c.n_env
    area = PI * c.r[-1] ** 2
    qs = natural(S, cfg["x"])["q"] * area
    rec.close("optical theorem", 4 * PI / k**2 * s1[0].real, to_np(cs["cs_ext"])[0, 0], rtol=1e-9, atol=1e-9 * qs)
    n_all = int(cs["n_max"])
    mu, w = np.polynomial.legendre.leggauss(min(n_all, ncut) + 6)
    o = rec.call(ms.angular_scattering, c.kt(), t64(np.arccos(mu)), **kw)
    tot = 2 * PI / k**2 * np.sum(w * to_np(o["i_unpol"])[0, 0])
    rec.close("integral of i_unpol = cs_sca", tot, to_np(cs["cs_sca"])[0, 0], rtol=1e-9, atol=1e-9 * qs)
    # magnitude of the radiation pressure asymmetry is bounded
    g = np.sum(w * mu * to_np(o["i_unpol"])[0, 0]) / max(np.sum(w * to_np(o["i_unpol"])[0, 0]), 1e-300)
    rec.true("asymmetry in [-1, 1]", abs(g) <= 1 + 1e-9)
