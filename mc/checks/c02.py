"""C02: every backend / Bessel algorithm gives the same answer; internal coefficients solve the boundary problem."""
import numpy as np

from mc.world import BACKENDS, N, PI, Config, bk, directions, fmax, legacy_domain, ms, natural, octants, t64, to_np, wiscombe

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "Every homogeneous and core-shell stack of the alphabet is combined with every size, radius pattern, host and order, and every "
    "backend x Bessel algorithm is run on it: coefficients (external and internal) are compared with the multi-precision boundary-value "
    "solution, cross sections, amplitudes and fields with those of the default backend at the same order."
)
BOUNDS = {
    "quick": "L=1: 13 letters x 11 sizes x 2 hosts x 3 orders; L=2: 49 stacks x 5 sizes x 2-3 patterns, host alternating; 3 legacy backends each; |Im(m k r)| <= 8",
    "thorough": "L=1: 11 x 17 x 3 x 4; L=2: 121 x 8 x 4 x 2 hosts",
}
ASSUMPTIONS = [
    "the closed-form core-shell formulas are unstable for |Im(m k r)| > 8 and are not judged there (DESIGN.md)",
    "the legacy backends are judged at explicit orders not above Wiscombe's",
]


def gen(ch, tier):
    T = tier == "thorough"
    fam = ch.pick("layers", ["homogeneous", "coreshell"])
    if fam == "homogeneous":
        stack = [ch.pick("layer", list(N))]
        x = ch.pick("size", [1.0, 0.1, 0.5, PI, 4.4934, 7.5, 12.0, 20.0, 1e-2, 1e-3] + ([1e-4, 0.02, 0.3, 2.0, 2 * PI, 3 * PI, 9.0, 30.0, 50.0] if T else [2 * PI]))
        pat = "even"
        host = ch.pick("host", [1.0, 1.33] + ([2.0] if T else []))
        order = ch.pick("order", ["full", 1, 2] + ([4] if T else []))
    else:
        al = list(N) if T else ["d15", "d40", "a", "m", "v", "w", "g"]
        stack = [ch.pick("layer", al) for _ in range(2)]
        x = ch.pick("size", [1.0, 0.2, 5.0, 3 * PI, 0.01] + ([0.05, 2.5, 2 * PI, 20.0, 1e-3] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out"] + (["thin_in"] if T or x <= 0.2 else []) + (["thin_mid", "shell_film"] if T else []))
        host = ch.pick("host", [1.0, 1.33]) if T else {1.0: 1.33, 0.2: 1.0, 5.0: 1.33, 3 * PI: 1.0, 0.01: 1.33}[x]
        order = "full" if x != 5.0 else ch.pick("order", ["full", 1])
    c = Config(x, stack, pat, host)
    if not legacy_domain(c):
        ch.prune()
    return dict(stack=stack, x=x, pattern=pat, host=host, order=order)


THETA = np.array([0.0, 0.3, PI / 2, 2.0, PI, 4.0])


def run(cfg, rec):
    c = Config(cfg["x"], cfg["stack"], cfg["pattern"], cfg["host"])
    nm = wiscombe(cfg["x"]) if cfg["order"] == "full" else cfg["order"]
    S = c.model(nm)
    L = len(c.n)
    # model of the internal coefficients (Bohren-Huffman 8.1: shell f psi - v chi; xi = psi - i chi)
    AE, BE = S.coef["E"]
    AM, BM = S.coef["M"]
    cz = lambda v: np.array([complex(q) for q in v[1:]])  # noqa: E731
    ref = dict(a_n=S.a, b_n=S.b, c_n=cz(AM[0]), d_n=cz(AE[0]))
    if L == 2:
        ref.update(f_n=cz(AM[1]) + cz(BM[1]), g_n=cz(AE[1]) + cz(BE[1]), v_n=1j * cz(BM[1]), w_n=1j * cz(BE[1]))
    R = c.r[-1]
    nat = natural(S, cfg["x"])
    pts = [tuple(q * 1.3 * R for q in d) for d in directions()] + octants(0.3 * c.r[0]) + octants(c.r[0] + 0.5 * (R - c.r[0]) if L == 2 else 0.7 * R)
    P = t64(pts)
    th = t64(THETA)
    base_cs = rec.call(ms.cross_sections, c.kt(), n_max=nm, **c.kw())
    base_an = rec.call(ms.angular_scattering, c.kt(), th, n_max=nm, **c.kw())
    base_nf = rec.call(ms.nearfields, c.kt(), P, n_max=nm, **c.kw())
    for b in BACKENDS[1:]:
        tag = "/".join(b)
        o = rec.call(ms.mie_coefficients, c.kt(), n_max=nm, return_internal=True, **bk(b), **c.kw())
        for key, val in ref.items():
            got = to_np(o[key])
            if got.shape != (nm, 1, 1):
                rec.fail(f"{tag} {key} shape {got.shape}")
                continue
            if key in "a_n b_n":
                rec.close(f"{tag} {key}", got[:, 0, 0], val, rtol=1e-6, scale=np.maximum(S.scale, np.abs(val)), atol=1e-60)
            else:
                rec.close(f"{tag} {key}", got[:, 0, 0], val, rtol=1e-6, atol=1e-9)
        cs = rec.call(ms.cross_sections, c.kt(), n_max=nm, **bk(b), **c.kw())
        for k in base_cs:
            if k.startswith(("cs_", "q_")):
                s = nat["q"] * (1.0 if k[0] == "q" else PI * R**2)
                rec.close(f"{tag} {k}", cs[k], base_cs[k], rtol=1e-7, atol=1e-7 * s)
        an = rec.call(ms.angular_scattering, c.kt(), th, n_max=nm, **bk(b), **c.kw())
        s = nat["s"]
        for k in ("S1", "S2"):
            rec.close(f"{tag} {k}", an[k], base_an[k], rtol=1e-7, atol=1e-7 * s)
        nf = rec.call(ms.nearfields, c.kt(), P, n_max=nm, **bk(b), **c.kw())
        for k in base_nf:
            r = to_np(base_nf[k])
            rec.close(f"{tag} {k}", nf[k], r, rtol=1e-6, scale=fmax(r), atol=1e-9)
