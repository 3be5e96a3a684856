"""C03: cross sections obey their definitions and conserve energy."""
import numpy as np

from mc.world import N, PI, Config, bk, legacy_domain, ms, natural, t64, tc, to_np, wiscombe

LEVEL = "model_checking"
CHUNK = 4
RULE = (
    "Every layer stack x size x radius pattern x (possibly dispersive) host x backend x order mode is evaluated over a two-wavelength spectrum; "
    "totals, multipoles, efficiencies are compared with the defining sums over the multi-precision coefficients, and energy balance, "
    "passivity, unitarity are checked on every multipole."
)
BOUNDS = {
    "quick": "L=1: 11 letters x 10 sizes (0.05..1500) x 3 hosts x 3 backends x 2 order modes; L=2: 36 x 4 sizes x 2 patterns; L=3: 64 x 2 x 2; L=4,5: 2-letter words",
    "thorough": "L=1: 11 x 16 x 3 x 4 x 4; L=2: 121 x 6 x 4; L=3: 216 x 4 x 3; L=4..6: 3-letter words",
}
ASSUMPTIONS = ["reference coefficients as in C01; legacy backends judged within |Im(m k r)| <= 8 at explicit orders"]
LOSSLESS = {"d15", "d40", "v", "w", "l"}
GAIN = {"g"}
PASSIVE_ATOL = 1e-9


def gen(ch, tier):
    T = tier == "thorough"
    fam = ch.pick("layers", [1, 2, 3, 4, 5] + ([6] if T else []))
    host = ch.pick("host", ["1", "dispersive"] + (["1.33"] if fam == 1 or T else []))
    backend, orders = ("pena", "recurrence"), "auto"
    if fam == 1:
        stack = [ch.pick("layer", list(N))]
        x = ch.pick("size", [1.0, 0.05, 0.3, PI, 5.0, 8.0, 14.0, 40.0, 300.0, 1500.0] + ([0.01, 2.0, 2 * PI, 7.99, 25.0, 100.0] if T else []))
        pat = "even"
        orders = ch.pick("orders", ["auto", 1] + ([2, 40] if T else []))
        backend = ch.pick("backend", [("pena", "recurrence"), ("torch", "recurrence"), ("scipy", "recurrence")] + ([("torch", "ratios")] if T else []))
        if x > 20 and backend[0] != "pena" or x > 1000 and stack[0] not in ("d15", "v", "a") or x > 200 and orders == 1:
            ch.prune()
    elif fam == 2:
        al = list(N) if T else ["d15", "d40", "a", "m", "v", "g"]
        stack = [ch.pick("layer", al) for _ in range(2)]
        x = ch.pick("size", [1.0, 0.2, 4.0, 9.0] + ([PI, 30.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out"] + (["thin_in", "shell_film"] if T else []))
        if x == 1.0 and pat == "even":
            backend = ch.pick("backend", [("pena", "recurrence"), ("torch", "recurrence")])
    elif fam == 3:
        al = ["d15", "d40", "a", "m"] + (["v", "g"] if T else [])
        stack = [ch.pick("layer", al) for _ in range(3)]
        x = ch.pick("size", [1.0, 7.0] + ([PI, 20.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_in"] + (["thin_mid"] if T else []))
    else:
        al = ["d15", "m"] + (["a"] if T and fam < 6 else [])
        stack = [ch.pick("layer", al) for _ in range(fam)]
        x = ch.pick("size", [3.0] + ([12.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out"] if fam == 4 else ["even"])
    c = Config(x, stack, pat, 1.33)
    if backend[0] != "pena" and not legacy_domain(c, 6.0):
        ch.prune()
    if orders == "auto" and backend[0] != "pena":
        orders = "wiscombe"
    return dict(stack=stack, x=x, pattern=pat, host=host, backend=list(backend), orders=orders)


def run(cfg, rec):
    hosts = {"1": [1.0, 1.0], "1.33": [1.33, 1.33], "dispersive": [1.2, 1.5]}[cfg["host"]]
    xs = [cfg["x"], 0.8 * cfg["x"]]
    cs_ = [Config(x, cfg["stack"], cfg["pattern"], h) for x, h in zip(xs, hosts)]
    k0 = t64([c.k0 for c in cs_])
    env = t64(hosts[0] ** 2) if hosts[0] == hosts[1] else t64([h**2 for h in hosts])
    nm = {"auto": None, "wiscombe": wiscombe(cfg["x"])}.get(cfg["orders"], cfg["orders"])
    o = rec.call(ms.cross_sections, k0, r_layers=t64(cs_[0].r), eps_layers=tc(cs_[0].n) ** 2, eps_env=env, n_max=nm, **bk(cfg["backend"]))
    n_max = int(o["n_max"])
    rec.true("n_max", nm is None or n_max == nm, f"{n_max} != {nm}")
    R = cs_[0].r[-1]
    rec.close("wavelength", o["wavelength"], 2 * PI / to_np(k0), rtol=1e-12)
    rec.close("k0", o["k0"], to_np(k0), rtol=1e-12)
    rec.close("cs_geo", to_np(o["cs_geo"]).reshape(-1), np.full(to_np(o["cs_geo"]).size, PI * R**2), rtol=1e-12)
    geo = PI * R**2
    ncut = min(n_max, int(cfg["x"] + 6 * cfg["x"] ** (1 / 3) + 14))
    G = {k: to_np(v) for k, v in o.items() if k.startswith(("cs_", "q_"))}
    for k in ("ext", "sca", "abs"):
        if G["cs_" + k].shape != (1, 2) or G[f"cs_{k}_multipoles"].shape != (2, n_max, 1, 2):
            rec.fail(f"shape of {k}: {G['cs_' + k].shape} {G[f'cs_{k}_multipoles'].shape}")
            return
    stack = set(cfg["stack"])
    lossless = stack <= LOSSLESS
    passive = not (stack & GAIN)
    for i, c in enumerate(cs_):
        S = c.model(ncut)
        ext, sca = S.cross_sections()
        nat = natural(S, xs[i])["q"] * geo
        mp = {"ext": ext, "sca": sca, "abs": ext - sca}
        # natural magnitude of each multipole
        n = np.arange(1, ncut + 1)
        lim = 2 * PI / (c.k0 * c.n_env) ** 2 * (2 * n + 1)
        for k, ref in mp.items():
            got = G[f"cs_{k}_multipoles"][:, :, 0, i]
            rec.close(f"cs_{k}_multipoles", got[:, :ncut], ref, rtol=1e-7, scale=lim * np.maximum(S.scale, 1e-300) + np.abs(ref), atol=1e-30)
            rec.close(f"cs_{k}_multipoles beyond", got[:, ncut:], np.zeros((2, n_max - ncut)), atol=1e-10 * nat)
            rec.close(f"cs_{k}", G["cs_" + k][0, i], ref.sum(), rtol=1e-8, atol=1e-8 * nat)
            rec.close(f"sum of cs_{k}_multipoles", got.sum(), G["cs_" + k][0, i], rtol=1e-10, atol=1e-10 * nat)
            rec.close(f"q_{k}", G["q_" + k][0, i], G["cs_" + k][0, i] / geo, rtol=1e-12)
            rec.close(f"q_{k}_multipoles", G[f"q_{k}_multipoles"][:, :, 0, i], got / geo, rtol=1e-12)
        e, s, a = (G["cs_" + k][0, i] for k in ("ext", "sca", "abs"))
        rec.close("ext = sca + abs", s + a, e, rtol=1e-10, atol=1e-10 * nat)
        m = {k: G[f"cs_{k}_multipoles"][:, :, 0, i] for k in mp}
        rec.close("multipole ext = sca + abs", m["sca"] + m["abs"], m["ext"], rtol=1e-10, atol=1e-10 * nat)
        full = 2 * PI / (c.k0 * c.n_env) ** 2 * (2 * np.arange(1, n_max + 1) + 1)
        rec.true("scattering not negative", (m["sca"] >= 0).all())
        if lossless:
            rec.close("lossless absorption", m["abs"] / full, np.zeros_like(m["abs"]), atol=1e-9)
            rec.close("lossless total absorption", a, 0.0, atol=1e-9 * nat)
        if passive:
            tol = 1e-9 * full
            rec.true("passive multipole absorption", (m["abs"] >= -tol).all(), str(m["abs"].min()))
            rec.true("unitarity of scattering", (m["sca"] <= full + tol).all())
            rec.true("unitarity of extinction", (m["ext"] <= full + tol).all() and (m["ext"] >= -tol).all())
            rec.true("unitarity of absorption", (m["abs"] <= full / 4 + tol).all())
