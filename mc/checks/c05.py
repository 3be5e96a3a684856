"""C05: near fields equal the exact solution inside, between and outside the layers."""
import numpy as np
import torch

from mc.world import BACKENDS, FIELDS, N, PI, Config, bk, directions, fmax, legacy_domain, ms, octants, t64, to_np, wiscombe

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "Every layer stack x size x radius pattern x host x order mode is probed on every radius class (origin, vanishing radius, middle of every layer, "
    "both sides of and exactly on every interface, near and far outside) in every direction class (eight octants, six poles, coordinate planes, "
    "next to the polar axis); all six fields are compared with the multi-precision solution, and for every incident amplitude with linearity."
)
BOUNDS = {
    "quick": "three closed-form solvers: L=1: 4 letters, L=2: 16 stacks x 2 patterns x 2 sizes; default solver: L=1: 11 letters x 7 sizes (0.1..120) x 2 hosts x 2 order modes; L=2: 36 x 3 sizes; L=3: 27 x 2 x 2 patterns; L=4: 16; L=5,6 words; 20 directions, distances from the centre to 400 radii; 4 amplitudes",
    "thorough": "closed-form: L=1: 13 x 5, L=2: 169 x 2 x 5; default: L=1: 13 x 10 x 3 x 3; L=2: 144 x 4 x 3; L=3: 125 x 3 x 3; L=4: 81 x 2; L=5..7 words",
}
ASSUMPTIONS = [
    "on an interface (within rounding) either one-sided limit is accepted",
    "inside strong absorbers the field is judged relative to the incident field where it is below 1e-2 of it",
    "at the origin itself the accepted error is 1e-5 (coordinates are regularised there)",
]


def gen(ch, tier):
    T = tier == "thorough"
    L = ch.pick("layers", [1, 2, 3, 4, 5, 6] + ([7] if T else []))
    orders = "wiscombe"
    host = 1.33
    pat = "even"
    b = BACKENDS[0]
    if L <= 2:
        b = ch.pick("backend", BACKENDS)
    if b[0] != "pena":
        # the closed-form solvers: same positions, same reference
        stack = [ch.pick("layer", list(N) if T else ["d15", "a", "m", "g"]) for _ in range(L)]
        x = ch.pick("size", [1.0, 5.0] + ([0.2, PI, 10.0] if T else []))
        pat = ch.pick("pattern", ["even"] if L == 1 else ["even", "thin_out"])
        host = {1.0: 1.33, 5.0: 1.0, 0.2: 1.0, PI: 1.33, 10.0: 2.0}[x]
        if not legacy_domain(Config(x, stack, pat, host)):
            ch.prune()
    elif L == 1:
        stack = [ch.pick("layer", list(N) if T else ["d15", "d40", "a", "m", "v", "w", "l", "s", "g", "z", "e"])]
        x = ch.pick("size", [1.0, 0.1, 0.5, PI, 6.0, 15.0, 120.0] + ([0.02, 2.0, 9.0, 30.0] if T else []))
        host = ch.pick("host", [1.0, 1.33] + ([2.0] if T else []))
        orders = ch.pick("orders", ["wiscombe", "auto"] + ([1] if T else [])) if x != 1.0 else ch.pick("orders", ["wiscombe", "auto", 1, 2])
        if x > 100 and (stack[0] not in ("d15", "v", "a") or orders != "wiscombe" and not T):
            ch.prune()
    elif L == 2:
        al = [k for k in N if k != "M"] if T else ["d15", "d40", "a", "m", "v", "e"]
        stack = [ch.pick("layer", al) for _ in range(2)]
        x = ch.pick("size", [1.0, 0.2, 5.0] + ([12.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out", "thin_in"]) if T else {1.0: "even", 0.2: "thin_out", 5.0: "thin_in"}[x]
        host = 1.0 if x == 5.0 else 1.33
        orders = "auto" if x == 0.2 else "wiscombe"
    elif L == 3:
        al = ["d15", "a", "m"] + (["d40", "v"] if T else [])
        stack = [ch.pick("layer", al) for _ in range(3)]
        x = ch.pick("size", [1.5, 5.0] + ([10.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_mid"] + (["thin_out"] if T else []))
        orders = "auto" if (x == 1.5 and pat == "even") else "wiscombe"
    elif L == 4:
        stack = [ch.pick("layer", ["d15", "m"] + (["a"] if T else [])) for _ in range(4)]
        x = ch.pick("size", [3.0] + ([8.0] if T else []))
    else:
        word = [ch.pick("layer", ["d40", "a"]) for _ in range(3)]
        stack = [word[i % 3] for i in range(L)]
        x = 4.0
        host = 1.0
    return dict(stack=stack, x=x, pattern=pat, host=host, orders=orders, backend=list(b))


def build_points(c):
    R = c.r[-1]
    lo = [0.0] + c.r[:-1]
    dirs = directions()
    pts, kind = [], []

    def add(rad, ds, k):
        for d in ds:
            pts.append(tuple(rad * q for q in d))
            kind.append(k)

    add(0.0, [(0.0, 0.0, 0.0)], ("origin", None))
    add(1e-7 * c.r[0], dirs[:3], ("origin", None))
    add(1e-3 * c.r[0], dirs[:2] + dirs[8:10], ("in", None))
    for l, (a, b) in enumerate(zip(lo, c.r)):
        add(0.5 * (a + b), dirs, ("in", None))
        add(b, [(0.0, 0.0, 1.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0)], ("interface", l))
        for s in (-1, 1):
            if (b - a) > 1e-6 * b:
                add(b * (1 + s * 1e-9), [dirs[0], dirs[7], dirs[9]], ("in", None))
    add(1.5 * R, dirs, ("in", None))
    add(7.0 * R, [dirs[0], dirs[5], dirs[9], dirs[8]], ("in", None))
    add(400.0 * R, [dirs[1], dirs[8], dirs[12]], ("in", None))
    return np.array(pts), kind


def run(cfg, rec):
    c = Config(cfg["x"], cfg["stack"], cfg["pattern"], cfg["host"])
    nm = {"auto": None, "wiscombe": wiscombe(cfg["x"])}.get(cfg["orders"], cfg["orders"])
    P, kind = build_points(c)
    legacy = cfg["backend"][0] != "pena"
    kw = dict(n_max=nm, **bk(cfg["backend"]), **c.kw())
    o = rec.call(ms.nearfields, c.kt(), t64(P), **kw)
    g = {k: to_np(o[k]) for k in FIELDS}
    for k in FIELDS:
        if g[k].shape != (1, 1, len(P), 3):
            rec.fail(f"{k} shape {g[k].shape}")
            return
        g[k] = g[k][0, 0]
    n_used = nm if nm is not None else int(rec.call(ms.mie_coefficients, c.kt(), **bk(cfg["backend"]), **c.kw())["n_max"])
    S = c.model(n_used)
    k = c.k0 * c.n_env
    inc = np.exp(1j * k * P[:, 2])
    Ei = np.zeros_like(P, dtype=complex)
    Hi = np.zeros_like(Ei)
    Ei[:, 0], Hi[:, 1] = inc, c.n_env * inc
    rr = np.sqrt((P**2).sum(1))
    rec.close("E_i", g["E_i"], Ei, rtol=1e-9, scale=fmax(Ei))
    rec.close("H_i", g["H_i"], Hi, rtol=1e-9, scale=fmax(Hi))
    idx = [i for i in range(len(P)) if kind[i][0] != "interface"]
    E, H = S.fields(P[idx])
    out = (rr[idx] > c.r[-1])[:, None]
    TOL = 1e-6 if legacy else 1e-8
    tol = np.array([1e-5 if kind[i][0] == "origin" else TOL for i in idx])[:, None]
    hs = c.n_env
    for name, ref, unit in (("E_s", E, 1.0), ("H_s", H, hs), ("E_t", E + out * Ei[idx], 1.0), ("H_t", H + out * Hi[idx], hs)):
        rec.close(name, g[name][idx] / tol, ref / tol, rtol=1.0, scale=np.maximum(fmax(ref), 1e-2 * unit))
    # exactly on an interface: one of the two one-sided limits
    for l in range(len(c.r)):
        ii = [i for i in range(len(P)) if kind[i] == ("interface", l)]
        lim = [S.fields(P[ii], scattered_outside=False, region=q) for q in (l, l + 1)]
        for j, i in enumerate(ii):
            best = None
            for q in (0, 1):
                e, h = lim[q][0][j], lim[q][1][j]
                is_out = l + q == len(c.r)
                es, hs_ = (e - Ei[i], h - Hi[i]) if is_out else (e, h)
                d = 0.0
                for got, ref, unit in ((g["E_t"][i], e, 1.0), (g["H_t"][i], h, hs), (g["E_s"][i], es, 1.0), (g["H_s"][i], hs_, hs)):
                    d = max(d, float(np.max(np.abs(got - ref)) / max(np.max(np.abs(ref)), 1e-2 * unit)))
                best = d if best is None else min(best, d)
            rec.close(f"field on interface {l}", best, 0.0, atol=TOL)
    if rec.viol:
        return
    # linearity in the incident amplitude (numbers and tensors)
    sub = t64(P[:: max(1, len(P) // 12)])
    base = rec.call(ms.nearfields, c.kt(), sub, **kw)
    for amp in (2.0, -0.3j, 1.5 - 0.7j, torch.tensor(0.4 + 2.0j, dtype=torch.complex128)):
        o = rec.call(ms.nearfields, c.kt(), sub, E_0=amp, **kw)
        a = complex(amp)
        for name in FIELDS:
            b = to_np(base[name])
            rec.close(f"E_0={a} {name}", o[name], a * b, rtol=1e-9, scale=abs(a) * fmax(b), atol=1e-12)
