"""C13: special functions against multi-precision definitions."""
import functools
import itertools
import math

import mpmath as mp
import numpy as np
import torch

from mc.world import C, F, PI, laid, pmd, t64, tc, to_np

s = pmd.special
LEVEL = "model_checking"
CHUNK = 4
RULE = (
    "values: every implementation x phase of the argument x highest order x layout of the arguments, all moduli of the alphabet (zeros of j_0, j_1, cos included) in one batch and one by one; "
    "derivative: automatic first and second derivatives of every function at every argument and order; ratios: logarithmic derivatives and the interface ratio Q for every pair of arguments; "
    "angular: pi and tau (with derivatives) at every angle incl. poles; vsh: all four harmonics, every kernel, octant and axis, compared with their definition and with curl relations."
)
BOUNDS = {
    "quick": "17 implementations x 8 phases x 5 orders x 8 layouts (shapes, strided, transposed, expanded, lazily conjugated or negated) x 22 moduli in [0, 120]",
    "thorough": "12 phases x 9 orders x 34 moduli in [0, 400]",
}
ASSUMPTIONS = [
    "errors are measured against the natural magnitude |f_n| + |f_n'| of the functions a formula adds (h = j + i y cancels in the upper half plane)",
    "the stable range is where y_n does not overflow and, for the sums h = j + iy and the closed forms, |Im z| <= 30; for the torch-native y_n (upward recurrence) |Im z| <= 8",
    "the unfinished functions Ql_torch, psi_torch_logdir, xi_torch_logdir (no return value) are not part of the property",
]

MODULI = [1.0, 0.3, 2.0, PI / 2, PI, 4.493409457909064, 5.0, 5.763459196894550, 2 * PI, 7.5, 10.0, 10 * PI, 20.0, 0.1, 0.01, 1e-3, 1e-6, 30.0, 50.0, 120.0, 1e-9, 0.0]
MODULI_T = [1e-4, 0.05, 0.7, 1.5, 3.0, 3.5, 6.0, 9.4, 14.0, 25.0, 80.0, 400.0]
PHASES = [0.0, 0.5, -0.5, 1e-6, 0.05, 1.2, PI / 2, 2.6]
PHASES_T = [-1e-3, PI, -PI / 2, 3.1]


@functools.lru_cache(maxsize=4000)
def table(z, n):
    """j_0..j_{n+2}, y_0..y_{n+2} at complex z, as mpmath numbers"""
    mp.mp.dps = 60
    z = mp.mpc(z.real, z.imag)
    N = n + 2
    if z == 0:
        return [mp.mpc(1)] + [mp.mpc(0)] * N, [mp.mpc("nan")] * (N + 1)
    with mp.workdps(60 + int(0.9 * abs(complex(z)))):
        y = [-mp.cos(z) / z]
        y.append(y[0] / z - mp.sin(z) / z)
        for k in range(2, N + 1):
            y.append((2 * k - 1) / z * y[-1] - y[-2])
        f = lambda k: mp.sqrt(mp.pi / (2 * z)) * mp.besselj(k + mp.mpf(1) / 2, z)
        # series in z^2, exact on every branch
        def ser(k):
            term = mp.mpf(1)
            for i in range(1, k + 1):
                term = term * z / (2 * i + 1)
            tot, i = term, 0
            while True:
                i += 1
                term = term * (-z * z / 2) / (i * (2 * k + 2 * i + 1))
                tot += term
                if i > abs(z) and abs(term) < abs(tot) * mp.mpf(10) ** (-mp.mp.dps) or abs(tot) == 0:
                    return tot
        a, b = ser(N), ser(N - 1)
        j = [None] * (N + 1)
        j[N], j[N - 1] = a, b
        for k in range(N - 1, 0, -1):
            j[k - 1] = (2 * k + 1) / z * j[k] - j[k + 1]
    return j, y


def der(f, n, z):
    """first derivatives of orders 0..n"""
    return [-f[1]] + [f[k - 1] - (k + 1) / z * f[k] for k in range(1, n + 1)]


def der2(f, n, z):
    d = der(f, n + 1, z)
    return [-2 / z * d[k] + ((k * (k + 1)) / z**2 - 1) * f[k] for k in range(n + 1)]


def model(kind, z, n):
    """value, first and second derivative, and their natural scales, orders 0..n (complex arrays)"""
    j, y = table(complex(z), n)
    zz = mp.mpc(z.real, z.imag)
    if z == 0:
        v = [1.0] + [0.0] * n
        d = [0.0] + ([1 / 3] if n else []) + [0.0] * (n - 1)
        d2 = [-1 / 3, 0.0, 2 / 15][: n + 1] + [0.0] * (n - 2)
        one = np.ones(n + 1)
        return [np.array(q, complex) for q in (v, d, d2)] + [one, one, one]
    fam = {"j": [j], "y": [y], "h": [j, y]}[kind[-1] if len(kind) == 1 else {"psi": "j", "chi": "y", "xi": "h"}[kind]]
    with mp.workdps(60 + int(0.9 * abs(z))):
        comb = [fam[0][k] + (mp.j * fam[1][k] if len(fam) == 2 else 0) for k in range(n + 3)]
        V, D, D2 = comb[: n + 1], der(comb, n, zz), der2(comb, n, zz)
        # magnitudes of what is added up
        A = [sum(abs(q[k]) for q in fam) for k in range(n + 3)]
        az = abs(zz)
        S = [A[k] + (A[k - 1] if k else A[1]) * min(1, az / (k + 1)) + A[k + 1] * min(1, az / (2 * k + 3)) for k in range(n + 2)]
        SD = [S[k - 1] * (1 if k else 0) + (k + 1) / az * S[k] + (S[1] if k == 0 else 0) for k in range(n + 1)]
        SD2 = [2 / az * SD[k] + (k * (k + 1) / az**2 + 1) * S[k] for k in range(n + 1)]
        if len(kind) > 1:
            sg = -1 if kind == "chi" else 1
            V, D, D2 = [sg * zz * V[k] for k in range(n + 1)], [sg * (V[k] + zz * D[k]) for k in range(n + 1)], [sg * (2 * D[k] + zz * D2[k]) for k in range(n + 1)]
            S, SD, SD2 = [az * S[k] for k in range(n + 1)], [S[k] + az * SD[k] for k in range(n + 1)], [2 * SD[k] + az * SD2[k] for k in range(n + 1)]
    lim = lambda q: float(q) if q < 1e300 else math.inf
    cx = lambda q: complex(q) if abs(q) < 1e300 else complex(math.inf)
    return [np.array([cx(q) for q in a]) for a in (V, D, D2)] + [np.array([lim(abs(q)) for q in a[: n + 1]]) for a in (S, SD, SD2)]


# name -> (function of (n, z) giving a list of outputs, [(kind, derivative order)])
IMPL = {
    "sph_jn": (lambda n, z: [s.sph_jn(n, z)], [("j", 0)]),
    "sph_jn_der": (lambda n, z: [s.sph_jn_der(n, z)], [("j", 1)]),
    "sph_yn": (lambda n, z: [s.sph_yn(n, z)], [("y", 0)]),
    "sph_yn_der": (lambda n, z: [s.sph_yn_der(n, z)], [("y", 1)]),
    "sph_h1n": (lambda n, z: [s.sph_h1n(n, z)], [("h", 0)]),
    "sph_h1n_der": (lambda n, z: [s.sph_h1n_der(n, z)], [("h", 1)]),
    "psi": (lambda n, z: list(s.psi(n, z)), [("psi", 0), ("psi", 1)]),
    "chi": (lambda n, z: list(s.chi(n, z)), [("chi", 0), ("chi", 1)]),
    "xi": (lambda n, z: list(s.xi(n, z)), [("xi", 0), ("xi", 1)]),
    "sph_jn_torch": (lambda n, z: [s.sph_jn_torch(n, z)], [("j", 0)]),
    "sph_jn_torch_via_rec": (lambda n, z: [s.sph_jn_torch_via_rec(n, z)], [("j", 0)]),
    "sph_yn_torch": (lambda n, z: [s.sph_yn_torch(n, z)], [("y", 0)]),
    "sph_h1n_torch": (lambda n, z: [s.sph_h1n_torch(n, z)], [("h", 0)]),
    "psi_torch": (lambda n, z: list(s.psi_torch(n, z)), [("psi", 0), ("psi", 1)]),
    "chi_torch": (lambda n, z: list(s.chi_torch(n, z)), [("chi", 0), ("chi", 1)]),
    "xi_torch": (lambda n, z: list(s.xi_torch(n, z)), [("xi", 0), ("xi", 1)]),
    "pena": (None, [("psi", 0), ("xi", 0)]),
}


def pena(n, z):
    D1 = s.pena_D1_n(n, z)
    D3 = s.pena_D3_n(n, z, D1=D1)
    return list(s.pena_psi_zeta_n(n, z, D1=D1, D3=D3))


IMPL["pena"] = (pena, IMPL["pena"][1])
SCIPY = {"sph_jn", "sph_jn_der", "sph_yn", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi"}
NEEDS2 = {"psi", "chi", "xi", "psi_torch", "chi_torch", "xi_torch"}  # f_der needs order 1


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["values", "derivative", "zeros", "ratios", "angular", "vsh"])
    ph = PHASES + (PHASES_T if T else [])
    orders = [1, 0, 3, 10, 35] + ([2, 6, 20, 60] if T else [])
    if part == "values":
        impl = ch.pick("implementation", list(IMPL))
        p = ch.pick("phase", ph)
        n = ch.pick("order", orders)
        if n == 0 and impl in NEEDS2:
            ch.prune()
        lay = ch.pick("layout", ["batch", "alone", "2d", "3d", "strided", "lazy", "transposed", "expanded"] if p in (0.0, 0.5) else ["batch", "alone"])
        real = ch.pick("real type", [False, True] if p == 0.0 and impl not in ("pena",) else [False])
        return dict(part=part, impl=impl, phase=p, n=n, layout=lay, real=real, T=T)
    if part == "derivative":
        impl = ch.pick("implementation", list(IMPL))
        p = ch.pick("phase", ph)
        n = ch.pick("order", [q for q in orders if q <= 35] if T else [1, 0, 10, 35])
        if n == 0 and impl in NEEDS2:
            ch.prune()
        real = ch.pick("real type", [False, True] if p == 0.0 and impl != "pena" else [False])
        return dict(part=part, impl=impl, phase=p, n=n, layout=ch.pick("layout", ["batch", "alone", "strided", "lazy"] if T or p in (0.0, 0.5) and n in (1, 10) else ["batch"]), real=real, T=T)
    if part == "zeros":
        return dict(part=part, zero=ch.pick("zero", list(ZEROS)), n=ch.pick("order", [1, 0, 3, 10]), impl=ch.pick("implementation", RATIO))
    if part == "ratios":
        what = ch.pick("what", ["D1", "D3", "Q", "D1n_torch", "D3n_torch"])
        p = ch.pick("phase", ph)
        n = ch.pick("order", [1, 0, 3, 10, 35] + ([2, 60] if T else []))
        return dict(part=part, what=what, phase=p, n=n, layout=ch.pick("layout", ["batch", "alone"]), T=T)
    if part == "angular":
        return dict(part=part, n=ch.pick("order", [1, 2, 3, 10, 60] + ([200] if T else [])), layout=ch.pick("layout", ["1d", "2d", "3d", "0d", "strided", "lazy", "transposed", "expanded"]))
    kind = ch.pick("kernel", [1, 3, 2])
    fn = ch.pick("function", ["vsh", "vsh_pena"] if kind != 2 else ["vsh"])
    return dict(part=part, kind=kind, fn=fn, n=ch.pick("order", [1, 2, 5] + ([12] if T else [])), m=ch.pick("index", [[1.0, 0.0], [1.5, 0.0], [2.0, 0.5], [0.2, 3.0]]),
                kr=ch.pick("k0 r", [1.0, 0.05, 3.0, 12.0] + ([PI, 1e-3, 25.0] if T else [])))


def run(cfg, rec):
    return globals()["run_" + cfg["part"]](cfg, rec)


UPWARD = {"sph_yn_torch", "sph_h1n_torch", "chi_torch", "xi_torch"}
# zeros of j_0, j_1, j_2 in the alphabet: the ratio j_{k+1}/j_k has a pole there
ZEROS = {"j0": PI, "j1": 4.493409457909064, "j2": 5.763459196894550, "j0 (2)": 2 * PI, "j0 (10)": 10 * PI}
RATIO = ["sph_jn_torch", "sph_h1n_torch", "psi_torch", "xi_torch", "pena"]


def at_grad(z):
    return any(abs(z - q) < 1e-3 for q in ZEROS.values())


def growth(impl, z):
    """the upward recurrence of y_n amplifies rounding by e^(2 |Im z|) off the real axis"""
    if impl == "pena":
        return np.maximum(1.0, 1e-4 * np.exp(2 * np.maximum(0, -np.imag(z))))
    return np.maximum(1.0, 1e-4 * np.exp(2 * np.abs(np.imag(z)))) if impl in UPWARD else 1.0


def args(cfg, fam, zero=False):
    """arguments of the alphabet within the stable range of the functions of family fam"""
    out = []
    for r in MODULI + (MODULI_T if cfg["T"] else []):
        z = complex(r * math.cos(cfg["phase"]), r * math.sin(cfg["phase"])) if cfg["phase"] else complex(r)
        if abs(cfg["phase"] - PI / 2) < 1e-12:
            z = complex(0.0, r)
        if r == 0 and (not zero or cfg["phase"]):
            continue
        if abs(z.imag) > (8 if cfg.get("impl") in UPWARD else 30 if fam != {"j"} else 250) or (cfg.get("impl") == "pena" and z.imag < -8):
            continue
        out.append(z)
    return out


def family(impl):
    return {{"psi": "j", "chi": "y", "xi": "h"}.get(k, k) for k, _ in IMPL[impl][1]}


def stable(impl, z, n):
    """largest order for which the functions (and what the algorithm forms on the way) do not overflow"""
    r = abs(z)
    if r == 0:
        return True
    big = math.lgamma(2 * n + 1) / math.log(10) - n * math.log10(2) - math.lgamma(n + 1) / math.log(10) - (n + 1) * math.log10(r)
    if impl == "sph_jn_torch_via_rec":
        return big < 140 and r >= 1e-9
    if impl in ("pena",):
        return big < 140 and r >= 1e-9
    if n and r < 1e-8:  # the torch versions replace smaller arguments
        return impl in SCIPY and big < 140 or impl in ("sph_jn_torch",)
    return big < 140


def layouts(Z, lay):
    """[(argument array, index into Z)]"""
    idx = np.arange(len(Z))
    if lay == "alone":
        return [np.array([i]) for i in idx]
    if lay in ("batch", "strided", "lazy"):
        return [idx]
    if lay == "transposed":
        return [np.resize(idx, (len(Z), 2)), np.resize(idx, (2, 3, (len(Z) + 5) // 6))]
    if lay == "expanded":
        return [np.array([[i, i, i], [i, i, i]]) for i in idx[::3]] + [np.repeat(idx[:, None], 2, 1)]
    if lay == "2d":
        return [np.resize(idx, (len(Z), 2)), np.resize(idx[::-1], (2, (len(Z) + 1) // 2)), np.array([[0]])]
    return [np.resize(idx, (2, 3, (len(Z) + 5) // 6)), np.resize(idx, (len(Z), 1, 1))]


TOL = 1e-11


def run_values(cfg, rec):
    impl, n = cfg["impl"], cfg["n"]
    fn, outs = IMPL[impl]
    Z = [z for z in args(cfg, family(impl), impl.startswith("sph_jn") and "via_rec" not in impl) if stable(impl, z, n)]
    if not Z:
        rec.true("nothing in the stable range", True)
        return
    M = [[model(k, z, n) for k, _ in outs] for z in Z]
    for idx in layouts(Z, cfg["layout"]):
        zz = np.array(Z)[idx]
        t = laid(torch.tensor(zz.real if cfg["real"] else zz, dtype=F if cfg["real"] else C), cfg["layout"])
        for order in (n, torch.tensor(n)) if cfg["layout"] == "batch" else (n,):
            got = rec.call(fn, order, t)
            for o, (k, d) in enumerate(outs):
                ref = np.moveaxis(np.array([M[i][o][d] for i in idx.ravel()]).reshape(idx.shape + (n + 1,)), -1, 0)
                sc = np.moveaxis(np.array([M[i][o][3 + d] for i in idx.ravel()]).reshape(idx.shape + (n + 1,)), -1, 0)
                loss = np.maximum(1.0, np.abs(zz)) * growth(impl, zz)  # argument error
                rec.close(f"{impl}[{o}] {[complex(q) for q in zz.ravel()[:1]]}", got[o], ref, rtol=TOL, scale=sc * loss)


def run_derivative(cfg, rec):
    """d/dz of Re and Im of every output of every order, by backward(); second derivatives of the torch versions"""
    impl, n = cfg["impl"], cfg["n"]
    fn, outs = IMPL[impl]
    Z = [z for z in args(cfg, family(impl)) if stable(impl, z, n + 2) and abs(z) >= 1e-6 and not (at_grad(z) and impl in RATIO)]
    if not Z:
        rec.true("nothing in the stable range", True)
        return
    M = [[model(k, z, n) for k, _ in outs] for z in Z]
    for idx in layouts(Z, cfg["layout"]):
        zz = np.array(Z)[idx]
        loss = np.maximum(1.0, np.abs(zz)) * np.maximum(1.0, 1 / np.abs(zz)) * growth(impl, zz)
        for o, (k, d) in enumerate(outs):
            for q in sorted({0, n // 2, n}):
                t = torch.tensor(zz.real if cfg["real"] else zz, dtype=F if cfg["real"] else C, requires_grad=True)
                f = rec.call(fn, n, laid(t, cfg["layout"]))[o][q]
                ref1 = np.array([M[i][o][d + 1][q] if d < 2 else 0 for i in idx])
                sc1 = np.array([M[i][o][3 + d + 1][q] for i in idx])
                g = torch.autograd.grad(f.real.sum() if f.is_complex() else f.sum(), t, create_graph=impl not in SCIPY)[0]
                want = ref1.real if cfg["real"] else np.conj(ref1)
                rec.close(f"d {impl}[{o}]_{q}", g, want, rtol=1e-9, scale=sc1 * loss)
                if f.is_complex() and not cfg["real"]:
                    t2 = t.detach().clone().requires_grad_(True)
                    gi = torch.autograd.grad(rec.call(fn, n, laid(t2, cfg["layout"]))[o][q].imag.sum(), t2)[0]
                    rec.close(f"d Im {impl}[{o}]_{q}", gi, np.conj(ref1 / 1j) * 1, rtol=1e-9, scale=sc1 * loss)
                if d == 0 and impl not in SCIPY and g.requires_grad:
                    # g = conj(f'):  Re(sum g) has gradient conj(f'')
                    g2 = torch.autograd.grad(g.real.sum() if g.is_complex() else g.sum(), t)[0]
                    ref2 = np.array([M[i][o][2][q] for i in idx])
                    sc2 = np.array([M[i][o][5][q] for i in idx])
                    # the downward recurrence forms third powers of its unnormalised values
                    use = np.array([abs(q) >= 0.01 and (impl != "sph_jn_torch_via_rec" or abs(q) >= 0.05 * (n + 1)) for q in zz])
                    rec.close(f"d2 {impl}[{o}]_{q}", g2[use], (ref2.real if cfg["real"] else np.conj(ref2))[use], rtol=1e-8, scale=(sc2 * loss**2)[use])


def run_zeros(cfg, rec):
    """derivatives at exact zeros of a spherical Bessel function, by the algorithms that use ratios of successive orders"""
    impl, n, z = cfg["impl"], cfg["n"], complex(ZEROS[cfg["zero"]])
    fn, outs = IMPL[impl]
    if n == 0 and impl in NEEDS2:
        rec.true("nothing to compare", True)
        return
    k = outs[0][0]
    m = model(k, z, n)
    for q in range(n + 1):
        t = tc([z]).requires_grad_(True)
        f = rec.call(fn, n, t)[0][q]
        g = torch.autograd.grad(f.real.sum(), t, create_graph=True)[0]
        rec.close(f"d {impl}_{q}", g, np.conj(m[1][q : q + 1]), rtol=1e-9, scale=m[4][q] * 10)
        g2 = torch.autograd.grad(g.real.sum(), t)[0]
        rec.close(f"d2 {impl}_{q}", g2, np.conj(m[2][q : q + 1]), rtol=1e-6, scale=m[5][q] * 10)


def mp_ratio(kind, z, n):
    j, y = table(complex(z), n)
    zz = mp.mpc(z.real, z.imag)
    with mp.workdps(60 + int(0.9 * abs(z))):
        f = [zz * (j[k] + (mp.j * y[k] if kind == "D3" else 0)) for k in range(n + 3)]
        d0 = mp.cos(zz) if kind == "D1" else mp.exp(mp.j * zz)
        d = [d0] + [f[k - 1] - k / zz * f[k] for k in range(1, n + 1)]
        if kind == "Q":
            return f
        return np.array([complex(d[k] / f[k]) if abs(f[k]) > 0 else complex(math.inf) for k in range(n + 1)])


def run_ratios(cfg, rec):
    n, what = cfg["n"], cfg["what"]
    lo = -12 if what in ("D1", "D3") else -40
    Z = [z for z in args(cfg, {"j"}) if abs(z) >= 1e-6 and z.imag >= (lo if what != "D1" else -250) and stable("pena", z, n)]
    if what in ("D3", "D3n_torch"):
        # the upward recurrence of D3 is stable in the closed upper half plane
        Z = [z for z in Z if z.imag >= -1e-3]
    if what == "D3n_torch":
        # product form: unstable at zeros of psi_n and far above |z|
        Z = [z for z in Z if 0.05 < z.imag < 15 and n <= abs(z) + 10 and abs(z) < 40]
    if what == "Q":
        Z = [z for z in Z if z.imag >= -1e-3 and abs(z) > 1e-3]
    if not Z:
        rec.true("nothing in the stable range", True)
        return
    if what == "Q":
        return ratio_q(cfg, rec, Z)
    kind = what[:2]
    # D1 has poles at the zeros of psi_n: compare next to a pole relative to its square
    R = [mp_ratio(kind, z, n) for z in Z]
    for idx in layouts(Z, cfg["layout"]):
        t = tc(np.array(Z)[idx])
        if what == "D1":
            got = rec.call(s.pena_D1_n, n, t)
        elif what == "D3":
            got = rec.call(s.pena_D3_n, n, t)
        elif what == "D1n_torch":
            got = rec.call(s.D1n_torch, n, t)
        else:
            got = rec.call(s.D3n_torch, n, t, rec.call(s.D1n_torch, n, t))[0]
        ref = np.array([R[i] for i in idx]).T
        zz = np.abs(np.array(Z)[idx])[None]
        rec.close(what, got, ref, rtol=1e-11 if what in ("D1", "D3") else 1e-9, scale=np.abs(ref) + (1 + np.abs(ref) ** 2) * zz + 1)


def ratio_q(cfg, rec, Z):
    """Q_n(z1, z2) = psi_n(z1) zeta_n(z2) / (psi_n(z2) zeta_n(z1)) for all ordered pairs |z1| < |z2|, away from zeros of psi_n(z2)"""
    n = cfg["n"]
    pairs = [(a, b) for a in Z for b in Z if abs(a) < abs(b) <= 4 * abs(a)]
    ok, ref, sc = [], [], []
    for a, b in pairs:
        ja, ya = table(a, n)
        jb, yb = table(b, n)
        with mp.workdps(60 + int(0.9 * abs(b))):
            A, B = mp.mpc(a.real, a.imag), mp.mpc(b.real, b.imag)
            row, rs = [], []
            for k in range(n + 1):
                pa, pb = A * ja[k], B * jb[k]
                za, zb = A * (ja[k] + mp.j * ya[k]), B * (jb[k] + mp.j * yb[k])
                q = pa * zb / (pb * za) if abs(pb) else mp.inf
                # sensitivity to zeros of the denominators
                d = (abs(pa) + abs(A * ja[k + 1])) * abs(zb / za) / abs(pb) if abs(pb) else mp.inf
                amp = (abs(pb) + abs(B * jb[k + 1])) / abs(pb) if abs(pb) else mp.inf
                row.append(complex(q) if abs(q) < 1e200 else complex(math.inf))
                rs.append(float(d * amp * (1 + abs(A) + abs(B))) if abs(q) < 1e200 else math.inf)
        if np.isfinite(row).all() and np.max(rs) < 1e8:
            ok.append((a, b)), ref.append(row), sc.append(rs)
    rec.note["interface pairs"] = len(ok)
    if not ok:
        rec.true("no pair", True)
        return
    groups = [list(range(len(ok)))] if cfg["layout"] == "batch" else [[i] for i in range(0, len(ok), 7)]
    for g in groups:
        z1, z2 = tc([ok[i][0] for i in g]), tc([ok[i][1] for i in g])
        d = [rec.call(f, n, z) for f in (s.pena_D1_n, s.pena_D3_n) for z in (z1, z2)]
        x1, x2 = z1.abs().to(C), z2.abs().to(C)  # the phase is that of the index: the same in both
        got = rec.call(s.pena_Q_n, n, z1, z2, x1, x2, d[0], d[1], d[2], d[3])
        S = np.array([sc[i] for i in g]).T
        rec.close("Q", got, np.array([ref[i] for i in g]).T, rtol=1e-9, scale=S + 1e-290)


def legendre(n, c):
    """pi_k, tau_k (k = 0..n) and derivatives with respect to c, multi-precision"""
    with mp.workdps(50):
        c = mp.mpf(c)
        P = [mp.mpf(0), mp.mpf(1)]
        for k in range(2, n + 2):
            P.append(((2 * k - 1) * c * P[k - 1] - k * P[k - 2]) / (k - 1))
        dP = [mp.mpf(0), mp.mpf(0)]
        for k in range(2, n + 2):
            dP.append(((2 * k - 1) * (P[k - 1] + c * dP[k - 1]) - k * dP[k - 2]) / (k - 1))
        T = [mp.mpf(0)] + [k * c * P[k] - (k + 1) * P[k - 1] for k in range(1, n + 1)]
        dT = [mp.mpf(0)] + [k * (P[k] + c * dP[k]) - (k + 1) * dP[k - 1] for k in range(1, n + 1)]
    return [np.array([float(q) for q in a[: n + 1]]) for a in (P, T, dP, dT)]


def run_angular(cfg, rec):
    n = cfg["n"]
    th = [0.0, PI, PI / 2, 0.3, 1.0, 2.0, 3.0, 1e-4, PI - 1e-6, -0.7, 4.0, 2 * PI]
    mu = np.cos(np.array(th))
    lay = cfg["layout"]
    shape = {"strided": [(12,), (3, 4)], "lazy": [(12,)], "transposed": [(3, 4), (2, 3, 2)], "expanded": [(12, 1)], "0d": [()], "1d": [(12,), (1,)], "2d": [(3, 4), (12, 1), (1, 12)], "3d": [(2, 3, 2), (1, 1, 12)]}[lay]
    for sh in shape:
        size = int(np.prod(sh)) if sh else 1
        for start in range(0, 12, size) if size < 12 else [0]:
            m = mu[start : start + size].reshape(sh)
            t = torch.tensor(m, dtype=F, requires_grad=True)
            if lay == "expanded":
                P, T = rec.call(s.pi_tau, n, laid(t.detach().expand(12, 3), lay))
                for a, b in zip((P, T), rec.call(s.pi_tau, n, t.detach())):
                    rec.close("expanded", a, np.broadcast_to(to_np(b), (n + 1, 12, 3)), rtol=1e-15)
            P, T = rec.call(s.pi_tau, n, laid(t, lay if lay != "expanded" else None))
            ref = [legendre(n, float(v)) for v in m.ravel()]
            r = [np.moveaxis(np.array([q[i] for q in ref]).reshape(sh + (n + 1,)), -1, 0) for i in range(4)]
            k = np.arange(n + 1).reshape((-1,) + (1,) * len(sh)) + 1.0
            rec.close("pi", P, r[0], rtol=1e-11, scale=k**2 * np.ones_like(r[0]))
            rec.close("tau", T, r[1], rtol=1e-11, scale=k**3 * np.ones_like(r[0]))
            grad = lambda f: torch.autograd.grad(f.sum() + 0 * t.sum(), t, retain_graph=True)[0]
            rec.close("d pi", grad(P), r[2].sum(0), rtol=1e-9, scale=np.full(sh, float(n + 1) ** 5))
            rec.close("d tau", grad(T), r[3].sum(0), rtol=1e-9, scale=np.full(sh, float(n + 1) ** 6))
            P2, T2 = rec.call(s.pi_tau, torch.tensor(n), t.detach())
            rec.same("order as tensor", P2, P.detach())
    # independent closed forms
    x = np.linspace(-1, 1, 9)
    P, T = rec.call(s.pi_tau, max(n, 3), t64(x))
    for k, (p, t_) in {1: (np.ones(9), x), 2: (3 * x, 3 * (2 * x**2 - 1)), 3: (1.5 * (5 * x**2 - 1), 1.5 * x * (15 * x**2 - 11))}.items():
        rec.close(f"pi_{k}", P[k], p, rtol=1e-13, atol=1e-13)
        rec.close(f"tau_{k}", T[k], t_, rtol=1e-13, atol=1e-12)


ANG = [(0.7, 0.4), (1.9, 2.2), (2.6, -2.5), (0.3, -0.9), (0.0, 0.0), (PI, 0.0), (PI / 2, PI / 2), (1e-5, 1.0), (PI / 2, 0.0)]


def run_vsh(cfg, rec):
    n, m, kind = cfg["n"], complex(*cfg["m"]), cfg["kind"]
    k0, rr = 0.01, cfg["kr"] / 0.01
    z = k0 * m * rr
    if kind != 1 and abs(z.imag) > 15 or not stable("pena", z, n):
        rec.true("outside the stable range", True)
        return
    r = t64([rr] * len(ANG))[None, :, None]
    th = t64([a for a, _ in ANG])[None, :, None]
    ph = t64([b for _, b in ANG])[None, :, None]
    fn = getattr(s, cfg["fn"])
    got = rec.call(fn, n, t64(k0), tc(m), r, th, ph, kind)
    j, y = table(complex(z), n)
    zz = mp.mpc(z.real, z.imag)
    with mp.workdps(60 + int(0.9 * abs(z))):
        f = {1: j, 2: [-q for q in y], 3: [j[k] + mp.j * y[k] for k in range(n + 3)]}[kind]
        zn = [complex(f[k]) for k in range(n + 2)]
        dz = [complex((f[k - 1] - k / zz * f[k])) if k else 0 for k in range(n + 2)]  # (z f)'/z
        sz = [float(abs(j[k]) + (abs(y[k]) if kind != 1 else 0)) for k in range(n + 2)]
    names = ("M_o1n", "M_e1n", "N_o1n", "N_e1n")
    ref = np.zeros((4, n, len(ANG), 3), complex)
    sc = np.zeros((n, len(ANG), 1))
    for i, (a, b) in enumerate(ANG):
        P, T, _, _ = legendre(n, math.cos(a))
        for k in range(1, n + 1):
            cb, sb = math.cos(b), math.sin(b)
            ref[0, k - 1, i] = [0, cb * P[k] * zn[k], -sb * T[k] * zn[k]]
            ref[1, k - 1, i] = [0, -sb * P[k] * zn[k], -cb * T[k] * zn[k]]
            rad = k * (k + 1) * math.sin(a) * P[k] * zn[k] / z
            ref[2, k - 1, i] = [sb * rad, sb * T[k] * dz[k], cb * P[k] * dz[k]]
            ref[3, k - 1, i] = [cb * rad, cb * T[k] * dz[k], -sb * P[k] * dz[k]]
            sc[k - 1, i] = (sz[k] * (1 + k / abs(z)) + sz[k - 1]) * k**2
    for q in range(4):
        rec.close(f"{cfg['fn']} {names[q]}", got[q], ref[q], rtol=1e-10, scale=sc * np.ones((1, 1, 3)))
    rec.must_raise("unknown kernel", fn, n, t64(k0), tc(m), r, th, ph, 4, exc=(ValueError,))
