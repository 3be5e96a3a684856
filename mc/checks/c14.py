"""C14: coordinate, rotation, interpolation, expansion and truncation helpers are exact."""
import itertools
import math

import mpmath as mp
import numpy as np
import torch

import pymiediff.helper.tg as tg
from mc.world import C, F, PI, laid, pmd, t64, tc, to_np

h = pmd.helper
LEVEL = "model_checking"
CHUNK = 8
RULE = (
    "points: every point of a lattice (axes, origin, poles, all octants) x type x layout is converted there and back; vectors: every direction x component; rotations: every word of up to 3 (4) "
    "axis rotations over an angle alphabet against exact composition; interp: every data set of up to 5 (6) points in every order of the rows, evaluated at nodes, between, next to and outside; "
    "expansion, truncation, illuminations, numpy conversion and derivative checkers: every argument of the alphabet."
)
BOUNDS = {
    "quick": "9^3 lattice x 3 units (1, 1e-9, 1e4) x 2 types x 6 layouts; words of length <= 3 over 3 axes x 7 angles; all permutations of <= 5 rows, well separated, clustered or tiny; 27 truncation size parameters x 12 layer sets",
    "thorough": "13^3 lattice; words of length <= 4; 6 rows",
}
ASSUMPTIONS = [
    "angles are limited by the safeguard at x = 0 (ten machine epsilons of the smaller of the distance and one)",
    "rotation matrices are the right-handed ones: about z takes x to y, about x takes y to z, about y takes z to x",
]

LAT = [1.0, 0.0, -1.0, 2.5, -2.5, 1e-3, -1e-3, 100.0, -100.0]
LAT_T = [1e-6, -1e-6, 3e3, -0.7]
ANG = [0.0, PI / 2, 0.3, -1.1, PI, 2.5, 2 * PI]


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["points", "vectors", "rotations", "interp", "expansion", "wiscombe", "pena", "illumination", "numpy", "derivative"])
    if part == "points":
        return dict(part=part, x=ch.pick("x", LAT + (LAT_T if T else [])), dtype=ch.pick("type", ["f64", "f32"]), layout=ch.pick("layout", ["1d", "0d", "2d", "3d", "strided", "lazy"]), unit=ch.pick("unit", [1.0, 1e-9, 1e4]), T=T)
    if part == "vectors":
        return dict(part=part, theta=ch.pick("theta", [0.0, PI, PI / 2, 0.4, 1.2, 2.2, 3.0, 1e-6]), layout=ch.pick("layout", ["1d", "0d", "2d", "strided", "lazy"]), dtype=ch.pick("type", ["c128", "f64", "c64"]))
    if part == "rotations":
        L = ch.pick("length", [1, 2, 3] + ([4] if T else []))
        a = ANG if L < 3 else ANG[1:5] if L == 3 else ANG[1:3]
        w = [[ch.pick("axis", ["x", "y", "z"]), ch.pick("angle", a)] for _ in range(L)]
        return dict(part=part, word=w, dtype=ch.pick("type", ["f64", "f32"]))
    if part == "interp":
        n = ch.pick("rows", [2, 1, 3, 4, 5] + ([6] if T else []))
        return dict(part=part, n=n, perm=ch.pick("order", range(math.factorial(n))), y=ch.pick("values", ["complex", "real"]), dtype=ch.pick("type", ["f64", "f32"] if n < 5 else ["f64"]), nodes=ch.pick("nodes", ["wide", "cluster", "metres"]), layout=ch.pick("layout", ["1d", "strided", "lazy"] if n < 5 else ["1d"]))
    if part == "expansion":
        return dict(part=part, n=ch.pick("order", list(range(0, 41)) + [60, 100, 200, 500] + ([1000, 3000] if T else [])), given=ch.pick("given as", ["int", "tensor", "range"]))
    if part == "wiscombe":
        return dict(part=part, x=ch.pick("x", [3.0, 1e-6, 0.01, 0.1, 0.5, 1.0, 2.0, 5.0, 7.0, 7.9, 7.999999, 8.0, 8.000001, 8.1, 9.0, 15.0, 40.0, 100.0, 333.3, 1000.0, 4199.0, 4199.999, 4200.0, 4200.1, 5000.0, 2e4, 1e5]),
                    layout=ch.pick("layout", ["1d", "0d", "2d", "negative", "complex", "f32"]))
    if part == "pena":
        return dict(part=part, x=ch.pick("x", [3.0, 1e-3, 0.1, 1.0, 7.9, 8.1, 20.0, 100.0, 1000.0, 4199.0, 4300.0]), L=ch.pick("layers", [1, 2, 3]),
                    m=ch.pick("index", [1.5, 4.0, 0.5, "3+2j", "0.1+6j"]), where=ch.pick("largest", ["core", "outer"]), n_env=ch.pick("host", [1.0, 1.5]), batch=ch.pick("batch", [1, 3]))
    if part == "illumination":
        return dict(part=part, n=ch.pick("angles", [1, 2, 3, 4, 7, 12]), planes=ch.pick("planes", [None, ["xz"], ["yz", "xy"], ["xz", "xy", "yz"]]))
    if part == "numpy":
        return dict(part=part, what=ch.pick("what", ["tensor", "grad", "tuple", "items", "0d", "complex", "lazy", "strided"]))
    return dict(part=part, f=ch.pick("function", ["square", "cube", "exp", "sph_jn", "sph_yn_der", "sph_jn_torch"]), n=ch.pick("order", [1, 2, 3]))


def run(cfg, rec):
    return globals()["run_" + cfg["part"]](cfg, rec)


DT = dict(f64=torch.float64, f32=torch.float32, c128=torch.complex128, c64=torch.complex64)


def shaped(a, layout):
    """pieces of a flat array in the given layout"""
    a = np.asarray(a)
    if layout in ("1d", "strided", "lazy"):
        return [a, a[:1]]
    if layout == "0d":
        return [v for v in a[:: max(1, len(a) // 12)]]
    if layout == "2d":
        return [np.resize(a, (len(a), 1)), np.resize(a, (3, len(a) // 3))]
    return [np.resize(a, (2, 2, len(a) // 4 + 1))]


def run_points(cfg, rec):
    lat = LAT + (LAT_T if cfg["T"] else [])
    P = np.array([(cfg["x"], y, z) for y in lat for z in lat]) * cfg["unit"]
    d = DT[cfg["dtype"]]
    eps = torch.finfo(d).eps
    idx = np.arange(len(P))
    for ii in shaped(idx, cfg["layout"]):
        p = P[ii]
        X = [laid(torch.tensor(p[..., i], dtype=d), cfg["layout"]) for i in range(3)]
        keep = [q.clone() for q in X]
        r, th, ph = rec.call(h.transform_xyz_to_spherical, *X)
        p = np.stack([to_np(q).astype(float) for q in X], -1)  # as rounded
        R = np.linalg.norm(p, axis=-1)
        rec.close("r", r, R, rtol=8 * eps, atol=1e-300)
        rec.true("range of theta", bool(((th >= 0) & (th <= PI + 1e-6)).all()))
        th_ref = np.arctan2(np.hypot(p[..., 0], p[..., 1]), p[..., 2])
        ph_ref = np.arctan2(p[..., 1], p[..., 0])
        with np.errstate(divide="ignore"):
            # on the plane x = 0, x stands for ten machine epsilons of the distance (of one, further out)
            tol = np.where(R > 0, 20 * eps * (1 + np.minimum(R, 1) / np.maximum(R, 1e-300)), np.inf)
            rho = np.hypot(p[..., 0], p[..., 1])
            tolp = np.where(rho > 0, 20 * eps * (1 + np.minimum(R, 1) / np.maximum(rho, 1e-300)), np.inf)
        ok = np.isfinite(tol)
        rec.close("theta", to_np(th)[ok], th_ref[ok], rtol=1, scale=tol[ok])
        ok = np.isfinite(tolp)
        dphi = (to_np(ph) - ph_ref + PI) % (2 * PI) - PI
        rec.close("phi", dphi[ok], np.zeros(dphi[ok].shape), rtol=1, scale=tolp[ok])
        back = rec.call(h.transform_spherical_to_xyz, r, th, ph)
        for i in range(3):
            rec.close(f"{'xyz'[i]} there and back", back[i], p[..., i], rtol=30 * eps, scale=R + 1e-300)
            rec.same("input", X[i], keep[i])
            rec.true("type", back[i].dtype == d, str(back[i].dtype))


def run_vectors(cfg, rec):
    d = DT[cfg["dtype"]]
    fl = torch.float32 if cfg["dtype"] == "c64" else torch.float64
    eps = torch.finfo(fl).eps
    ph = np.array([0.0, PI / 2, PI, -PI / 2, 0.4, 2.0, -2.5, 6.0, 1e-7])
    comp = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1j, 2, -1), (0.3, -0.5j, 1 + 1j)]
    for pp in shaped(ph, cfg["layout"]):
        pp = np.asarray(pp)
        tt = np.full(pp.shape, cfg["theta"])
        st, ct, sp, cp = np.sin(tt), np.cos(tt), np.sin(pp), np.cos(pp)
        e = [np.stack([st * cp, st * sp, ct], -1), np.stack([ct * cp, ct * sp, -st], -1), np.stack([-sp, cp, 0 * cp], -1)]
        for c in comp:
            if cfg["dtype"] == "f64" and any(isinstance(q, complex) for q in c):
                continue
            E = [laid(torch.full(pp.shape, q, dtype=d), cfg["layout"]) for q in c]
            got = rec.call(h.transform_fields_spherical_to_cartesian, *E, torch.ones(pp.shape, dtype=fl), *(laid(torch.tensor(q, dtype=fl), cfg["layout"]) for q in (tt, pp)))
            ref = sum(q * v for q, v in zip(c, e))
            for i in range(3):
                rec.close(f"E_{'xyz'[i]}", got[i], ref[..., i], rtol=20 * eps, scale=np.full(pp.shape, 3.0))
                rec.true("type", got[i].dtype == d, str(got[i].dtype))


def exact_rotation(axis, a):
    c, s = math.cos(a), math.sin(a)
    return np.array({"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]], "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis])


def run_rotations(cfg, rec):
    d = DT[cfg["dtype"]]
    eps = torch.finfo(d).eps
    M, ref = torch.eye(3, dtype=d), np.eye(3)
    for i, (ax, a) in enumerate(cfg["word"]):
        fn = getattr(tg, f"rotation_{ax}")
        m = rec.call(fn, a if i % 2 else torch.tensor(a, dtype=torch.float64), "cpu", d)
        rec.true("type", m.dtype == d and tuple(m.shape) == (3, 3), f"{m.dtype} {m.shape}")
        inv = rec.call(fn, -a, "cpu", d)
        rec.close("inverse", m @ inv, np.eye(3), rtol=16 * eps, scale=np.ones((3, 3)) * 2)
        rec.close("transpose", m.T, to_np(inv), rtol=16 * eps, scale=np.ones((3, 3)))
        half = rec.call(fn, a / 2, "cpu", d)
        rec.close("composition", half @ half, to_np(m), rtol=32 * eps, scale=np.ones((3, 3)))
        M, ref = m @ M, exact_rotation(ax, a) @ ref
    rec.close("product", M, ref, rtol=64 * eps, scale=np.ones((3, 3)))
    rec.close("determinant", np.linalg.det(to_np(M).astype(float)), np.array(1.0), rtol=200 * eps)
    if len(cfg["word"]) == 1:
        ax, a = cfg["word"][0]
        m = rec.call(getattr(tg, f"rotation_{ax}"), a)
        rec.close("default type", m, ref, rtol=1e-6, scale=np.ones((3, 3)))


XS = [0.5, 1.0, 1.25, 4.0, 10.0, 300.0]
YC = [1 + 2j, -3 + 0.5j, 0.25 - 1j, 7j, 2.0 + 0j, -1 - 1j]


def run_interp(cfg, rec):
    d = DT[cfg["dtype"]]
    eps = torch.finfo(d).eps
    n = cfg["n"]
    x, y = np.array(XS[:n]), np.array(YC[:n])
    u = 1.0
    if cfg["nodes"] == "cluster":  # neighbours only a few steps of the number type apart
        x = 1.0 + 64 * eps * np.cumsum([1, 1, 2, 1, 3, 5][:n])
        u = x[0] * 64 * eps
    elif cfg["nodes"] == "metres":
        x = to_np(torch.tensor(x * 1e-9, dtype=d)).astype(float)
        u = 1e-9
    if cfg["y"] == "real":
        y = y.real
    p = list(list(itertools.permutations(range(n)))[cfg["perm"]])
    xd, yd = torch.tensor(x[p], dtype=d), torch.tensor(y[p], dtype=d if cfg["y"] == "real" else (C if cfg["dtype"] == "f64" else torch.complex64))
    xd, yd = laid(xd, cfg["layout"]), laid(yd, cfg["layout"])
    e = list(x) + [a + t * (b - a) for a, b in zip(x[:-1], x[1:]) for t in ((0.5, 0.1, 0.9, 1e-3) if cfg["nodes"] != "cluster" else (0.5, 0.25))] + [0.01 * x[0], 0.4999 * x[0], 1.1 * x[-1], 1e4, -2.0]
    e = to_np(torch.tensor(e, dtype=d)).astype(float)
    ref = np.interp(e, x, y.real) + (1j * np.interp(e, x, y.imag) if cfg["y"] == "complex" else 0)
    sc = np.full(len(e), np.abs(y).max()) * 40
    for ii in shaped(np.arange(len(e)), "1d") + shaped(np.arange(len(e)), "2d") + list(np.arange(len(e))):
        t = laid(torch.tensor(e[ii], dtype=d), cfg["layout"])
        keep = [t.clone(), xd.clone(), yd.clone()]
        got = rec.call(h.interp1d, t, xd, yd)
        rec.close("interpolant", got, ref[ii], rtol=eps, scale=sc[ii])
        for a, b in zip((t, xd, yd), keep):
            rec.same("input", a, b)
    nodes = rec.call(h.interp1d, xd, xd, yd)
    rec.close("data points", nodes, to_np(yd), rtol=2 * eps)
    # derivatives with respect to the evaluation points and to the data
    mid = np.array([a + t * (b - a) for a, b in zip(x[:-1], x[1:]) for t in ((0.3, 0.8) if cfg["nodes"] != "cluster" else (0.25, 0.5))] + [0.01 * x[0], 1e3])
    for part in ("real", "imag") if cfg["y"] == "complex" else ("real",):
        t = torch.tensor(mid, dtype=d, requires_grad=True)
        v = yd.clone().requires_grad_(True)
        out = rec.call(h.interp1d, t, xd, v)
        out = getattr(out, part) if out.is_complex() else out
        g, gy = torch.autograd.grad(out.sum(), (t, v), allow_unused=True)
        yy = getattr(y, part)
        slope = np.array([0.0 if not x[0] < q < x[-1] else np.diff(yy)[np.searchsorted(x, q) - 1] / np.diff(x)[np.searchsorted(x, q) - 1] for q in mid])
        g = torch.zeros_like(t) if g is None else g
        rec.close("d / d x", g, slope, rtol=1e3 * eps, scale=np.full(len(mid), np.abs(yy).max() * 4 / min(u, 1) + 1))
        w = np.array([np.interp(mid, x, np.eye(n)[k]).sum() for k in range(n)])[p]
        rec.close("d / d y", gy, w if part == "real" else 1j * w, rtol=200 * eps, scale=np.full(n, 10.0))


def run_expansion(cfg, rec):
    n = cfg["n"]
    if n == 0 and cfg["given"] == "range":
        rec.true("nothing", True)
        return
    a = {"int": n, "tensor": torch.tensor(n), "range": torch.arange(1, n + 1)}[cfg["given"]]
    got = rec.call(h.plane_wave_expansion, a)["a_pw_n"]
    k = np.arange(1, n + 1)
    ref = np.array([1, 1j, -1, -1j])[k % 4] * (2 * k + 1) / (k * (k + 1))
    rec.close("a_pw", got, ref.astype(complex), rtol=1e-12)


def wis(x):
    c = 4.0 if x <= 8 or x >= 4200 else 4.05
    return x + c * x ** (1 / 3) + (1 if x <= 8 else 2)


def near(v, u, eps):
    """u is v rounded (either neighbour at a tie)"""
    return abs(u - v) <= 0.5 + eps * (1 + abs(v))


def run_wiscombe(cfg, rec):
    x = cfg["x"]
    d, eps = F, 1e-12
    t = dict(zip(("1d", "0d", "2d", "negative", "complex", "f32"), (t64([0.1 * x, x, 0.5 * x]), t64(x), t64([[x, 0.2 * x], [0.0, x]]), t64([-x, 0.5 * x]), tc([x * 0.6 + 0.8j * x, 0.1 * x]), torch.tensor([x, 0.3 * x], dtype=torch.float32))))[cfg["layout"]]
    if cfg["layout"] in ("f32", "complex"):
        eps = 2e-6
        if any(abs(x - e) < 1e-2 for e in (8.0, 4200.0)):
            rec.true("at a threshold within rounding", True)
            return
    n = rec.call(h.get_truncution_criteroin_wiscombe, t)
    rec.true("type", isinstance(n, int), str(type(n)))
    rec.true("order", near(wis(x), n, eps), f"{n} for x = {x}: {wis(x)}")
    # the largest of a batch decides, whatever its position
    for perm in itertools.permutations([0.3 * x, x, 0.01 * x]):
        rec.true("batch", rec.call(h.get_truncution_criteroin_wiscombe, t64(perm)) == rec.call(h.get_truncution_criteroin_wiscombe, t64(x)), str(perm))


def run_pena(cfg, rec):
    m, L = complex(str(cfg["m"]).replace(" ", "")), cfg["L"]
    R, ne = 100.0, cfg["n_env"]
    r = np.array([R * (i + 1) / L for i in range(L)])
    n = np.full(L, 1.2 + 0j)
    n[0 if cfg["where"] == "core" else -1] = m
    k = cfg["x"] / (ne * R)
    B = cfg["batch"]
    # smaller companions in the batch and smaller wavenumbers must not matter
    rr = np.array([r * s for s in ([1.0] if B == 1 else [0.1, 1.0, 0.5])])
    ks = np.array([[k]]) if B == 1 else np.array([[0.2 * k, k]])
    eps = np.broadcast_to((n**2)[None, :, None], (len(rr), L, ks.shape[1]))
    x = k * ne * R
    raw = max([round_either(wis(x))[1]] + [abs(k * n[i] * r[i]) for i in range(L)] + [abs(k * n[i] * r[i - 1]) for i in range(1, L)])
    lo = max([round_either(wis(x))[0]] + [abs(k * n[i] * r[i]) for i in range(L)] + [abs(k * n[i] * r[i - 1]) for i in range(1, L)])
    got = rec.call(h.get_truncution_criteroin_pena2009, t64(ks), t64(rr), tc(eps), t64(np.full(ks.shape, ne**2)))
    rec.true("order", lo + 15 - 0.5 - 1e-6 <= got <= raw + 15 + 0.5 + 1e-6, f"{got} instead of {raw + 15}")
    rec.must_raise("layer radii without particle axis", h.get_truncution_criteroin_pena2009, t64(ks), t64(r), tc(eps), t64(np.full(ks.shape, ne**2)), exc=(ValueError,))
    rec.must_raise("permittivities without wavelength axis", h.get_truncution_criteroin_pena2009, t64(ks), t64(rr), tc(eps[..., 0]), t64(np.full(ks.shape, ne**2)), exc=(ValueError,))


def round_either(v):
    f = v - math.floor(v)
    if abs(f - 0.5) < 1e-6:
        return math.floor(v), math.floor(v) + 1
    return round(v), round(v)


def run_illumination(cfg, rec):
    n, pl = cfg["n"], cfg["planes"]
    got = rec.call(tg.setup_plane_waves_configs, n) if pl is None else rec.call(tg.setup_plane_waves_configs, n, inc_planes=pl)
    pl = pl or ["xz", "xy"]
    want = sorted((round(2 * PI * i / n, 4), p, q) for i in range(n) for p in pl for q in "sp")
    have = sorted((round(float(g["angle"]), 4), g["inc_plane"], g["polarization"]) for g in got)
    rec.true("configurations", len(have) == len(want) and all(a[1:] == b[1:] and abs(a[0] - b[0]) < 2e-4 for a, b in zip(have, want)), f"{have[:3]}")
    again = rec.call(tg.setup_plane_waves_configs, n)
    rec.true("default planes", len(again) == 4 * n, str(len(again)))


def run_numpy(cfg, rec):
    a, b = t64([1.0, 2.0]), t64([[3.0]])
    w = cfg["what"]
    if w == "tensor":
        rec.same("array", rec.call(h.detach_tensor, a), np.array([1.0, 2.0]))
    elif w == "grad":
        rec.same("array", rec.call(h.detach_tensor, a.clone().requires_grad_(True) * 2), np.array([2.0, 4.0]))
    elif w == "tuple":
        o = rec.call(h.detach_tensor, (a, b))
        rec.true("tuple", isinstance(o, tuple) and len(o) == 2)
        rec.same("first", o[0], np.array([1.0, 2.0]))
        rec.same("second", o[1], np.array([[3.0]]))
    elif w == "items":
        o = rec.call(h.detach_tensor, (b, a[:1]), item=True)
        rec.true("items", o == (3.0, 1.0) and all(isinstance(q, float) for q in o), str(o))
    elif w in ("lazy", "strided"):
        c = tc([1 + 2j, 3 - 1j])
        for q in (a, c):
            rec.same("array", rec.call(h.detach_tensor, laid(q, w)), to_np(q))
            rec.same("arrays", rec.call(h.detach_tensor, (laid(q, w), q))[0], to_np(q))
            rec.true("items", rec.call(h.detach_tensor, (laid(q, w)[:1],), item=True)[0] == to_np(q)[0])
    elif w == "0d":
        rec.same("array", rec.call(h.detach_tensor, a[0]), np.array(1.0))
    else:
        rec.same("array", rec.call(h.detach_tensor, tc([1 + 2j])), np.array([1 + 2j]))


def run_derivative(cfg, rec):
    """the two derivative helpers agree with each other and with the true derivative"""
    n = cfg["n"]
    s = pmd.special
    f, df = {
        "square": (lambda n, z: z**2 * n, lambda z: 2 * z * n),
        "cube": (lambda n, z: n + z**3, lambda z: 3 * z**2),
        "exp": (lambda n, z: torch.exp(n * z), lambda z: n * np.exp(n * z)),
        "sph_jn": (lambda n, z: s.sph_jn(n, z)[n], None),
        "sph_yn_der": (lambda n, z: s.sph_yn_der(n, z)[n], None),
        "sph_jn_torch": (lambda n, z: s.sph_jn_torch(n, z)[n], None),
    }[cfg["f"]]
    z = tc([0.5 + 0.2j, 1.5 - 0.3j, 3.0 + 0j, 2.0 + 1j]).requires_grad_(True)
    zz, num, ad = rec.call(h.funct_grad_checker, z, f, (n, z))
    rec.close("points", zz, to_np(z), rtol=1e-15)
    rec.close("numerical derivative", num, ad, rtol=2e-5, scale=np.abs(ad) + 1)
    if df is not None:
        rec.close("derivative", ad, np.conj(df(to_np(z))), rtol=1e-10)
        rec.close("central difference", rec.call(h.num_center_diff, f, n, z.detach()), df(np.conj(to_np(z))), rtol=1e-5, scale=np.abs(ad) + 1)
