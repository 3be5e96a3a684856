"""C08: physically equivalent descriptions of a particle give equal observables."""
import numpy as np
from scipy.special import spherical_jn, spherical_yn

from mc.world import FIELDS, N, Config, fmax, ms, octants, t64, tc, to_np, wiscombe

LEVEL = "model_checking"
CHUNK = 3
RULE = (
    "Every sequence (up to the depth bound) of equivalence-preserving rewrites - split layer i at a fraction, add an outer layer of the host's index, "
    "scale all lengths, express in units of the host index - from every start particle; after every rewrite sequence all coefficients, cross sections, "
    "amplitudes and fields on fixed points of the particle are compared with those of the start particle under the exact scaling laws. "
    "Limits: vanishing contrast and vanishing layer thickness, decade by decade."
)
BOUNDS = {
    "quick": "47 start particles (1-3 layers, sizes 0.05-20) x all rewrite sequences of depth <= 2 over up to 19 rewrites (units from 1e-9 to 1e3); 8 decades of contrast and thickness",
    "thorough": "same starts and more sizes, depth 3",
}
ASSUMPTIONS = ["the truncation order is given explicitly and equal on both sides", "total fields are compared where an added host-index layer changes the region a point belongs to"]

STARTS1 = ["d15", "d40", "a", "m", "l", "w", "z", "g"]
STARTS2 = ["d15", "m", "a", "d40"]
REWRITES = [("split", 0.4), ("split", 0.999), ("split", 1e-2), ("coat", 1.3), ("coat", 1.0001), ("coat", 2.0), ("scale", 1e3), ("scale", 1e-3), ("scale", 1e-9), ("host", 0)]


def moves(L, host):
    out = []
    for k, v in REWRITES:
        if k == "split":
            out += [(k, v, i) for i in range(L)]
        elif k == "host":
            if host != 1.0:
                out.append((k, v, 0))
        else:
            out.append((k, v, 0))
    return out


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["rewrite", "contrast", "thin"])
    if part == "contrast":
        return dict(part=part, L=ch.pick("layers", [1, 2, 3]), x=ch.pick("size", [1.0, 0.1, 8.0]), host=ch.pick("host", [1.0, 1.33]), kind=ch.pick("contrast", ["index", "loss"]))
    if part == "thin":
        L = ch.pick("layers", [1, 2])
        stack = [ch.pick("layer", ["d15", "m", "a"]) for _ in range(L)]
        return dict(part=part, stack=stack, film=ch.pick("film", ["d40", "m", "a", "v"]), where=ch.pick("where", range(L + 1)), x=ch.pick("size", [1.0, 0.1, 6.0] if T or L == 1 else [1.0, 6.0]))
    L = ch.pick("layers", [1, 2, 3])
    if L == 1:
        stack = [ch.pick("layer", STARTS1)]
        x = ch.pick("size", [1.0, 0.05, 7.0] + ([20.0, 0.3] if T else []))
    elif L == 2:
        stack = [ch.pick("layer", STARTS2), ch.pick("layer", STARTS2)]
        x = ch.pick("size", [2.0] + ([0.2, 9.0] if T else []))
    else:
        stack = ch.pick("stack", [["d15", "m", "d40"], ["a", "d15", "m"], ["m", "v", "d15"], ["l", "d40", "m"]] + ([["d40", "a", "v"], ["d15", "d40", "d15"], ["v", "m", "v"]] if T else []))
        x = ch.pick("size", [3.0] + ([0.5, 12.0] if T else []))
    depth = 3 if T and L <= 2 else 2
    seq = []
    cl, host = L, 1.33
    for _ in range(depth):
        mv = moves(cl, host)
        if not T and len(seq) == 1:  # second rewrite: one representative split per layer and one of each other kind
            mv = [m for m in mv if m[1] in (0.4, 1.3, 1e3, 0) or m[1] == 0.999 and seq[0][0] == "split" and L < 3]
        m = ch.pick("rewrite", [None] + mv)
        if m is None:
            break
        seq.append(list(m))
        cl += m[0] in ("split", "coat")
        host = 1.0 if m[0] == "host" else host
    if not seq:
        ch.prune()
    return dict(part=part, stack=stack, x=x, seq=seq)


def apply(d, m):
    k, v, i = m
    r, n, env, k0, s, h = d
    if k == "split":
        lo = 0.0 if i == 0 else r[i - 1]
        return r[:i] + [lo + v * (r[i] - lo)] + r[i:], n[:i] + [n[i]] + n[i:], env, k0, s, h
    if k == "coat":
        return r + [r[-1] * v], n + [complex(env)], env, k0, s, h
    if k == "scale":
        return [q * v for q in r], n, env, k0 / v, s * v, h
    return r, [q / env for q in n], 1.0, k0 * env, s, h / env


def observe(rec, d, n_max, P):
    r, n, env, k0, s, h = d
    K = t64([k0])
    kw = dict(r_layers=t64(r), eps_layers=tc(n) ** 2, eps_env=t64(env**2), n_max=n_max)
    co = rec.call(ms.mie_coefficients, K, **kw)
    cs = rec.call(ms.cross_sections, K, **kw)
    an = rec.call(ms.angular_scattering, K, t64([0.0, 0.7, 1.9, np.pi]), **kw)
    nf = rec.call(ms.nearfields, K, t64(P * s), **kw)
    o = dict(a=to_np(co["a_n"])[:, 0, 0], b=to_np(co["b_n"])[:, 0, 0], S1=to_np(an["S1"])[0, 0], S2=to_np(an["S2"])[0, 0], iu=to_np(an["i_unpol"])[0, 0])
    g = np.pi * r[-1] ** 2
    for q in ("ext", "sca", "abs"):
        o["cs_" + q] = to_np(cs["cs_" + q])[0, 0] / s**2
        o["qg_" + q] = to_np(cs["q_" + q])[0, 0] * g / s**2
        o["mp_" + q] = to_np(cs[f"cs_{q}_multipoles"])[:, :, 0, 0] / s**2
    for f in FIELDS:
        o[f] = to_np(nf[f])[0, 0] / (h if f[0] == "H" else 1.0)
    o["outside"] = np.sqrt((P**2).sum(1)) * s > r[-1]
    return o


def run(cfg, rec):
    if cfg["part"] == "contrast":
        return run_contrast(cfg, rec)
    if cfg["part"] == "thin":
        return run_thin(cfg, rec)
    c = Config(cfg["x"], cfg["stack"], "even", 1.33)
    grow = float(np.prod([m[1] for m in cfg["seq"] if m[0] == "coat"]))
    n_max = wiscombe(min(grow * 1.05, 5.2) * cfg["x"]) + 8  # the incident wave is expanded in added host layers
    d0 = (list(c.r), list(c.n), c.n_env, c.k0, 1.0, 1.0)
    R = c.r[-1]
    pts = [p for i, rad in enumerate([0.5 * c.r[0]] + [0.5 * (a + b) for a, b in zip(c.r, c.r[1:])] + [1.15 * R, 1.9 * R, 5 * R]) for p in (octants(rad)[i % 8], octants(rad)[(i + 3) % 8])]
    pts += [(0.0, 0.0, 1.2 * R), (0.0, 0.0, -0.3 * c.r[0]), (1.6 * R, 0.0, 0.0), octants(0.04 * c.r[0])[5], (0.0, 0.01 * c.r[0], 0.0)]
    P = np.array(pts)
    a = observe(rec, d0, n_max, P)
    d = d0
    for m in cfg["seq"]:
        d = apply(d, m)
    b = observe(rec, d, n_max, P)
    nn = np.arange(1, n_max + 1)
    # strongly suppressed orders: relative to what a particle of the outer size can scatter in that order
    X = d[3] * d[2] * d[0][-1]
    unit = np.minimum(1.0, np.abs(spherical_jn(nn, X) / (spherical_jn(nn, X) + 1j * spherical_yn(nn, X))))
    for q in ("a", "b"):
        rec.close(f"{q}_n", b[q], a[q], rtol=1e-7, atol=1e-10 * unit + 1e-280)
    big = max(np.abs(a["a"]).max(), np.abs(a["b"]).max(), 1e-3 * unit[0])
    for q in ("a", "b"):
        rec.close(f"{q}_n", b[q], a[q], rtol=0, atol=1e-9 * big)
    top = float(a["cs_ext"]) if "g" not in cfg["stack"] else float(max(abs(a["cs_ext"]), a["cs_sca"]))
    top = max(top, 1e-3 * 6 * np.pi / (c.k0 * c.n_env) ** 2 * unit[0])
    for q in ("ext", "sca", "abs"):
        for p in ("cs_", "qg_"):
            rec.close(p + q, b[p + q], a[p + q], rtol=1e-8, atol=1e-9 * top)
        rec.close("multipoles " + q, b["mp_" + q], a["mp_" + q], rtol=1e-8, atol=1e-9 * top)
    m = max(np.abs(a["S1"]).max(), 1e-3 * unit[0])
    for q, s in (("S1", m), ("S2", m), ("iu", m * m)):
        rec.close(q, b[q], a[q], rtol=1e-8, scale=s)
    hs = c.n_env
    for f in FIELDS:
        ok = (a["outside"] == b["outside"]) | (f[-1] == "t") | (f[-1] == "i")
        rec.close(f, b[f][ok], a[f][ok], rtol=1e-7, scale=np.maximum(fmax(a[f][ok]), 1e-2 * (hs if f[0] == "H" else 1.0)))


def run_contrast(cfg, rec):
    L, x, host = cfg["L"], cfg["x"], cfg["host"]
    n_max = wiscombe(3 * x) + 6
    P = np.array(octants(60.0)[:3] + octants(130.0)[:3])
    base = None
    for dec in [0] + list(range(3, 12)):
        delta = 0.0 if dec == 0 else 10.0**-dec
        w = [1.0, -0.5, 2.0][:L]
        n = [host * (1 + delta * q * (1 if cfg["kind"] == "index" else 1j * abs(q) / q)) for q in w]
        c = Config(x, n, "even", host)
        o = observe(rec, (list(c.r), list(c.n), host, c.k0, 1.0, 1.0), n_max, P)
        co = np.concatenate([o["a"], o["b"]])
        if dec == 0:
            rec.close("coefficients without contrast", co, 0 * co, atol=1e-12)
            rec.close("extinction without contrast", o["cs_ext"], 0.0, atol=1e-12 * np.pi * 1e4)
            rec.close("total field without contrast", o["E_t"], o["E_i"], rtol=1e-9, scale=1.0)
            rec.close("total field without contrast", o["H_t"], o["H_i"], rtol=1e-9, scale=host)
            continue
        if base is None:
            base = co / delta
            top = np.abs(base).max()
            continue
        # coefficients are proportional to the contrast
        rec.close(f"coefficients at contrast 1e-{dec}", co / delta, base, rtol=0, atol=top * (2e-2 * x + 2e-2) + 1e-12 / delta)
        rec.close(f"scattering at contrast 1e-{dec}", np.sqrt(max(float(o["cs_sca"]), 0)) * c.k0 * host / delta, 0.0, atol=10 * top * n_max + 1e-11 / delta)
        rec.close(f"field at contrast 1e-{dec}", o["E_t"], o["E_i"], atol=30 * delta * (1 + x) + 1e-9)


def run_thin(cfg, rec):
    c = Config(cfg["x"], cfg["stack"], "even", 1.0)
    n_max = wiscombe(cfg["x"])
    P = np.array(octants(0.23 * 100)[:2] + octants(70.0)[:2] + octants(140.0)[:3])
    ref = observe(rec, (list(c.r), list(c.n), 1.0, c.k0, 1.0, 1.0), n_max, P)
    w, film = cfg["where"], N[cfg["film"]]
    first = {}
    for dec in range(3, 13):
        g = 10.0**-dec
        if w == len(c.r):  # a coating of the whole particle
            r, n = c.r[:-1] + [c.r[-1] * (1 - g), c.r[-1]], c.n + [film]
        else:  # a film below the outer radius of layer w
            r = c.r[:w] + [c.r[w] * (1 - g)] + c.r[w:]
            n = c.n[:w] + [c.n[w], film] + c.n[w + 1 :]
            if w + 1 < len(c.r):
                r = c.r[:w] + [c.r[w] * (1 - g)] + c.r[w:]
        o = observe(rec, (r, n, 1.0, c.k0, 1.0, 1.0), n_max, P)
        for q, s in (("a", 1.0), ("b", 1.0), ("S1", np.abs(ref["S1"]).max()), ("cs_ext", ref["cs_ext"]), ("cs_sca", ref["cs_sca"]), ("E_t", 1.0), ("H_t", 1.0)):
            dist = float(np.max(np.abs(o[q] - ref[q]))) / float(s)
            if dec == 3:
                first[q] = dist
            else:
                # the difference vanishes in proportion to the thickness
                rec.close(f"{q} with a film of relative thickness 1e-{dec}", dist, 0.0, atol=10 * max(first.values()) * g / 1e-3 + 1e-8)
