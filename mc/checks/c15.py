"""C15: the coupled-dipole bridge reproduces the Mie solution."""
import contextlib
import io
import math
import warnings

import numpy as np
import torch

import torchgdm as tgm
import pymiediff.helper.tg as h
from mc.checks.c12 import fork
from mc.oracle import Sphere
from mc.world import C, F, N, PI, pmd, t64, tc, to_np

LEVEL = "model_checking"
CHUNK = 1
RULE = (
    "Every combination of particle (one to five layers, layered or legacy interface, dispersive materials), host, wavelength list, solver, position, illumination plane, angle and polarisation "
    "is turned into a structure of the coupled-dipole solver, simulated, and cross sections and fields compared with an independent Mie solution rotated and shifted into the same illumination. "
    "Several particles: every sequence of structures up to the stated length, built in every way, combined by every combiner. The patched coupled solver is compared with the original one on every scene."
)
BOUNDS = {
    "quick": "8 particles x 3 hosts x 4 wavelength lists x solvers; 2 planes x 5 angles x 4 polarisations; scenes of up to 2 structures; extraction options: 3 x 3",
    "thorough": "8 particles x 4 hosts x 5 wavelength lists; 2 planes x 9 angles x 6 polarisations; scenes of up to 3 structures; extraction options",
}
ASSUMPTIONS = [
    "torchgdm computes in single precision; the oracle for the point polarisability is the Mie series cut after the dipole terms",
    "the generalised polarisability matrix is a least-squares model: its error on 3 to 6 wavelength-sized particles with the default support is below 1e-2 of the largest field (measured 1e-3)",
    "fields are compared outside the sphere on which the model is valid (torchgdm returns zeros or internal fields closer by)",
]

P = {  # radii, indices (or materials)
    "d": ([60.0], ["d40"]),
    "a": ([55.0], ["a"]),
    "cm": ([40.0, 60.0], ["d15", "m"]),
    "dd": ([30.0, 60.0], ["d40", "d15"]),
    "3": ([20.0, 40.0, 60.0], ["d15", "m", "d40"]),
    "5": ([10.0, 20.0, 30.0, 45.0, 60.0], ["v", "d40", "a", "d15", "d40"]),
    "Au": ([50.0], ["Au"]),
    "SiAu": ([45.0, 60.0], ["Si", "Au"]),
}
HOSTS = [1.0, 1.33, 2.0, 1.7]
WLS = {"1": [600.0], "2": [500.0, 700.0], "2r": [700.0, 500.0], "3": [900.0, 450.0, 600.0], "0d": 550.0, "4": [420.0, 500.0, 640.0, 1100.0]}
WLIST = ["1", "2", "3", "0d", "4"]
PLANES = ["xz", "yz"]
ANGLES = [0.0, 0.4, PI / 2, PI, 4.0, 2.2, -0.7, 5.5, 3 * PI / 2]
POLS = [(1.0, 0.0), (0.0, 1.0), (0.6, 0.8j), (0.5 + 0.5j, 0.3), (1.0, 1.0), (-2.0, 0.5)]
R0 = [None, [30.0, -120.0, 75.0], [-400.0, 0.0, 10.0]]
PTS = np.array([[100.0, 80.0, 90.0], [-150.0, 20.0, -60.0], [0.0, 0.0, 170.0], [0.0, -190.0, 0.0], [160.0, 0.0, 0.0], [-700.0, 900.0, 2000.0], [90.0, -100.0, -120.0]])


def gen(ch, tier):
    T = tier == "thorough"
    part = ch.pick("part", ["gradient", "gpm", "multi", "illum", "patch", "reject", "coef", "pola", "wave", "options"])
    hosts = HOSTS if T else HOSTS[:3]
    if part == "coef":
        p = ch.pick("particle", list(P))
        return dict(part=part, p=p, host=ch.pick("host", hosts), wl=ch.pick("wl", WLIST), n_max=ch.pick("n_max", [2, 1, 3, 6]),
                    backend=ch.pick("backend", [None, "pena"] + (["torch", "scipy"] if len(P[p][0]) < 3 else [])), given=ch.pick("n_env", [False, True]), T=T)
    if part == "pola":
        return dict(part=part, p=ch.pick("particle", list(P)), host=ch.pick("host", hosts), wl=ch.pick("wl", WLIST), r0=ch.pick("r0", R0), backend=ch.pick("backend", [None, "pena"]),
                    api=ch.pick("api", ["layers", "legacy"]), T=T)
    if part == "illum":
        m = ch.pick("model", ["pola", "gpm"])
        c = dict(part=part, model=m, p=ch.pick("particle", ["cm", "3"]), plane=ch.pick("plane", PLANES), r0=ch.pick("r0", R0[:2]), T=T)
        na, npol = (9, 6) if T else (6, 4)
        # one model serves many illuminations: enumerate them inside the execution when building it is the expensive part
        c["angles"] = [ch.pick("angle", list(range(na)))] if m == "pola" else list(range(na))
        c["pols"] = [ch.pick("pol", list(range(npol)))] if m == "pola" else list(range(npol))
        return c
    if part == "wave":
        return dict(part=part, p=ch.pick("particle", ["cm", "3", "a"]), plane=ch.pick("plane", ["xz", "yz", "xy"]), angle=ch.pick("angle", ANGLES[: 9 if T else 6]), pol=ch.pick("pol", ["s", "p"]),
                    host=ch.pick("host", hosts), n_max=ch.pick("n_max", [None, 1, 3]), T=T)
    if part == "options":
        return dict(part=part, n=ch.pick("n_src_pw_angles", [3, 5, 6]), add=ch.pick("r_probe_add", [None, 5.0, 60]), order=ch.pick("n_max", [None, 2] if T else [None]), wl=ch.pick("wl", ["2r", "1"] if T else ["2r"]),
                    r0=ch.pick("r0", R0[:2] if T else R0[1:2]), talk=ch.pick("talk", [False, True]) if T else ch.pick("talk", [True]), T=T)
    if part == "gpm":
        c = dict(part=part, vary=ch.pick("vary", ["particle", "model"]), T=T)
        if c["vary"] == "particle":
            c.update(p=ch.pick("particle", list(P) if T else ["cm", "d", "3", "SiAu"]), host=ch.pick("host", hosts), wl=ch.pick("wl", ["3", "1", "0d"] if T else ["2r"]), backend=ch.pick("backend", [None, "pena"] if T else [None]),
                     support="36", n_max=None, probe="default")
        else:
            c.update(p=ch.pick("particle", ["cm", "3", "a"] if T else ["3"]), host=1.33, wl="1", backend=None, support=ch.pick("support", ["36", "tensor", "None", "25.0", "as many as probes"]), n_max=ch.pick("n_max", [None, 1, 2]),
                     probe=ch.pick("probe", ["default", "given"]))
            if c["support"] == "as many as probes":
                if c["probe"] != "given" or c["n_max"] is not None:
                    ch.prune()
            elif not T and (c["support"] != "36") + (c["n_max"] is not None) + (c["probe"] != "default") > 1:
                ch.prune()
        return c
    if part == "multi":
        n, m = ch.pick("count", [2, 3] if T else [2]), ch.pick("model", ["pola", "gpm"])
        small = m == "gpm" and not T
        return dict(part=part, model=m, ps=[ch.pick(f"p{i}", ["cm", "3"] if small else ["cm", "3", "d"]) for i in range(n)], combiner=ch.pick("combiner", ["list", "autodiff", "sum"] if m == "gpm" else ["list", "sum"]),
                    gap=ch.pick("gap", ["near"] if small else ["near", "far"]), T=T)
    if part == "patch":
        n = ch.pick("count", [1, 2, 3] if T else [1, 2])
        return dict(part=part, scene=[ch.pick(f"s{i}", ["pola", "gpm", "volume"]) for i in range(n)], host=ch.pick("host", hosts[:2]), solver=ch.pick("solver", ["default", "inverse"]), batch=ch.pick("batch", [32, 1]), T=T)
    if part == "gradient":
        m = ch.pick("model", ["pola", "gpm"])
        small = m == "gpm" and not T
        return dict(part=part, model=m, p=ch.pick("particle", ["cm", "3"] if small else ["cm", "3", "d"]), host=ch.pick("host", [1.33] if small else hosts[:2]), scene=ch.pick("scene", ["one", "two"]), T=T)
    return dict(part=part, case=ch.pick("case", ["dispersive host", "wrong n_env", "wrong n_env gpm", "not a particle", "not a particle gpm", "empty list", "plane", "polarisation", "quadrupole warning", "no warning"]), T=T)


# ------------------------------------------------------------------ building
def materials(names):
    return [pmd.materials.MatDatabase(q) if q in ("Au", "Si") else pmd.materials.MatConstant(complex(N[q]) ** 2) for q in names]


def build(p, host=1.0, api="layers", r=None, eps=None):
    rad, names = P[p]
    rad = t64(rad) if r is None else r
    if eps is not None:
        return pmd.Particle(r_layers=rad, eps_layers=eps, mat_env=host)
    if api == "legacy":
        m = materials(names)
        return pmd.Particle(r_core=rad[0], mat_core=m[0], r_shell=rad[1] if len(m) > 1 else None, mat_shell=m[1] if len(m) > 1 else None, mat_env=host)
    if any(q in ("Au", "Si") for q in names):
        return pmd.Particle(r_layers=rad, mat_layers=materials(names), mat_env=host)
    return pmd.Particle(r_layers=rad, eps_layers=tc([complex(N[q]) ** 2 for q in names]), mat_env=host)


def wl32(wl):
    """the wavelengths as the coupled-dipole solver (single precision) sees them"""
    return [float(torch.tensor(w, dtype=torch.float32)) for w in (wl if isinstance(wl, list) else [wl])]


def oracle(p, host, w, n_max, r=None, eps=None):
    rad, names = P[p]
    if eps is None:
        n = []
        for q in names:
            if q in ("Au", "Si"):
                n.append(complex(np.sqrt(complex(to_np(pmd.materials.MatDatabase(q).get_epsilon(wavelength=t64([w]))).ravel()[0]))))
            else:
                n.append(complex(N[q]))
    else:
        n = [complex(np.sqrt(complex(e))) for e in eps]
    return Sphere(2 * PI / w, [float(v) for v in (rad if r is None else r)], n, host, n_max)


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def structure(model, part, wl, **kw):
    if model == "pola":
        return h.StructAutodiffMieEffPola3D(part, wavelengths=wl, verbose=False, **kw)
    return h.StructAutodiffMieGPM3D(part, wavelengths=wl, r_gpm=kw.pop("r_gpm", 36), verbose=False, progress_bar=False, **kw)


CHEAP = dict(r_gpm=16, n_src_pw_angles=6)
_cache = {}


def cached(model, p, host, wl, r0=None, **kw):
    """structures that several executions share (never modified by them)"""
    key = repr((model, p, host, wl, r0, sorted(kw.items())))
    if key not in _cache:
        _cache[key] = structure(model, build(p, host), torch.tensor(wl), r0=r0, **(kw if model == "gpm" else {}))
    return _cache[key]


def sim_for(structs, host, illum, wl, solver="default", batch=32):
    ls = "default"
    if solver == "inverse":
        ls = tgm.linearsystem.LinearSystemFullInverse()
    sim = tgm.simulation.Simulation(
        structures=structs, environment=tgm.env.freespace_3d.EnvHomogeneous3D(env_material=host**2), illumination_fields=[tgm.env.freespace_3d.PlaneWave(**k) for k in illum], wavelengths=wl, linearsystem=ls,
    )
    sim.run(verbose=False, progress_bar=False, batch_size=batch)
    return sim


def sections(S):
    ext, sca = (float(q.sum()) for q in S.cross_sections())
    return dict(cs_ext=ext, cs_sca=sca, cs_abs=ext - sca)


def rotated(S, e, k, pts):
    """E_s, H_s, E_i, H_i of the sphere for a plane wave along k polarised along e (independent of the library)"""
    R = np.stack([e, np.cross(k, e), k])
    E, H = S.fields(pts @ R.T, True)
    ph = np.exp(1j * S.k0 * S.n_env * (pts @ k))[:, None]
    return [E @ R, H @ R, ph * e, S.n_env * ph * np.cross(k, e)]


def reference(S, illum, pts, r0=None):
    pw = tgm.env.freespace_3d.PlaneWave(**illum)
    k, es, ep = [to_np(v).real.astype(float) for v in (pw.k_vec_unit, pw.e0s_vec_unit, pw.e0p_vec_unit)]
    k, es, ep = k / np.linalg.norm(k), es / np.linalg.norm(es), ep / np.linalg.norm(ep)
    r0 = np.zeros(3) if r0 is None else np.asarray(r0)
    out = [0, 0, 0, 0]
    for amp, e in ((illum["e0p"], ep), (illum["e0s"], es)):
        f = rotated(S, e, k, np.asarray(pts) - r0)
        out = [a + amp * b for a, b in zip(out, f)]
    ph = np.exp(1j * S.k0 * S.n_env * (k @ r0))
    return [ph * v for v in out]


ILL = [dict(e0p=1.0, e0s=0.0, inc_angle=0.3), dict(e0p=0.3, e0s=1j, inc_angle=2.0, inc_plane="yz")]


def compare(rec, sim, p, host, wl, illum, r0, n_max, tol, tol_cs, model):
    with quiet():
        cs = sim.get_spectra_crosssections(progress_bar=False)
    pts = PTS + (0 if r0 is None else np.asarray(r0))
    for j, w in enumerate(wl32(wl)):
        S = oracle(p, host, w, n_max)
        ref = sections(S)
        with quiet():
            nf = sim.get_nearfield(w, r_probe=torch.as_tensor(pts, dtype=torch.float32), progress_bar=False)
        for i, il in enumerate(illum):
            power = abs(il["e0p"]) ** 2 + abs(il["e0s"]) ** 2
            # torchgdm's scattering / absorption split is not defined for non-local polarisabilities
            for key, name in (("ecs", "cs_ext"), ("scs", "cs_sca"), ("acs", "cs_abs"))[: 3 if n_max == 1 and model == "pola" else 1]:
                # the result of one illumination has no illumination axis in some torchgdm versions
                got = to_np(cs[key]).reshape(len(wl32(wl)), len(illum))[j, i]
                rec.close(f"{key}[{w:g}]", got, float(ref[name]) * power, rtol=tol_cs, scale=float(ref["cs_ext"]) * power)
            rf = reference(S, il, pts, r0)
            got = [nf["sca"].efield[i], nf["sca"].hfield[i], nf["inc"].efield[i], nf["inc"].hfield[i]]
            for name, a, b in zip(("E_s", "H_s", "E_i", "H_i"), got, rf):
                rec.close(f"{name}[{w:g}]", to_np(a), b, rtol=tol if name[2] == "s" else 1e-4, scale=np.abs(b).max(-1, keepdims=True) + (0.05 * np.abs(rf[0 if name[0] == "E" else 1]).max() if n_max > 1 else 0))


def run(cfg, rec):
    torch.set_num_threads(1)
    with quiet():
        globals()["run_" + cfg["part"]](cfg, rec)


def run_coef(cfg, rec):
    p, host = cfg["p"], cfg["host"]
    part = build(p, host)
    kw = dict(n_max=cfg["n_max"], backend=cfg["backend"])
    if cfg["given"]:
        kw["n_env"] = host
    wl = WLS[cfg["wl"]]
    a, b = rec.call(h.mie_ab_sphere_3d_AD, part, torch.tensor(wl), **kw)
    d = rec.call(h.mie_ab_sphere_3d_AD, part, torch.tensor(wl, dtype=F), as_dict=True, **kw)
    ws = wl32(wl)
    rec.true("shape", tuple(a.shape) == tuple(b.shape) == (len(ws), cfg["n_max"]), f"{tuple(a.shape)} {tuple(b.shape)}")
    for j, w in enumerate(ws):
        S = oracle(p, host, w, cfg["n_max"])
        rec.close(f"a[{w:g}]", to_np(a)[j], S.a, rtol=2e-5, scale=np.abs(S.a) + S.scale)
        rec.close(f"b[{w:g}]", to_np(b)[j], S.b, rtol=2e-5, scale=np.abs(S.b) + S.scale)
    rec.close("a (dict)", d["a_n"], to_np(a), rtol=1e-12)
    rec.close("b (dict)", d["b_n"], to_np(b), rtol=1e-12)
    rec.close("n_env", to_np(d["n_env"]).reshape(-1), np.full(len(ws), host), rtol=1e-6)
    rec.close("r_enclosing", float(d["r_enclosing"]), P[p][0][-1], rtol=1e-6)
    rec.close("wavelengths", d["wavelengths"], np.array(ws), rtol=1e-6)
    rec.close("environment", float(to_np(d["environment"].get_environment_permittivity_scalar(ws[0], r_probe=torch.zeros((1, 3)))).ravel()[0].real), host**2, rtol=1e-6)


def run_pola(cfg, rec):
    p, host, wl = cfg["p"], cfg["host"], WLS[cfg["wl"]]
    if cfg["api"] == "legacy" and len(P[p][0]) > 2:
        rec.true("nothing", True)
        return
    part = build(p, host, cfg["api"])
    s = rec.call(structure, "pola", part, torch.tensor(wl), r0=cfg["r0"], backend=cfg["backend"])
    rec.close("position", to_np(s.get_all_positions()).reshape(3), np.array(cfg["r0"] or [0.0, 0.0, 0.0]), rtol=1e-6)
    for w in wl32(wl):
        S = oracle(p, host, w, 2)
        al = to_np(s.get_polarizability_6x6(w, s.environment)).reshape(6, 6)
        k0 = 2 * PI / w
        ref = np.diag([1.5j * S.a[0] / k0**3 / host] * 3 + [1.5j * S.b[0] / k0**3 / host**3] * 3)
        nat = 1.5 / k0**3 / host * S.scale[0]
        rec.close(f"alpha[{w:g}]", al, ref, rtol=5e-5, scale=np.abs(ref) + 1e-2 * nat)
    sim = sim_for([s], host, ILL, torch.tensor(wl))
    compare(rec, sim, p, host, wl, ILL, cfg["r0"], 1, 2e-4, 2e-4, "pola")


def run_illum(cfg, rec):
    p, host, wl = cfg["p"], 1.33, [600.0]
    ill = [dict(e0p=POLS[i][0], e0s=POLS[i][1], inc_angle=ANGLES[j], inc_plane=cfg["plane"]) for j in cfg["angles"] for i in cfg["pols"]]
    s = rec.call(structure, cfg["model"], build(p, host), torch.tensor(wl), r0=cfg["r0"], **({} if cfg["model"] == "pola" or cfg["T"] else dict(n_src_pw_angles=6)))
    sim = sim_for([s], host, ill, torch.tensor(wl))
    g = cfg["model"] == "gpm"
    compare(rec, sim, p, host, wl, ill, cfg["r0"], 10 if g else 1, 2e-2 if g else 2e-4, 1e-2 if g else 2e-4, cfg["model"])


def frame(plane, angle, pol):
    s, c = math.sin(angle), math.cos(angle)
    k = dict(xz=[s, 0, c], yz=[0, s, c], xy=[s, c, 0])[plane]
    e = dict(xz=dict(s=[0, 1, 0], p=[-c, 0, s]), yz=dict(s=[1, 0, 0], p=[0, -c, s]), xy=dict(s=[0, 0, 1], p=[-c, s, 0]))[plane][pol]
    return np.array(e, float), np.array(k, float)


def run_wave(cfg, rec):
    p, host = cfg["p"], cfg["host"]
    part = build(p, host)
    conf = dict(angle=torch.tensor(cfg["angle"]), inc_plane=cfg["plane"], polarization=cfg["pol"])
    rot = to_np(rec.call(h._plane_wave_rotation, cfg["angle"], cfg["plane"], cfg["pol"], "cpu")).astype(float)
    rec.close("rotation orthogonal", rot @ rot.T, np.eye(3), rtol=1e-6, scale=1.0)
    rec.close("rotation proper", np.linalg.det(rot), 1.0, rtol=1e-6)
    e, k = frame(cfg["plane"], cfg["angle"], cfg["pol"])
    rec.close("propagation", rot @ [0, 0, 1.0], k, rtol=1e-6, scale=1.0)
    rec.close("polarisation", rot @ [1.0, 0, 0], e, rtol=1e-6, scale=1.0)
    w = 600.0
    gpm = PTS[:4] * 0.7 + 3.0
    got = rec.call(h._eval_mie, part, conf, torch.tensor(2 * PI / w), torch.as_tensor(PTS, dtype=torch.float32), torch.as_tensor(gpm, dtype=torch.float32), n_max=cfg["n_max"])
    S = oracle(p, host, w, cfg["n_max"] or 14)
    s1 = rotated(S, e, k, PTS)
    for name, a, b in zip(("E_s", "H_s"), got[:2], s1[:2]):
        rec.close(name, a, b, rtol=1e-4, scale=np.abs(b).max(-1, keepdims=True))
    # the illumination is the full plane wave, or its expansion to the order asked for
    if cfg["n_max"] is None:
        s2 = rotated(S, e, k, gpm)
        for name, a, b in zip(("E_i", "H_i"), got[2:], s2[2:]):
            rec.close(name, a, b, rtol=1e-3, scale=1.0)


def run_options(cfg, rec):
    """the structure is the extracted model with the options it was given"""
    wl = torch.tensor(WLS[cfg["wl"]])
    kw = dict(n_src_pw_angles=cfg["n"])
    if cfg["add"] is not None:
        kw["r_probe_add"] = cfg["add"]
    if cfg["order"] is not None:
        kw["n_max"] = cfg["order"]
    i = np.arange(12) + 0.5
    th, ph = np.arccos(1 - 2 * i / 12), PI * (1 + 5**0.5) * i
    sup = 0.6 * 60.0 * np.stack([np.cos(ph) * np.sin(th), np.sin(ph) * np.sin(th), np.cos(th)], -1)
    kw["r_gpm"] = torch.as_tensor(sup, dtype=torch.float32)
    d = rec.call(h.extract_GPM_sphere_miediff, build("cm", 1.33), wl, verbose=cfg["talk"], progress_bar=cfg["talk"], **kw)
    ws = sorted(wl32(WLS[cfg["wl"]]))
    rec.close("wavelengths", d["wavelengths"], np.array(ws), rtol=1e-6)
    rec.close("k0", d["k0_spectrum"], 2 * PI / np.array(ws), rtol=1e-6)
    rec.close("enclosing radius", float(d["enclosing_radius"]), 60.0, rtol=1e-6)
    rec.close("support", d["r_gpm"], sup, rtol=1e-5, scale=60.0)
    rec.close("distance of the extraction points", np.linalg.norm(to_np(d["extraction_r_probe"]), axis=-1), np.full(len(d["extraction_r_probe"]), 60.0 + (20.0 if cfg["add"] is None else cfg["add"])), rtol=1e-5)
    rec.true("dummy geometry inside the particle", float(np.linalg.norm(to_np(d["full_geometry"]), axis=-1).max()) < 60.0 * 1.2)
    rec.true("shape", tuple(d["GPM_N6xN6"].shape) == (len(ws), 72, 72), str(tuple(d["GPM_N6xN6"].shape)))
    for w in ws:
        rec.close("environment", float(to_np(d["environment"].get_environment_permittivity_scalar(w, r_probe=torch.zeros((1, 3)))).ravel()[0].real), 1.33**2, rtol=1e-6)
    s = rec.call(h.StructAutodiffMieGPM3D, build("cm", 1.33), wl, r0=cfg["r0"], verbose=cfg["talk"], progress_bar=cfg["talk"], **kw)
    rec.close("positions", np.sort(to_np(s.get_all_positions()), 0), np.sort(sup + np.array(cfg["r0"] or [0.0, 0.0, 0.0]), 0), rtol=1e-5, scale=200.0)
    ref = to_np(d["GPM_N6xN6"])
    for name, q in (("model", s), ("model, silent", h.StructAutodiffMieGPM3D(build("cm", 1.33), wl, verbose=False, progress_bar=False, **kw))):
        rec.close(name, to_np(q.gpm_dict[0]["GPM_N6xN6"]), ref, rtol=1e-3, scale=np.abs(ref).max())


def run_gpm(cfg, rec):
    p, host, wl = cfg["p"], cfg["host"], WLS[cfg["wl"]]
    kw = dict(n_max=cfg["n_max"], backend=cfg["backend"])
    sup = cfg["support"]
    if sup in ("tensor", "as many as probes"):
        m = 30 if sup == "tensor" else 200  # the number of given probes
        i = np.arange(m) + 0.5
        th, ph = np.arccos(1 - 2 * i / m), PI * (1 + 5**0.5) * i
        kw["r_gpm"] = torch.as_tensor(0.6 * P[p][0][-1] * np.stack([np.cos(ph) * np.sin(th), np.sin(ph) * np.sin(th), np.cos(th)], -1), dtype=torch.float32)
    else:
        kw["r_gpm"] = {"36": 36, "None": None, "25.0": 25.0}[sup]
    if cfg["probe"] == "given":
        i = np.arange(200) + 0.5
        th, ph = np.arccos(1 - 2 * i / 200), PI * (1 + 5**0.5) * i
        kw["r_probe"] = torch.as_tensor((P[p][0][-1] + 40.0) * np.stack([np.cos(ph) * np.sin(th), np.sin(ph) * np.sin(th), np.cos(th)], -1), dtype=torch.float32)
    if not cfg["T"] and cfg["vary"] == "particle":
        kw["n_src_pw_angles"] = 9
    s = rec.call(structure, "gpm", build(p, host), torch.tensor(wl), **kw)
    sim = sim_for([s], host, ILL, torch.tensor(wl))
    compare(rec, sim, p, host, wl, ILL, None, cfg["n_max"] or 10, 2e-2, 1e-2, "gpm")


def positions(n, gap):
    d = 2500.0 if gap == "far" else 260.0
    return [[0.0, 0.0, 0.0], [d, 20.0, -30.0], [-40.0, d, 60.0]][:n]


def total(sim, w, pts):
    with quiet():
        nf = sim.get_nearfield(w, r_probe=torch.as_tensor(pts, dtype=torch.float32), progress_bar=False)
        cs = sim.get_spectra_crosssections(progress_bar=False)
    return [to_np(nf["sca"].efield), to_np(nf["sca"].hfield)], [to_np(cs[q]).ravel() for q in ("ecs", "scs", "acs")]


def cluster(ps, pos, host, w, illum, pts, lmax):
    """multiple scattering by the T-matrix method: library independent of both pymiediff and torchgdm"""
    import treams

    k0 = 2 * PI / w
    tms = []
    for p in ps:
        S = oracle(p, host, w, lmax)
        mats = [treams.Material(complex(q) ** 2) for q in S.n] + [treams.Material(host**2)]
        tms.append(treams.TMatrix.sphere(lmax, k0, list(S.r), mats))
    tm = treams.TMatrix.cluster(tms, np.array(pos)).interaction.solve()
    pw = tgm.env.freespace_3d.PlaneWave(**illum)
    k, es, ep = [to_np(v).real.astype(float) for v in (pw.k_vec_unit, pw.e0s_vec_unit, pw.e0p_vec_unit)]
    inc = treams.plane_wave(list(k * k0 * host), pol=list(illum["e0p"] * ep + illum["e0s"] * es), k0=tm.k0, material=tm.material)
    sca = tm @ inc.expand(tm.basis)
    return np.asarray(sca.efield(np.asarray(pts)))


def run_multi(cfg, rec):
    ps, host, w = cfg["ps"], 1.33, 600.0
    pos = positions(len(ps), cfg["gap"])
    wl = torch.tensor([w])
    model = cfg["model"]
    st = [cached(model, p, host, [w], q, r_gpm=36, n_src_pw_angles=6) for p, q in zip(ps, pos)]
    if cfg["combiner"] == "list":
        structs = st
    elif cfg["combiner"] == "autodiff":
        both = rec.call(h.combine_gpm_structures_autodiff, st)
        rec.close("positions", both.get_all_positions(), np.concatenate([to_np(q.get_all_positions()) for q in st]), rtol=1e-5, scale=1.0)
        rec.true("device", str(both.device) == str(st[0].device))
        structs = [both]
    else:
        q = st[0]
        for s in st[1:]:
            q = q.combine(s)
        structs = [q]
    sim = sim_for(structs, host, ILL, wl)
    pts = np.concatenate([PTS + np.array(q) for q in pos])
    keep = [all(np.linalg.norm(v - np.array(q)) > 125.0 for q in pos) for v in pts]
    pts = pts[keep]
    (E, H), _ = total(sim, w, pts)
    for i, il in enumerate(ILL):
        ref = cluster(ps, pos, host, w, il, pts, 1 if model == "pola" else 8)
        tol = 1e-3 if model == "pola" else 2e-2
        rec.close(f"E_s[{i}]", E[i], ref, rtol=tol, scale=np.abs(ref).max(-1, keepdims=True) + 0.05 * np.abs(ref).max())


def scene(names, host, wl):
    out = []
    for name, q in zip(names, positions(3, "near")):
        if name == "volume":
            step = 25.0
            s = tgm.struct3d.StructDiscretizedCubic3D(tgm.struct3d.cuboid(l=3, w=2, h=2), step, tgm.materials.MatConstant(12.0))
            s = s.translate(torch.tensor(q))
        else:
            s = cached(name, {"pola": "3", "gpm": "cm"}[name], host, wl, q, **CHEAP)
        out.append(s)
    return out


def run_patch(cfg, rec):
    wl = torch.tensor([600.0, 800.0])
    structs = scene(cfg["scene"], cfg["host"], [600.0, 800.0])
    pts = np.array([[150.0, 300.0, -200.0], [-250.0, 10.0, 420.0], [100.0, -350.0, 30.0]])

    def go(patched):
        torch.set_num_threads(1)
        with quiet():
            if patched:
                h.patch_torchgdm_autodiff()
                if patched == 2:
                    h.patch_torchgdm_autodiff()
            sim = sim_for(structs, cfg["host"], ILL + [dict(e0p=0.0, e0s=1.0, inc_angle=1.0)], wl, cfg["solver"], cfg["batch"])
            out = []
            for w in (600.0, 800.0):
                f, cs = total(sim, w, pts)
                out += f + cs
                out += [to_np(sim.fields_inside[w].efield), to_np(sim.fields_inside[w].hfield)]
            return out

    res = [rec.call(fork, go, k) for k in (0, 1, 2)]
    for k, (ok, v) in enumerate(res):
        if not ok:
            rec.fail(f"simulation {'with' if k else 'without'} the patch failed: {v}")
            return
    for k in (1, 2):
        for i, (a, b) in enumerate(zip(res[k][1], res[0][1])):
            rec.close(f"quantity {i}", a, b, rtol=1e-4, scale=np.abs(b).max() + 1e-30)


GPTS = np.array([[150.0, 80.0, 90.0], [-150.0, 120.0, -60.0]])


def observables(p, host, w, r, eps, model):
    """the quantities differentiated, from the independent solution"""
    S = oracle(p, host, w, 1 if model == "pola" else 8, r, eps)
    f = reference(S, ILL[0], GPTS)
    return np.array([sections(S)["cs_ext"], sum((np.abs(q) ** 2).sum() for q in f[:2])])


def run_gradient(cfg, rec):
    p, host, w, model = cfg["p"], cfg["host"], 600.0, cfg["model"]
    r0, eps0 = np.array(P[p][0]), np.array([complex(N[q]) ** 2 for q in P[p][1]])
    wl = [w, 700.0] if model == "pola" else [w]
    two = cfg["scene"] == "two"
    kw = dict(r_gpm=36, n_src_pw_angles=6) if model == "gpm" else {}
    other = cached(model, "d", host, wl, [6.0e6, 0.0, 0.0], **kw) if two else None

    def go():
        torch.set_num_threads(1)
        with quiet():
            h.patch_torchgdm_autodiff()
            r = t64(r0.tolist()).requires_grad_(True)
            re = t64(eps0.real.tolist()).requires_grad_(True)
            im = t64(eps0.imag.tolist()).requires_grad_(True)
            st = [structure(model, build(p, host, r=r, eps=torch.complex(re, im)), torch.tensor(wl), **kw)]
            if two:
                st.append(other)
                st = [h.combine_gpm_structures_autodiff(st)] if model == "gpm" else [st[0].combine(st[1], inplace=True)]
            sim = sim_for(st, host, ILL[:1], torch.tensor(wl))
            ecs = sim.get_spectra_crosssections(progress_bar=False)["ecs"].reshape(-1)[0]
            nf = sim.get_nearfield(w, r_probe=torch.as_tensor(GPTS, dtype=torch.float32), progress_bar=False)
            near = (nf["sca"].efield.abs() ** 2).sum() + (nf["sca"].hfield.abs() ** 2).sum()
            g = [[q.numpy() for q in torch.autograd.grad(v, (r, re, im), retain_graph=True)] for v in (ecs, near)]
            return [float(ecs), float(near)], g

    ok, out = rec.call(fork, go)
    if not ok:
        rec.fail(f"no gradient: {out}")
        return
    v, g = out
    base = observables(p, host, w, r0, eps0, model)
    if two:
        base[0] += sections(oracle("d", host, w, 1 if model == "pola" else 8))["cs_ext"]
    rec.close("value", v, base, rtol=2e-3 if model == "pola" else 2e-2)
    for k, wrt in enumerate(("r", "eps_re", "eps_im")):
        ref = np.zeros((2, len(r0)))
        for i in range(len(r0)):
            d = 1e-3 * r0[i] if wrt == "r" else 1e-4
            q = []
            for s in (1, -1):
                r, e = r0.copy(), eps0.copy()
                if wrt == "r":
                    r[i] += s * d
                else:
                    e[i] += s * d * (1 if wrt == "eps_re" else 1j)
                q.append(observables(p, host, w, r, e, model))
            ref[:, i] = (q[0] - q[1]) / (2 * d)
        for j, name in enumerate(("extinction", "near field")):
            unit = base[j] / (r0[-1] if wrt == "r" else 10.0)
            rec.close(f"d {name} / d {wrt}", g[j][k], ref[j], rtol=3e-3 if model == "pola" else 3e-2, scale=np.abs(ref[j]).max() + unit)


def run_reject(cfg, rec):
    case, wl = cfg["case"], torch.tensor([500.0, 700.0])
    part = build("cm", 1.33)
    if case == "dispersive host":
        q = pmd.Particle(r_layers=t64([50.0]), eps_layers=tc([12.0]), mat_env=pmd.materials.MatDatabase("SiO2"))
        rec.must_raise("pola", structure, "pola", q, wl)
        rec.must_raise("gpm", structure, "gpm", q, wl)
    elif case == "wrong n_env":
        rec.must_raise("n_env", structure, "pola", part, wl, n_env=2.0)
        rec.must_raise("n_env", h.mie_ab_sphere_3d_AD, part, wl, n_env=1.0)
    elif case == "wrong n_env gpm":
        rec.must_raise("n_env", structure, "gpm", part, wl, n_env=2.0)
    elif case == "not a particle":
        rec.must_raise("type", structure, "pola", "particle", wl)
        rec.must_raise("type", h.mie_ab_sphere_3d_AD, None, wl)
    elif case == "not a particle gpm":
        rec.must_raise("type", structure, "gpm", None, wl)
    elif case == "empty list":
        rec.must_raise("empty", h.combine_gpm_structures_autodiff, [])
    elif case == "plane":
        for pol in "sp":
            rec.must_raise("plane", h._plane_wave_rotation, 0.0, "zx", pol, "cpu")
    elif case == "polarisation":
        for pl in ("xz", "yz", "xy"):
            rec.must_raise("polarisation", h._plane_wave_rotation, 0.0, pl, "q", "cpu")
    else:
        big = pmd.Particle(r_layers=t64([150.0]), eps_layers=tc([12.25]), mat_env=1.0)
        S = [Sphere(2 * PI / w, [150.0], [3.5], 1.0, 2) for w in (500.0, 900.0, 3000.0)]
        tol = 2.0 if case == "no warning" else 0.15
        want_a, want_b = sum(abs(s.a[1]) > tol for s in S), sum(abs(s.b[1]) > tol for s in S)
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            rec.call(structure, "pola", big, torch.tensor([500.0, 900.0, 3000.0]), quadrupol_tol=tol)
        msgs = [str(q.message) for q in log if "quadrupole" in str(q.message)]
        rec.true("electric quadrupole warning", any("electric" in m for m in msgs) == (want_a > 0), str(msgs))
        rec.true("magnetic quadrupole warning", any("magnetic" in m for m in msgs) == (want_b > 0), str(msgs))
