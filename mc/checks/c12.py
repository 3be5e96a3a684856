"""C12: results do not depend on what was computed before (explicit histories on real objects)."""
import itertools
import os
import pickle
import shutil
import signal
import tempfile

import numpy as np
import torch

from mc.world import C, F, PI, pmd, ms, t64, tc, to_np

LEVEL = "model_checking"
CHUNK = 2
RULE = (
    "Every sequence of operations up to the stated length is executed on one set of real objects (three particles that share materials, shared argument tensors) in its own process. "
    "After every operation its result is compared with the result of the same operation on fresh objects in a fresh process (the model: no memory), the arguments, all earlier results, "
    "the public attributes and the global numerical settings must be unchanged.  Operations include lookups at coinciding and neighbouring wavelengths, every observable through every interface "
    "and solver, gradients, failing calls, changes of returned tensors and changes of public attributes.  inputs: every call x form x special values is made twice with the same arguments, which must be left bit for bit as they were."
)
BOUNDS = {
    "quick": "all sequences of length <= 2 over the full alphabet, all sequences of length 3 over the core alphabet; inputs: 7 kinds of call x 5 forms x 11 particles x 3 wavenumber sets x 4 observables x 3 solvers",
    "thorough": "length <= 3 over the full alphabet, length 4 over the core alphabet, length 5 over lookups and edits",
}
ASSUMPTIONS = [
    "single-threaded torch on the CPU is deterministic: results of the same operation agree to 1e-12 whatever preceded",
    "a change of a public attribute (radius, material, host) is part of the operation's arguments: its effect must be the same as when made on fresh objects",
    "torchgdm's own patching function changes global state by design and is not part of the alphabet (see C15)",
]


class World:
    def __init__(self):
        m = pmd.materials
        self.au = m.MatDatabase("Au")
        self.sio2 = m.MatDatabase("SiO2")
        self.c = m.MatConstant(4.0 + 0.5j)
        self.p1 = pmd.Particle(r_core=t64(60.0), mat_core=self.au, r_shell=t64(75.0), mat_shell=self.sio2, mat_env=1.33)
        self.p2 = pmd.Particle(r_layers=t64([30.0, 45.0, 70.0]).requires_grad_(True), mat_layers=[self.c, self.au, self.sio2], mat_env=self.sio2)
        self.p3 = pmd.Particle(r_layers=t64([50.0]), eps_layers=tc([12.0 + 0.1j]).requires_grad_(True), mat_env=self.c)
        self.k2 = 2 * PI / t64([500.0, 633.0])
        self.k2r = 2 * PI / t64([633.0, 500.0])
        self.k1 = t64(2 * PI / 500.0)
        self.k3 = 2 * PI / t64([500.00001, 500.5, 633.0])
        self.kg = (2 * PI / t64([500.0, 560.0])).requires_grad_(True)
        self.th = t64([0.3, 1.2, 2.9])
        self.pts = t64([[20.0, 10.0, -5.0], [90.0, 10.0, 40.0], [5.0, -52.0, 3.0]])
        self.r = t64([20.0, 45.0])
        self.eps = tc([[2.25, 2.25], [-9.0 + 1j, -12.0 + 2j]])
        self.rb = t64([[20.0, 45.0], [30.0, 100.0]])
        self.env = t64(1.0)
        self.z = tc([[0.5 + 0.1j], [3.0 - 0.2j], [12.0 + 1j]])
        self.n = torch.tensor(5)
        self.x = t64([0.4, 1.7, 2.5])
        self.w = torch.tensor([500.0, 633.0])

    def aliases(self, t):
        """results that merely hand the caller's own tensors back (k0, radii, ...) are not results"""
        own = [getattr(self, a) for a in self.ARGS] + [self.p1.r_layers, self.p2.r_layers, self.p3.r_layers, self.p3.eps_layers, self.c.eps_scalar]
        own = {q.untyped_storage().data_ptr() for q in own}
        return isinstance(t, torch.Tensor) and t.untyped_storage().data_ptr() in own

    def strip(self, o):
        if isinstance(o, dict):
            return {k: v for k, v in o.items() if not self.aliases(v)}
        return o

    ARGS = ["k2", "k2r", "k1", "k3", "kg", "th", "pts", "r", "eps", "rb", "env", "z", "n", "x", "w"]

    def public(self):
        """public state of the objects that no operation may change"""
        d = {}
        role = {id(getattr(self, q)): q for q in ("au", "sio2", "c")}
        for q in ("p1", "p2", "p3"):
            p = getattr(self, q)
            d[q] = (p.r_layers, p.eps_layers, p.r_c, p.r_s, [role.get(id(x), x.__name__) for x in (p.mat_layers or [])], role.get(id(p.mat_env), p.mat_env.__name__), str(p.device), repr(p))
        for q in ("au", "sio2"):
            m = getattr(self, q)
            d[q] = (*[getattr(m, a, None) for a in ("wl_dat", "eps_dat", "coeff", "model_type")], [float(v) for v in m.wl_range], m.__name__, str(m.device))
        d["c"] = (self.c.eps_scalar, self.c.__name__)
        for a in self.ARGS:
            t = getattr(self, a)
            d[a] = (t, t.requires_grad, t.grad)
        d["grads"] = (self.p2.r_layers.grad, self.p3.eps_layers.grad, self.p2.r_layers.requires_grad, self.p3.eps_layers.requires_grad)
        return freeze(d)


def freeze(o):
    if isinstance(o, torch.Tensor):
        return (str(o.dtype), tuple(o.shape), to_np(o).copy())
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [freeze(v) for v in o]
    return o


def differ(a, b, rtol, path=""):
    """first difference of two frozen values, or None"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: {a.shape} {a.dtype} instead of {b.shape} {b.dtype}"
        if a.size == 0 or np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            return None
        if rtol and a.dtype.kind in "fc":
            fin = np.isfinite(b)
            if np.array_equal(fin, np.isfinite(a)):
                e = np.max(np.abs(np.where(fin, a - b, 0)))
                if e <= rtol * np.max(np.abs(np.where(fin, b, 0))):
                    return None
        return f"{path}: {np.ravel(a)[:3]} instead of {np.ravel(b)[:3]}"
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(set(a) ^ set(b))}"
        for k in a:
            d = differ(a[k], b[k], rtol, f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, rtol, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b or (a != a and b != b) else f"{path}: {a} instead of {b}"


def settings():
    return dict(
        dtype=str(torch.get_default_dtype()), grad=torch.is_grad_enabled(), anomaly=torch.is_anomaly_enabled(), threads=torch.get_num_threads(),
        rng=torch.random.get_rng_state().numpy().tobytes()[:64], nprng=np.random.get_state()[1][:8].tolist(), nperr=str(sorted(np.geterr().items())), npprint=str(np.get_printoptions()),
        inference=torch.is_inference_mode_enabled(), deterministic=torch.are_deterministic_algorithms_enabled(),
        denormal=float(torch.tensor(1e-310, dtype=F) * 1.0), device=str(torch.get_default_device()), cwd=os.getcwd(),
    )


def grads(f, wrt):
    """value of a differentiable observable, its gradients"""
    v = f()
    g = torch.autograd.grad(v, wrt, allow_unused=True)
    return [v.detach(), [torch.zeros(()) if q is None else q for q in g]]


def err(f, *a, **k):
    """a call that has to fail"""
    try:
        f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return "accepted"


# ---- the alphabet; every operation returns its observable ---------------------
O = {}


def op(f):
    O[f.__name__] = f
    return f


@op
def eps_500(w): return w.au.get_epsilon(500.0)
@op
def eps_500_tensor(w): return w.au.get_epsilon(w.w[0])
@op
def eps_near(w): return w.au.get_epsilon(t64([500.0001, 499.9999, 500.00001]))
@op
def eps_vec(w): return w.au.get_epsilon(w.w)
@op
def eps_rev(w): return w.au.get_epsilon(w.w.flip(0))
@op
def eps_grad(w):
    q = torch.tensor(500.0, requires_grad=True)
    return grads(lambda: w.au.get_epsilon(q).real + w.au.get_epsilon(q).imag, [q])
@op
def eps_grad_vec(w):
    q = torch.tensor([633.0, 500.0], requires_grad=True)
    return grads(lambda: (w.au.get_epsilon(q).abs() ** 2).sum() + w.sio2.get_epsilon(q).real.sum(), [q])
@op
def eps_overwrite(w):
    e = w.au.get_epsilon(500.0)
    e.mul_(0)
    v = w.au.get_epsilon(w.w)
    v.zero_()
    s = w.sio2.get_epsilon(500.0)
    s.fill_(7.0)
    c = w.c.get_epsilon(500.0)
    c.fill_(7.0)
    d = w.c.get_epsilon(w.w)
    d.fill_(7.0)
    return 0
@op
def sio2_500(w): return w.sio2.get_epsilon(500)
@op
def sio2_vec(w): return w.sio2.get_epsilon(np.array([633.0, 500.0]))
@op
def const_vec(w): return [w.c.get_epsilon(w.w), w.c.get_epsilon(500.0)]
@op
def new_material(w):
    m = pmd.materials.MatDatabase("au", init_lookup_wavelengths=[400.0, 500.0])
    return [m.get_epsilon(500.0), m.get_epsilon(w.w)]
@op
def p1_cs(w): return w.p1.get_cross_sections(w.k2)
@op
def p1_cs_rev(w): return w.p1.get_cross_sections(w.k2r)
@op
def p1_cs_near(w): return w.p1.get_cross_sections(w.k3)
@op
def p1_cs_one(w): return w.p1.get_cross_sections(w.k1)
@op
def p1_eps(w): return list(w.p1.get_material_permittivities(w.k2))
@op
def p1_coef(w): return w.p1.get_mie_coefficients(w.k2, n_max=3)
@op
def p1_coef_torch(w): return w.p1.get_mie_coefficients(w.k2, n_max=3, backend="torch", return_internal=True)
@op
def p1_grad_k(w): return grads(lambda: w.p1.get_cross_sections(w.kg)["cs_ext"].sum(), [w.kg])
@op
def p1_ang(w): return w.p1.get_angular_scattering(w.k2, w.th)
@op
def p1_near(w): return w.p1.get_nearfields(w.k2, w.pts, n_max=4)
@op
def p1_near_sp(w): return w.p1.get_nearfields(w.k2, w.pts, n_max=3, precision="single")
@op
def p2_cs(w): return w.p2.get_cross_sections(w.k2)
@op
def p2_grad(w): return grads(lambda: w.p2.get_cross_sections(w.k2)["q_sca"].sum(), [w.p2.r_layers])
@op
def p2_grad_near(w): return grads(lambda: (w.p2.get_nearfields(w.kg, w.pts, n_max=3)["E_t"].abs() ** 2).sum(), [w.p2.r_layers, w.kg])
@op
def p2_backward_twice(w):
    v = w.p2.get_cross_sections(w.k2)["q_ext"].sum()
    a = torch.autograd.grad(v, w.p2.r_layers, retain_graph=True)[0]
    b = torch.autograd.grad(v, w.p2.r_layers)[0]
    return [a, b]
@op
def p2_unused_graph(w):
    w.kept = w.p2.get_cross_sections(w.kg)["cs_sca"]
    return w.kept.detach()
@op
def p3_cs(w): return w.p3.get_cross_sections(w.k2)
@op
def p3_grad(w): return grads(lambda: w.p3.get_angular_scattering(w.k2, w.th)["i_unpol"].sum(), [w.p3.eps_layers])
@op
def p3_single(w): return w.p3.get_nearfields(w.k1, w.pts)
@op
def overwrite(w):
    for q in (w.p1.get_cross_sections(w.k2), w.p1.get_mie_coefficients(w.k2), w.p2.get_angular_scattering(w.k2, w.th), w.p1.get_nearfields(w.k2, w.pts, n_max=2)):
        with torch.no_grad():
            for v in q.values():
                if isinstance(v, torch.Tensor) and not w.aliases(v):
                    try:
                        v.mul_(0)
                    except RuntimeError:  # an expanded view
                        pass
    return 0
@op
def coef_batch(w): return ms.mie_coefficients(w.k2, r_layers=w.rb, eps_layers=w.eps, eps_env=w.env)
@op
def coef_one(w): return ms.mie_coefficients(w.k2, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=5)
@op
def coef_scipy(w): return ms.mie_coefficients(w.k2, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=4, backend="scipy", return_internal=True)
@op
def coef_torch(w): return ms.mie_coefficients(w.k2, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=4, backend="torch", which_jn="ratios")
@op
def coef_torch_rec(w): return ms.mie_coefficients(w.k2, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=6, backend="torch", which_jn="recurrence")
@op
def cs_solver(w): return ms.cross_sections(w.k2, r_layers=w.r, eps_layers=w.eps, eps_env=w.env)
@op
def cs_high(w): return ms.cross_sections(w.k2, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=9)
@op
def ang_solver(w): return ms.angular_scattering(w.k2, w.th, r_layers=w.rb, eps_layers=w.eps, eps_env=w.env, n_max=3)
@op
def near_solver(w): return ms.nearfields(w.k2, w.pts, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=3)
@op
def near_torch(w): return ms.nearfields(w.k2, w.pts, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=3, backend="torch")
@op
def near_scipy(w): return ms.nearfields(w.k2, w.pts, r_layers=w.r, eps_layers=w.eps, eps_env=w.env, n_max=3, backend="scipy")
@op
def legacy(w): return ms.cross_sections(w.k2, r_c=w.r[0], eps_c=w.eps[0], r_s=w.r[1], eps_s=w.eps[1], eps_env=w.env)
@op
def special(w):
    s = pmd.special
    return [s.sph_jn(w.n, w.z), s.sph_yn(w.n, w.z), s.sph_jn_torch(w.n, w.z), s.sph_yn_torch(w.n, w.z), s.psi(w.n, w.z), s.xi_torch(w.n, w.z), list(s.pi_tau(5, torch.cos(w.x)))]
@op
def special_grad(w):
    z = w.z.clone().requires_grad_(True)
    return grads(lambda: pmd.special.sph_jn_der(w.n, z).abs().sum() + pmd.special.sph_yn(w.n, z).real.sum(), [z])
@op
def helpers(w):
    h = pmd.helper
    r = h.transform_xyz_to_spherical(*w.pts.T)
    return [list(r), list(h.transform_spherical_to_xyz(*r)), h.interp1d(w.x, w.x.flip(0), w.x * 2), list(map(float, (h.get_truncution_criteroin_wiscombe(w.x.max()),)))]
@op
def many_lookups(w):
    wl = torch.linspace(410.0, 890.0, 700)
    v = w.au.get_epsilon(wl)
    one = [w.au.get_epsilon(float(q)) for q in wl[::9]]
    return [v, one, [w.sio2.get_epsilon(q) for q in wl[::50]]]
@op
def many_cs(w): return w.p1.get_cross_sections(2 * PI / torch.linspace(420.0, 880.0, 150, dtype=F), n_max=2)
def custom(n):
    """a material of the user's own, always under the same name"""
    d = tempfile.mkdtemp(prefix="mc12_")
    try:
        f = os.path.join(d, "mat.yml")
        with open(f, "w") as h:
            h.write(f"DATA:\n  - type: tabulated nk\n    data: |\n        0.3 {n} 0.1\n        0.9 {n + 1} 0.2\n")
        m = pmd.materials.MatDatabase("mine", yaml_file=f)
        p = pmd.Particle(r_layers=t64([50.0]), mat_layers=[m], mat_env=1.0)
        return [m.get_epsilon(500.0), m.get_epsilon(torch.tensor([500.0, 700.0])), p.get_cross_sections(t64([2 * PI / 500.0]), n_max=2)["cs_ext"]]
    finally:
        shutil.rmtree(d)
@op
def custom_a(w): return custom(1.5)
@op
def custom_b(w): return custom(2.5)
# arguments that exist for one call only: their memory is reused by the next operation
@op
def list_a(w): return [w.au.get_epsilon([510.0 + i, 600.0 + i]) for i in range(0, 60, 3)]
@op
def list_b(w): return [w.au.get_epsilon([710.0 + i, 800.0 + i]) for i in range(0, 60, 3)]
@op
def temp_a(w): return [w.p1.get_cross_sections(t64([2 * PI / 510.0, 2 * PI / 600.0]))["cs_ext"], w.au.get_epsilon(torch.tensor([510.0, 600.0])), pmd.Particle(r_layers=t64([45.0]), mat_layers=[1.5], mat_env=1.0).get_cross_sections(t64([2 * PI / 510.0]), n_max=3)["cs_sca"]]
@op
def temp_b(w): return [w.p1.get_cross_sections(t64([2 * PI / 710.0, 2 * PI / 800.0]))["cs_ext"], w.au.get_epsilon(torch.tensor([710.0, 800.0])), pmd.Particle(r_layers=t64([85.0]), mat_layers=[3.5], mat_env=1.2).get_cross_sections(t64([2 * PI / 710.0]), n_max=3)["cs_sca"]]
@op
def inference(w):
    with torch.inference_mode():
        v = [w.au.get_epsilon(w.w), w.au.get_epsilon(500.0), w.p2.get_cross_sections(w.k2)["cs_ext"], w.p1.get_angular_scattering(w.k2, w.th)["S1"]]
    return [q.tolist() for q in v]
@op
def no_grad(w):
    with torch.no_grad():
        return [w.p2.get_cross_sections(w.kg)["cs_ext"], w.au.get_epsilon(w.w)]
@op
def fail_backend(w): return err(w.p1.get_cross_sections, w.k2, backend="nope")
@op
def fail_shape(w): return err(w.p2.get_nearfields, w.k2, w.pts[:, :2])
@op
def fail_eps(w): return err(ms.mie_coefficients, w.k2, r_layers=w.r, eps_layers=w.eps[:, :1].expand(2, 3), eps_env=w.env)
@op
def fail_lookup(w): return err(w.au.get_epsilon, "red")
@op
def fail_name(w): return err(pmd.materials.MatDatabase, "Unobtainium")
@op
def set_device(w):
    w.p1.set_device("cpu")
    w.p2.set_device(torch.device("cpu"))
    return 0
@op
def texts(w): return [repr(w.p1), repr(w.p2), repr(w.p3), repr(w.au), repr(w.c), sorted(pmd.materials.list_available_materials())]


# ---- changes of the public state (name -> bit of the state) --------------------
def edit_radius(w):
    w.p2.r_layers = t64([30.0, 50.0, 71.0]).requires_grad_(True)
    return 0
def edit_const(w):
    w.c.eps_scalar = torch.tensor(3.0 + 0.25j, dtype=torch.complex64)
    return 0
def edit_material(w):
    w.p1.mat_layers[1] = w.c
    w.p3.mat_env = w.sio2
    return 0
def edit_inplace(w):
    with torch.no_grad():
        w.p3.eps_layers[0] = 9.0
        w.p1.r_layers[0] = 55.0
    return 0


EDITS = [edit_radius, edit_const, edit_material, edit_inplace]
BIT = {f.__name__: 1 << i for i, f in enumerate(EDITS)}
ALL = list(O) + list(BIT)
CORE = ["eps_near", "eps_grad", "eps_overwrite", "p1_cs_near", "p1_grad_k", "p2_grad", "p2_unused_graph", "p3_grad", "coef_batch", "coef_torch", "fail_shape", "edit_material", "edit_inplace"]
TINY = ["eps_500", "eps_near", "eps_grad", "eps_overwrite", "p1_cs_one", "p2_grad", "edit_const", "edit_radius"]


def gen(ch, tier):
    T = tier == "thorough"
    space = ch.pick("space", ["full", "core", "inputs"] + (["tiny"] if T else []))
    if space == "inputs":
        what = ch.pick("what", ["layers", "legacy", "particle", "materials", "special", "lookup", "interp"])
        form = ch.pick("form", ["t64", "grad", "numpy", "list", "f32"])
        if what in ("special", "interp"):
            if form in ("numpy", "list"):
                ch.prune()
            return dict(space=space, what=what, form=form, n=ch.pick("order", [3, 1, 12]))
        if what == "lookup":
            return dict(space=space, what=what, form=form, mat=ch.pick("material", ["Au", "SiO2", "num", "unsorted"]))
        case = ch.pick("values", list(CASES))
        if what == "legacy" and len(CASES[case][0]) > 2:
            ch.prune()
        return dict(space=space, what=what, form=form, case=case, k0=ch.pick("k0", list(KS)), obs=ch.pick("observable", ["coef", "cross", "angular", "near"]), backend=ch.pick("backend", ["pena", "torch", "scipy"]))
    if space == "full":
        L = ch.pick("length", [1, 2] + ([3] if T else []))
        return dict(ops=[ch.pick("operation", ALL if L < 3 or i != 1 else ALL) for i in range(L)])
    if space == "core":
        return dict(ops=[ch.pick("operation", CORE) for _ in range(4 if T else 3)])
    return dict(ops=[ch.pick("operation", TINY) for _ in range(5)])


def apply(name, w):
    if name in BIT:
        return EDITS[[f.__name__ for f in EDITS].index(name)](w)
    return w.strip(O[name](w))


def fork(fn, *a):
    """result of fn in a process of its own"""
    r, s = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(0)
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn(*a))
            except BaseException as e:  # noqa: BLE001
                out = (False, f"{type(e).__name__}: {str(e)[:200]}")
            with os.fdopen(s, "wb") as f:
                pickle.dump(out, f)
        except BaseException:  # noqa: BLE001
            code = 1
        os._exit(code)
    os.close(s)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, "process died")


def alone(name, mask):
    """the model: the operation on fresh objects, in the given public state"""
    w = World()
    for f in EDITS:
        if mask & BIT[f.__name__]:
            f(w)
    r = freeze(apply(name, w))
    return r, w.public(), settings()


REF = {}


def ref(name, mask):
    if (name, mask) not in REF:
        ok, v = fork(alone, name, mask)
        REF[name, mask] = v if ok else (v, None, None)
    return REF[name, mask]


def _fill(k):
    return k, ref(*k)


def prepare(tier):
    import multiprocessing

    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=4) as p:
        masks = [0] + [1 << i for i in range(len(EDITS))]
        for k, v in p.imap_unordered(_fill, [(n, m) for n in ALL for m in masks], chunksize=4):
            REF[k] = v


def history(ops, refs):
    w = World()
    steps = []
    glob = settings()
    mask, kept, n = 0, [], 0
    for i, (name, (rv, rp, _)) in enumerate(zip(ops, refs)):
        try:
            raw = apply(name, w)
        except Exception as e:  # noqa: BLE001
            steps.append(f"{name} raised {type(e).__name__}: {str(e)[:120]}")
            return steps, n
        if rp is None:
            steps.append(f"{name} fails on fresh objects: {rv}")
            return steps, n
        fz = freeze(raw)
        for what, d in (("result of", differ(fz, rv, 1e-12)), ("state after", differ(w.public(), rp, 0)), ("settings after", differ(settings(), glob, 0))):
            n += 1
            if d:
                steps.append(f"{what} {name}{d}")
        for prev, r, f in kept:
            n += 1
            d = differ(freeze(r), f, 0)
            if d:
                steps.append(f"{name} changed the earlier result of {prev}{d}")
        kept.append((name, raw, fz))
    return steps, n


# arguments of special value: (radii, refractive indices)
CASES = {
    "plain": ([40.0, 70.0], [1.5, 2 + 0.5j]), "equal radii": ([50.0, 50.0], [1.5, 2 + 0.5j]), "radii 1e-9 apart": ([50.0, 50.0 * (1 + 1e-9)], [1.5, 2 + 0.5j]),
    "radii 1e-5 apart": ([50.0, 50.0 * (1 + 1e-5)], [1.5, 2.0]), "tiny core": ([1e-6, 50.0], [0.2 + 3j, 1.5]), "no contrast": ([50.0], [1.0]), "host layers": ([30.0, 50.0, 70.0], [1.0, 1.5, 1.0]),
    "same index": ([30.0, 50.0, 70.0], [1.5, 1.5, 1.5]), "index zero": ([30.0, 50.0], [1.5, 1e-9]), "gain": ([50.0], [1.5 - 0.01j]), "three": ([20.0, 50.0, 51.0], [4.0, 0.1 + 6j, 1.33]),
}
KS = {"one": [0.01], "repeated": [0.01, 0.01], "unsorted": [0.02, 0.005, 0.01]}
THS = [0.0, PI, -0.5, 7.0, PI / 2, 1e-12, 0.5]
PTS = [[0.0, 0.0, 0.0], [0.0, 0.0, 50.0], [0.0, 0.0, -1e-9], [50.0, 0.0, 0.0], [0.0, -70.0, 1.0], [30.0, 40.0, 0.0], [1e4, 1.0, 1.0], [-0.0, 10.0, -20.0]]


def formed(v, form):
    """nested list -> one of the accepted forms"""
    cx = np.iscomplexobj(np.array(v))
    if form == "list":
        return v
    if form == "numpy":
        return np.array(v)
    t = (tc if cx else t64)(v)
    if form == "f32":
        return t.to(torch.complex64 if cx else torch.float32)
    return t.requires_grad_(True) if form == "grad" else t


def snapshot(a):
    return {k: (freeze(v), bool(getattr(v, "requires_grad", False)), bool(getattr(v, "is_leaf", True))) for k, v in a.items()}


def run_inputs(cfg, rec):
    """no call changes what it is given, whatever its values; the same call again gives the same result"""
    fm, what = cfg["form"], cfg["what"]
    if what in ("special", "interp"):
        calls = direct_calls(cfg, rec)
    elif what == "lookup":
        m = pmd.materials
        wl = [500.0, 633.0, 500.0, 421.3]
        if cfg["mat"] == "unsorted":
            a = dict(x=formed([5.0, 1.0, 3.0, 3.0 + 1e-9, 2.0], fm if fm != "list" else "t64"), w=formed([4.0, 2.5, 1.0], fm if fm != "list" else "t64"))
            if fm == "numpy":
                a = {k: torch.as_tensor(v) for k, v in a.items()}
            calls = [("interp1d", a, lambda x, w: pmd.helper.interp1d(w, x, x * x))]
        else:
            mat = m.MatConstant(tc(2.0 + 1j)) if cfg["mat"] == "num" else m.MatDatabase(cfg["mat"])
            calls = [("get_epsilon", dict(w=formed(wl, fm)), lambda w: mat.get_epsilon(w))]
    else:
        r, n = CASES[cfg["case"]]
        e = [complex(q) ** 2 for q in n]
        a = dict(k=formed(KS[cfg["k0"]], fm), r=formed(r, fm), e=formed(e, fm), env=1.0 if fm == "list" or what == "particle" and fm == "numpy" else formed(1.0 if what == "particle" else [1.0], fm))
        o = cfg["obs"]
        if o == "angular":
            a["x"] = formed(THS, fm)
        elif o == "near":
            a["x"] = formed(PTS, fm)
        opt = dict(backend=cfg["backend"], n_max=3)
        x = lambda q: (q["x"],) if "x" in q else ()
        name = dict(coef="mie_coefficients", cross="cross_sections", angular="angular_scattering", near="nearfields")[o]
        if what == "layers":
            call = lambda **q: getattr(ms, name)(q["k"], *x(q), r_layers=q["r"], eps_layers=q["e"], eps_env=q["env"], **opt)
        elif what == "legacy":
            if fm == "grad":
                a["r"], a["e"] = a["r"].detach(), a["e"].detach()
            for i, s in enumerate(["c", "s"][: len(r)]):  # the caller's own tensors or arrays
                a["r" + s], a["e" + s] = (formed([v[i]] * m, fm) if fm != "list" else v[i] for v, m in ((r, 1), (e, len(KS[cfg["k0"]]))))
            kw = lambda q: {k: v for s in "cs"[: len(r)] for k, v in (("r_" + s, q["r" + s]), ("eps_" + s, q["e" + s]))}
            call = lambda **q: getattr(ms, name)(q["k"], *x(q), eps_env=q["env"], **kw(q), **opt)
        else:
            # an object of its own for each call: what is kept inside one must not be the caller's
            if what == "materials":
                a["e"] = [pmd.materials.MatConstant(v) for v in a["e"]] if fm != "list" else [complex(v) for v in n]
                keep = lambda q: [getattr(v, "eps_scalar", v) for v in q["e"]]
                call = lambda **q: getattr(pmd.Particle(r_layers=q["r"], mat_layers=q["e"], mat_env=1.0), "get_" + name)(q["k"], *x(q), **opt)
                a["kept"] = keep(a)
            else:
                call = lambda **q: getattr(pmd.Particle(r_layers=q["r"], eps_layers=q["e"], mat_env=q["env"]), "get_" + name)(q["k"], *x(q), **opt)
        calls = [(name, a, call)]
    for name, a, call in calls:
        before = snapshot(a)
        try:
            one = freeze(call(**a))
        except Exception as ex:  # noqa: BLE001
            one = f"{type(ex).__name__}: {str(ex)[:80]}"
        rec.calls += 2
        for turn in ("first", "second"):
            after = snapshot(a)
            for k in a:
                d = differ(after[k][0], before[k][0], 0) or (after[k][1:] != before[k][1:] and "requires_grad" or None)
                rec.true(f"{name}: argument {k} after the {turn} call", not d, f"{k}{d}")
            if turn == "first":
                try:
                    two = freeze(call(**a))
                except Exception as ex:  # noqa: BLE001
                    two = f"{type(ex).__name__}: {str(ex)[:80]}"
                d = differ(two, one, 1e-12)
                rec.true(f"{name}: the same call again", not d, str(d))
        rec.outcome.update(repr(one)[:2000].encode())


def direct_calls(cfg, rec):
    s, h, fm, n = pmd.special, pmd.helper, cfg["form"], cfg["n"]
    out = []
    if cfg["what"] == "interp":
        x, y = formed([5.0, 1.0, 3.0, 2.0], fm), formed([1 + 1j, 2j, 3.0 + 0j, -1.0], fm)
        out.append(("interp1d", dict(w=formed([[4.0, 0.5], [2.0, 9.0]], fm), x=x, y=y), lambda w, x, y: h.interp1d(w, x, y)))
        P = [formed([p[i] for p in PTS], fm) for i in range(3)]
        out.append(("transform_xyz_to_spherical", dict(zip("xyz", P)), lambda x, y, z: h.transform_xyz_to_spherical(x, y, z)))
        E = {q: formed([1 + 1j, 0j, 2.0], fm) for q in ("er", "et", "ep")}
        out.append(("transform_fields", dict(E, r=formed([1.0, 0.0, 2.0], fm), t=formed([0.0, PI, 1.0], fm), p=formed([0.0, 2 * PI, -1.0], fm)), lambda er, et, ep, r, t, p: h.transform_fields_spherical_to_cartesian(er, et, ep, r, t, p)))
        out.append(("wiscombe", dict(x=formed([1.0, 8.0, -3.0], fm)), lambda x: h.get_truncution_criteroin_wiscombe(x)))
        out.append(("detach", dict(x=formed([1.0, 8.0, -3.0], fm)), lambda x: h.detach_tensor(x)))
        return out
    Z = formed([0.0, 1e-12, 1e-3, PI, 4.5, 30.0, 2 + 1j, 0.1j, -1.0], fm)
    X = formed([0.0, 1e-12, 1e-3, PI, 4.5, 30.0], fm)
    for f in ("sph_jn", "sph_jn_der", "sph_yn", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi", "sph_jn_torch", "sph_jn_torch_via_rec", "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch", "xi_torch", "D1n_torch", "pena_D1_n", "pena_D3_n"):
        for z in (Z, X):
            out.append((f, dict(n=torch.tensor(n), z=z), lambda n, z, f=f: getattr(s, f)(n, z)))
    out.append(("pi_tau", dict(n=torch.tensor(n), x=formed([-1.0, 1.0, 0.0, 0.3], fm)), lambda n, x: s.pi_tau(n, x)))
    g = lambda v: formed([[[q] for q in v]], fm)
    for f in ("vsh", "vsh_pena"):
        for kind in (1, 3):
            out.append((f, dict(k=formed(0.01, fm), m=formed(1.5 + 0.1j, fm), r=g([50.0, 1e-9, 100.0]), t=g([0.0, PI, 1.0]), p=g([0.0, 1.0, 2.0])), lambda k, m, r, t, p, f=f, kind=kind: getattr(s, f)(n, k, m, r, t, p, kind)))
    return out


def run(cfg, rec):
    if cfg.get("space") == "inputs":
        return run_inputs(cfg, rec)
    mask, refs = 0, []
    for name in cfg["ops"]:
        mask |= BIT.get(name, 0)
        refs.append(ref(name, mask))
    rec.calls += len(cfg["ops"])
    ok, out = fork(history, cfg["ops"], refs)
    if not ok:
        rec.fail(f"history cannot be executed: {out}")
        return
    steps, n = out
    rec.comparisons += n
    rec.outcome.update(repr(cfg["ops"]).encode())
    for s in steps:
        rec.fail(s)
