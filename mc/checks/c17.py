"""C17: two threads on shared objects do not interfere (controlled scheduler on the real code)."""
import sys
import threading

import numpy as np
import torch

from mc.checks.c12 import World, differ, fork, freeze, grads, settings
from mc.world import PI, ms, pmd, t64, tc

LEVEL = "model_checking"
CHUNK = 16
RULE = (
    "Two real threads execute two operations on shared objects under a scheduler (sys.monitoring) that lets exactly one of them run and switches at chosen events inside pymiediff.  "
    "All schedules within the preemption bound are enumerated, each in a process of its own on fresh objects; both results (values, gradients, exceptions) and the answers of the shared objects "
    "afterwards are compared with the same operations executed alone on fresh objects."
)
BOUNDS = {
    "quick": "material operations: one preemption at the first execution of every bytecode of pymiediff, two preemptions at every pair of lines of mat.py/main.py (first two executions); "
    "observables, solvers, gradients, special functions: one preemption at the first execution of every source line",
    "thorough": "material operations: one preemption at every bytecode (first 4 and last 4 executions), two at every pair of lines of mat.py/main.py (first 2 and last executions), all pairs of operations; observables: one preemption at every executed line (first 4 and last 4 executions of a line in a loop)",
}
ASSUMPTIONS = [
    "switches happen between bytecodes or lines of Python; a call into torch/numpy is one step (the interpreter lock is held or the called kernel works on operands of this thread only)",
    "CPU; backward passes of CPU graphs run in the calling thread",
    "set_device: objects are moved to the device they are on",
]
SRC = "/pymiediff/"
MON = sys.monitoring
TOOL = 3


class W17(World):
    def __init__(self):
        super().__init__()
        m = pmd.materials
        self.p4 = pmd.Particle(r_layers=t64([42.0, 70.0]), mat_layers=[self.sio2, self.au], mat_env=self.c)
        self.kb = 2 * PI / t64([560.0, 500.0])
        self.kgb = (2 * PI / t64([633.0, 540.0])).requires_grad_(True)
        self.eps2 = tc([[1.8, 2.0 + 0.3j], [12.0 + 0.2j, 3.0]])
        self.r2 = t64([33.0, 62.0])
        self.one = t64([[80.0, 10.0, 40.0]])
        self.one2 = t64([[5.0, -30.0, 12.0]])
        self.thb = t64([0.1, 2.0, 1.5])
        self.zb = tc([[0.8 - 0.3j], [2.0 + 0.4j], [9.0]])


K = {}


def fam(f):
    K[f.__name__] = f
    return f


# every family: variant 0 and 1 have the same shapes and different values, variant 2 different shapes
@fam
def eps(w, v):
    return w.au.get_epsilon([w.w, torch.tensor([633.0, 560.0]), torch.tensor(500.0)][v])
@fam
def epsnear(w, v):
    return [w.au.get_epsilon([500.0, 500.0001, t64([500.00001, 499.9999])][v]), w.sio2.get_epsilon([500.0, 500.0001, t64([500.00001, 499.9999])][v])]
@fam
def epsgrad(w, v):
    q = [torch.tensor([500.0, 633.0]), torch.tensor([560.0, 500.0]), torch.tensor(500.0)][v].requires_grad_(True)
    return grads(lambda: (w.au.get_epsilon(q).abs() ** 2).sum() + w.sio2.get_epsilon(q).real.sum(), [q])
@fam
def perm(w, v):
    return list([w.p1, w.p4, w.p3][v].get_material_permittivities(w.k2 if v < 2 else w.k1))
@fam
def device(w, v):
    for q in ([w.au, w.sio2], [w.p1], [w.p2, w.p3, w.p4])[v]:
        q.set_device("cpu")
    return 0
@fam
def create(w, v):
    m = pmd.materials.MatDatabase(["au", "ag", "si"][v], init_lookup_wavelengths=[400.0, 500.0])
    return m.get_epsilon(w.w)
@fam
def text(w, v):
    return [repr(q) for q in ([w.p1, w.au], [w.p2, w.sio2], [w.p3, w.c])[v]]
@fam
def const(w, v):
    return [w.c.get_epsilon([w.w, w.w + 1, 500.0][v]), pmd.materials.MatConstant(2.0 + v).get_epsilon(w.w)]
@fam
def cs(w, v):
    return [lambda: w.p1.get_cross_sections(w.k2, n_max=3), lambda: w.p4.get_cross_sections(w.kb, n_max=3), lambda: w.p3.get_cross_sections(w.k1)][v]()
@fam
def ang(w, v):
    return [lambda: w.p1.get_angular_scattering(w.k2, w.th, n_max=3), lambda: w.p4.get_angular_scattering(w.kb, w.thb, n_max=3), lambda: w.p3.get_angular_scattering(w.k1, w.th[:2], n_max=4)][v]()
@fam
def near(w, v):
    return [lambda: w.p1.get_nearfields(w.k2, w.one, n_max=2), lambda: w.p4.get_nearfields(w.kb, w.one2, n_max=2), lambda: w.p3.get_nearfields(w.k1, w.pts, n_max=3)][v]()
@fam
def gradk(w, v):
    return [lambda: grads(lambda: w.p1.get_cross_sections(w.kg, n_max=2)["q_ext"].sum(), [w.kg]), lambda: grads(lambda: w.p4.get_cross_sections(w.kgb, n_max=2)["q_ext"].sum(), [w.kgb]),
            lambda: grads(lambda: w.p2.get_cross_sections(w.k2, n_max=3)["q_sca"].sum(), [w.p2.r_layers])][v]()
@fam
def gradt(w, v):
    k = [w.kg, w.kgb, w.kg[:1]][v]
    return grads(lambda: w.p1.get_cross_sections(k, n_max=2, backend="torch")["q_ext"].sum(), [w.kg if v != 1 else w.kgb])
@fam
def coef(w, v):
    return ms.mie_coefficients(w.k2, r_layers=[w.r, w.r2, w.rb][v], eps_layers=[w.eps, w.eps2, w.eps][v], eps_env=w.env, n_max=4 - v // 2)
@fam
def torchc(w, v):
    return ms.mie_coefficients(w.k2, r_layers=[w.r, w.r2, w.rb][v], eps_layers=[w.eps, w.eps2, w.eps][v], eps_env=w.env, n_max=4 - v // 2, backend="torch", return_internal=True)
@fam
def ratios(w, v):
    return ms.mie_coefficients(w.k2, r_layers=[w.r, w.r2, w.rb][v], eps_layers=[w.eps, w.eps2, w.eps][v], eps_env=w.env, n_max=4 - v // 2, backend="torch", which_jn="ratios")
@fam
def scipyc(w, v):
    return ms.mie_coefficients(w.k2, r_layers=[w.r, w.r2, w.rb][v], eps_layers=[w.eps, w.eps2, w.eps][v], eps_env=w.env, n_max=4 - v // 2, backend="scipy", return_internal=True)
@fam
def nearb(w, v):
    return [ms.nearfields(w.k2, [w.one, w.one2, w.pts][v], r_layers=[w.r, w.r2, w.rb][v], eps_layers=[w.eps, w.eps2, w.eps][v], eps_env=w.env, n_max=2, backend=b) for b in ("torch", "scipy")]
@fam
def special(w, v):
    s = pmd.special
    z, n, x = [w.z, w.zb, w.z[:1]][v], torch.tensor([5, 5, 3][v]), [w.x, w.x * 0.9, w.x[:1]][v]
    o = [f(n, z) for f in (s.sph_jn, s.sph_yn, s.sph_h1n, s.psi, s.chi, s.xi, s.sph_jn_torch, s.sph_yn_torch, s.psi_torch, s.xi_torch) if f is not None]
    q = z.clone().requires_grad_(True)
    return [o, list(s.pi_tau(4, torch.cos(x))), grads(lambda: s.sph_jn_der(n, q).abs().sum() + s.sph_yn(n, q).real.sum(), [q])]
@fam
def helpers(w, v):
    h = pmd.helper
    p = [w.pts, w.pts * 1.1, w.one][v]
    r = h.transform_xyz_to_spherical(*p.T)
    return [list(r), list(h.transform_spherical_to_xyz(*r)), h.interp1d(w.x, [w.x.flip(0), w.x + 1, w.x.flip(0)][v], w.x * [2, 3, 4][v])]


MAT = ["eps", "epsnear", "epsgrad", "perm", "device", "create", "text", "const"]
OBS = ["cs", "ang", "near", "gradk", "gradt", "coef", "torchc", "ratios", "scipyc", "nearb", "special", "helpers"]
POST = [("eps", 0), ("eps", 1), ("epsnear", 0), ("epsnear", 2), ("perm", 1), ("const", 0)]


def post(w, more=()):
    """what the shared objects answer afterwards: every material lookup, and the two operations once more"""
    out = [freeze(w.strip(K[f](w, v))) for f, v in POST + list(more)]
    return out, w.public()


BASE = None


def base():
    """fresh objects: built once per worker, every schedule runs on its own (forked) copy"""
    global BASE
    if BASE is None:
        BASE = W17()
    return BASE


def alone(f, v):
    return freeze(w.strip(K[f](w, v))) if (w := W17()) else None


# ---- the scheduler -------------------------------------------------------------
class Sched:
    """thread 0 starts; plan = [(thread, event number), ...]: at that event the other thread gets the turn"""

    def __init__(self, plan, opcodes, only=None, log=None):
        self.plan, self.opcodes, self.only, self.log = list(plan), opcodes, only, log
        self.count = [0, 0]
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.out = [None, None]
        self.blocked = 0
        self.who = {}

    def wait(self, i):
        seen = -1
        while not self.sem[i].acquire(timeout=1.0):
            n = self.count[1 - i]
            if n == seen:  # the other thread waits for something this one holds: no such schedule
                self.blocked += 1
                return
            seen = n

    def event(self, code, where):
        if SRC not in code.co_filename or (self.only and not code.co_filename.endswith(self.only)):
            return MON.DISABLE
        i = self.who.get(threading.get_ident())
        if i is None:
            return None
        self.count[i] += 1
        if self.log is not None:
            self.log.append((code.co_filename.rsplit("/", 1)[-1], code.co_firstlineno, where))
        if self.plan and self.plan[0] == (i, self.count[i]):
            self.plan.pop(0)
            if not self.done[1 - i]:
                self.sem[1 - i].release()
                self.wait(i)
        return None

    def body(self, i, fn, w):
        self.wait(i)
        self.who[threading.get_ident()] = i
        try:
            self.out[i] = (True, fn(w))
        except BaseException as e:  # noqa: BLE001
            self.out[i] = (False, f"{type(e).__name__}: {str(e)[:160]}")
        finally:
            del self.who[threading.get_ident()]
            self.done[i] = True
            self.sem[1 - i].release()

    def monitor(self):
        ev = MON.events.INSTRUCTION if self.opcodes else MON.events.LINE
        MON.use_tool_id(TOOL, "mc")
        MON.register_callback(TOOL, ev, self.event)
        MON.set_events(TOOL, ev)

    def unmonitor(self):
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)

    def go(self, fa, fb, w):
        ts = [threading.Thread(target=self.body, args=(i, f, w)) for i, f in enumerate((fa, fb))]
        self.monitor()
        for t in ts:
            t.start()
        self.sem[0].release()
        for t in ts:
            t.join()
        self.unmonitor()


FILES = ("mat.py", "main.py")


def record(f, v, opcodes, only):
    """the events of one operation"""
    log = []
    s = Sched([], opcodes, only, log)
    w = W17()
    s.done[1] = True
    s.sem[0].release()
    s.monitor()
    s.body(0, lambda q: K[f](q, v), w)
    s.unmonitor()
    if not s.out[0][0]:
        raise RuntimeError(s.out[0][1])
    return log


STEPS, REF = {}, {}
POSTREF = None


def events(f, v, mode):
    k = (f, v, mode)
    if k not in STEPS:
        ok, r = fork(record, f, v, mode == "bytecode", FILES if mode == "two" else None)
        STEPS[k] = r if ok else []
    return STEPS[k]


def ref(f, v):
    if (f, v) not in REF:
        REF[f, v] = fork(alone, f, v)
    return REF[f, v]


def post_ref():
    global POSTREF
    if POSTREF is None:
        POSTREF = fork(lambda: post(W17()))
    return POSTREF


def _fill(k):
    return (k, ref(*k)) if len(k) == 2 else (k, events(*k))


def prepare(tier):
    import multiprocessing

    with multiprocessing.get_context("fork").Pool(8) as p:
        jobs = [(f, v) for f in K for v in range(3)] + [(f, v, m) for f in MAT for v in range(3) for m in ("bytecode", "two")] + [(f, v, "line") for f in OBS for v in range(3)]
        for k, r in p.imap_unordered(_fill, jobs, chunksize=2):
            (REF if len(k) == 2 else STEPS)[k] = r
    post_ref()


def points(log, first, last):
    """events to preempt at: the first and the last executions of every source line"""
    where = {}
    for i, l in enumerate(log, 1):
        where.setdefault(l, []).append(i)
    s = set()
    for v in where.values():
        s.update(v[:first])
        if last:
            s.update(v[-last:])
    return sorted(s)


PARTNER_M = ["eps", "epsnear", "epsgrad", "device", "create"]
TWO_Q = [("eps", 0), ("eps", 1), ("perm", 1), ("device", 0)]


def gen(ch, tier):
    T = tier == "thorough"
    space = ch.pick("space", ["materials", "observables", "two preemptions", "mixed"])
    if space == "materials":
        a, va = ch.pick("first", [(f, v) for f in (MAT if T else ["eps", "epsnear", "epsgrad", "perm", "device", "const"]) for v in ((0, 1, 2) if T else (0,))])
        b, vb = ch.pick("second", [(f, v) for f in MAT for v in (0, 1, 2)] if T else [("eps", 1), ("epsnear", 1), ("epsgrad", 0), ("device", 0), ("create", 0)])
        return dict(a=[a, va], b=[b, vb], mode="bytecode", plan=[[0, ch.pick("preempt", points(events(a, va, "bytecode"), *((4, 4) if T else (1, 0))))]])
    if space == "observables":
        a = ch.pick("first", OBS + ([] if T else ["create", "text"]))
        va = ch.pick("variant", [0, 2] if T else [0])
        vb = ch.pick("second", [q for q in ((0, 1, 2) if T else (1, 2) if a in ("cs", "coef", "torchc", "ratios", "special") else (1,)) if q != va])
        return dict(a=[a, va], b=[a, vb], mode="line", plan=[[0, ch.pick("preempt", points(events(a, va, "line"), *((4, 4) if T else (1, 0))))]])
    if space == "mixed":
        a = ch.pick("first", OBS if T else ["cs"])
        b = ch.pick("second", ["eps", "epsgrad", "device", "cs", "gradk", "nearb", "special"] if T else ["epsgrad", "device"])
        return dict(a=[a, 0], b=[b, 1], mode="line", plan=[[0, ch.pick("preempt", points(events(a, 0, "line"), *((2, 2) if T else (1, 0))))]])
    ops = [(f, v) for f in ("eps", "epsnear", "epsgrad", "perm", "device", "const") for v in (0, 1, 2)]
    a, va = ch.pick("first", ops if T else [("eps", 0), ("perm", 0), ("device", 0)])
    b, vb = ch.pick("second", ops if T else [("eps", 1), ("device", 0)])
    i = ch.pick("preempt first", points(events(a, va, "two"), *((2, 1) if T else (2, 0))))
    j = ch.pick("preempt second", points(events(b, vb, "two"), *((2, 1) if T else (2, 0))))
    return dict(a=[a, va], b=[b, vb], mode="two", plan=[[0, i], [1, j]])


def schedule(cfg):
    w = base()
    glob = settings()
    s = Sched([tuple(p) for p in cfg["plan"]], cfg["mode"] == "bytecode", FILES if cfg["mode"] == "two" else None)
    (a, va), (b, vb) = cfg["a"], cfg["b"]
    s.go(lambda q: K[a](q, va), lambda q: K[b](q, vb), w)
    out = []
    for i in (0, 1):
        ok, r = s.out[i]
        out.append((ok, freeze(w.strip(r)) if ok else r))
    try:
        after = (True, post(w, [cfg[k] for k in "ab" if cfg[k][0] in OBS]))
    except Exception as e:  # noqa: BLE001
        after = (False, f"{type(e).__name__}: {str(e)[:160]}")
    return out, after, differ(settings(), glob, 0), s.count, s.blocked, len(s.plan)


def run(cfg, rec):
    base()
    refs = [ref(*cfg["a"]), ref(*cfg["b"])]
    rec.calls += 2 + len(POST)
    ok, r = fork(schedule, cfg)
    if not ok:
        rec.fail(f"schedule cannot be executed: {r}")
        return
    out, after, glob, count, blocked, left = r
    rec.note["events"] = sum(count)
    rec.note["schedules_where_the_preempted_thread_held_a_lock"] = int(blocked > 0)
    rec.note["schedules_with_all_preemptions_taken"] = int(left == 0)
    for i, nm in ((0, "first"), (1, "second")):
        (f, v), (okr, rv), (oki, ri) = cfg["ab"[i]], refs[i], out[i]
        rec.comparisons += 1
        if not okr:
            rec.fail(f"{f} fails alone: {rv}")
        elif not oki:
            rec.fail(f"{nm} thread ({f} {v}) raised {ri}")
        else:
            d = differ(ri, rv, 1e-12)
            if d:
                rec.fail(f"{nm} thread: result of {f} {v}{d}")
    okp, rp = post_ref()
    rec.comparisons += len(POST) + 1
    if not okp:
        rec.fail(f"operations afterwards fail alone: {rp}")
    elif not after[0]:
        rec.fail(f"afterwards: {after[1]}")
    else:
        more = [cfg[k] for k in "ab" if cfg[k][0] in OBS]
        for (f, v), x, y in zip(POST + more, after[1][0], rp[0] + [ref(*k)[1] for k in more]):
            d = differ(x, y, 1e-12)
            if d:
                rec.fail(f"afterwards: {f} {v}{d}")
        d = differ(after[1][1], rp[1], 0)
        if d:
            rec.fail(f"state afterwards{d}")
    if glob:
        rec.fail(f"settings afterwards{glob}")
    rec.outcome.update(repr((cfg["a"], cfg["b"], cfg["plan"])).encode())
