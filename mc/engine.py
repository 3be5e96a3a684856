"""Stateless exhaustive explorer for the real pymiediff code.

A check is a pair of functions

    gen(ch, tier)   a program over the choice operator ch.pick(name, options); every
                    complete choice sequence yields one configuration (a JSON-able dict)
    run(cfg, rec)   executes that configuration on the real implementation and on the
                    reference model and compares them through the recorder `rec`

The explorer enumerates the whole choice tree of `gen` by depth-first backtracking (no
sampling), and executes every leaf.  Everything is deterministic: the position in the
tree is the replayable schedule.
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXEC_TIMEOUT = 150  # s for one execution (an execution without an answer is a violation)


class Prune(Exception):
    """this choice sequence is outside the stated space"""


class ImplError(Exception):
    """the implementation raised on an input for which the property demands an answer"""


class ImplTimeout(Exception):
    pass


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.trail = []  # (name, index, number of options)

    def pick(self, name, options):
        options = list(options)
        if not options:
            raise Prune
        i = len(self.trail)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= len(options):
            raise RuntimeError(f"choice tree diverged at {name}")
        self.trail.append((name, idx, len(options)))
        return options[idx]

    def prune(self):
        raise Prune


class Tree:
    """depth-first enumeration of all leaves of a choice program"""

    def __init__(self, gen):
        self.gen = gen
        self.nodes = 0
        self.pruned = 0

    def __iter__(self):
        prefix = []
        shared = 0  # nodes of the current trail that were counted before
        self.nodes = 1
        while True:
            ch = Chooser(prefix)
            try:
                cfg = self.gen(ch)
            except Prune:
                cfg = None
                self.pruned += 1
            self.nodes += len(ch.trail) - shared
            if cfg is not None:
                yield [t[1] for t in ch.trail], cfg
            trail = ch.trail
            while trail and trail[-1][1] + 1 >= trail[-1][2]:
                trail.pop()
            if not trail:
                return
            prefix = [t[1] for t in trail]
            prefix[-1] += 1
            shared = len(prefix) - 1


def to_np(x):
    if hasattr(x, "detach"):
        x = x.numpy(force=True)
    return np.asarray(x)


class Recorder:
    """what one execution did and found"""

    def __init__(self):
        self.calls = 0  # API steps taken by the implementation
        self.comparisons = 0  # scalar comparisons against the model
        self.viol = []
        self.maxratio = 0.0  # worst error / tolerance
        self.worst = ""
        self.outcome = hashlib.sha1()
        self.note = {}

    # -- running the implementation
    def call(self, fn, *a, **k):
        self.calls += 1
        try:
            return fn(*a, **k)
        except (ImplTimeout, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[-2:])
            raise ImplError(f"{type(e).__name__}: {str(e)[:160]} [{where}]") from e

    def must_raise(self, name, fn, *a, exc=(Exception,), **k):
        """the input is inconsistent and has to be rejected with an exception"""
        self.calls += 1
        self.comparisons += 1
        try:
            r = fn(*a, **k)
        except ImplTimeout:
            raise
        except exc as e:
            self.outcome.update(type(e).__name__.encode())
            return
        except Exception as e:  # noqa: BLE001
            self.fail(f"{name}: rejected with {type(e).__name__} ({str(e)[:80]})")
            return
        self.fail(f"{name}: inconsistent input accepted, returned {str(type(r))}")

    # -- comparing
    def fail(self, msg):
        self.viol.append(msg)

    def true(self, name, cond, detail=""):
        self.comparisons += 1
        if not cond:
            self.fail(f"{name} {detail}")

    def close(self, name, got, ref, rtol=1e-9, atol=0.0, scale=None, shape=True):
        """|got - ref| <= atol + rtol * (|ref| or scale)   element by element"""
        g, r = to_np(got), to_np(ref)
        if shape and g.shape != r.shape:
            self.comparisons += 1
            self.fail(f"{name}: shape {g.shape}, expected {r.shape}")
            return
        if not shape:
            try:
                g, r = np.broadcast_arrays(g, r)
            except ValueError:
                self.comparisons += 1
                self.fail(f"{name}: shape {g.shape}, expected {r.shape}")
                return
        self.comparisons += int(max(g.size, 1))
        if g.size == 0:
            return
        if g.dtype == object or r.dtype == object:
            self.fail(f"{name}: not numeric")
            return
        rr = r.astype(complex)
        gg = g.astype(complex)
        ok = np.isfinite(gg)
        if not ok.all():
            bad = tuple(int(i) for i in np.argwhere(~ok)[0])
            self.fail(f"{name}{list(bad)}: not finite ({g[bad]}), expected {r[bad]}")
            return
        s = np.abs(rr) if scale is None else np.abs(np.asarray(scale, dtype=float))
        tol = atol + rtol * s
        err = np.abs(gg - rr)
        with np.errstate(divide="ignore", invalid="ignore"):
            ratio = np.where(err == 0, 0.0, err / np.broadcast_to(tol, err.shape))
        m = float(np.max(ratio))
        # 6 significant digits of the model: the observable outcome of this execution
        self.outcome.update(np.array2string(np.ravel(rr)[:24], precision=5).encode())
        if m > self.maxratio:
            self.maxratio = m
            i = tuple(int(q) for q in np.unravel_index(int(np.argmax(ratio)), ratio.shape))
            self.worst = f"{name}{list(i)} err={err[i]:.2e}"
        if not (m <= 1.0):
            i = tuple(int(q) for q in np.unravel_index(int(np.nanargmax(ratio)), ratio.shape))
            self.fail(f"{name}{list(i)}: got {g[i]}, expected {r[i]} (error {err[i]:.3e}, tolerance {np.broadcast_to(tol, err.shape)[i]:.1e})")

    def same(self, name, got, ref):
        """bit-identical"""
        g, r = to_np(got), to_np(ref)
        self.comparisons += int(max(g.size, 1))
        if g.shape != r.shape or g.dtype != r.dtype:
            self.fail(f"{name}: {g.shape}/{g.dtype}, expected {r.shape}/{r.dtype}")
        elif not np.array_equal(g, r, equal_nan=g.dtype.kind in "fc"):
            self.fail(f"{name}: value changed (max difference {np.max(np.abs(np.ravel(g) - np.ravel(r))):.3e})")
        self.outcome.update(np.array2string(np.ravel(r)[:24], precision=5).encode())


def _alarm(signum, frame):
    raise ImplTimeout("no answer")


_RUN = None


def execute(run, cfg, timeout=EXEC_TIMEOUT):
    rec = Recorder()
    err = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        run(cfg, rec)
    except ImplError as e:
        rec.fail(f"implementation raised {e}")
    except ImplTimeout:
        rec.fail(f"no answer within {timeout} s")
    except Exception:  # noqa: BLE001
        # never happens on a tree where the property holds: the result has a form that
        # cannot even be compared with the model
        err = traceback.format_exc()
        rec.fail("result cannot be judged: " + err.strip().splitlines()[-1][:200])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return dict(
        calls=rec.calls,
        comparisons=rec.comparisons,
        viol=rec.viol[:40],
        maxratio=rec.maxratio,
        worst=rec.worst,
        outcome=rec.outcome.hexdigest()[:16],
        note=rec.note,
        error=err,
    )


def _worker(jobs):
    return [(i, execute(_RUN, cfg)) for i, cfg in jobs]


def cfg_hash(cfg):
    return hashlib.sha1(json.dumps(cfg, sort_keys=True).encode()).hexdigest()[:12]


def explore(gen, run, deadline, jobs=8, max_viol=int(os.environ.get("VERIF_MAXVIOL", "25")), chunk=4, progress=None,
            ignore=lambda v: False):
    """enumerate every leaf of gen, execute it; returns the aggregated result"""
    global _RUN
    _RUN = run
    tree = Tree(gen)
    leaves, seen = [], set()
    for trail, cfg in tree:
        h = cfg_hash(cfg)
        if h in seen:
            continue  # two choice sequences, same configuration: executed once
        seen.add(h)
        leaves.append((trail, cfg))
    R = dict(
        nodes=tree.nodes, pruned=tree.pruned, leaves=len(leaves), executed=0, calls=0,
        comparisons=0, outcomes=set(), viol=[], maxratio=0.0, worst="", worst_cfg=None,
        errors=[], complete=False, samples=[], notes={}, nontrivial=0,
    )
    want = {0, len(leaves) // 3, (2 * len(leaves)) // 3, len(leaves) - 1}
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    # small batches, in simplest-first order; the first ones singly so that errors show early
    batches = [[(i, leaves[i][1]) for i in range(a, min(a + chunk, len(leaves)))] for a in range(0, len(leaves), chunk)]
    pool = ctx.Pool(jobs) if jobs > 1 else None
    it = pool.imap(_worker, batches, chunksize=1) if pool else None

    def results():
        for b in batches:
            if pool is None:
                yield from _worker(b)
            else:
                yield from it.next(timeout=max(1.0, deadline - time.time()))

    stream = results()
    try:
        while True:
            try:
                i, r = next(stream)
            except StopIteration:
                R["complete"] = not R["errors"]
                break
            except multiprocessing.TimeoutError:
                break
            R["executed"] += 1
            R["calls"] += r["calls"]
            R["comparisons"] += r["comparisons"]
            if r["comparisons"]:
                R["nontrivial"] += 1
            R["outcomes"].add(r["outcome"])
            for k, v in r["note"].items():
                R["notes"][k] = R["notes"].get(k, 0) + v
            known = any(ignore(dict(trail=leaves[i][0], cfg=leaves[i][1], message=m)) for m in r["viol"])
            if r["maxratio"] > R["maxratio"] and not known:
                R["maxratio"], R["worst"], R["worst_cfg"] = r["maxratio"], r["worst"], leaves[i][1]
            if r["error"]:
                R["errors"].append((leaves[i][1], r["error"]))
                if len(R["errors"]) > 3:
                    break
            for m in r["viol"]:
                R["viol"].append(dict(trail=leaves[i][0], cfg=leaves[i][1], message=m))
            if i in want:
                R["samples"].append(dict(choices=leaves[i][0], cfg=leaves[i][1], api_calls=r["calls"],
                                         comparisons=r["comparisons"], worst=r["worst"]))
            if sum(1 for v in R["viol"] if not ignore(v)) >= max_viol or time.time() > deadline:
                break
            if progress and R["executed"] % progress == 0:
                print(f"  .. {R['executed']}/{len(leaves)} {time.time() - t0:.0f}s worst {R['maxratio']:.2g}",
                      file=sys.stderr, flush=True)
    finally:
        if pool:
            pool.terminate()
            pool.join()
    return R
