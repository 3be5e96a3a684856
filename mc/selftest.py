"""Cross-validation of the reference model (mc/oracle.py) and of the explorer; does not touch pymiediff."""
import itertools
import sys

import numpy as np

from mc import engine
from mc.oracle import Sphere


def device():
    """the simulated device refuses what accelerators refuse, and nothing else"""
    import torch

    from mc.simdev import DEVICE, Device, is_dev, put

    c3, c0, i3 = torch.arange(3.0), torch.tensor(2.0), torch.tensor([0, 2, 1])
    bad = 0
    with Device():
        d3, d0 = put(torch.arange(3.0)), put(torch.tensor(2.0))

        def setitem(t, v, i=slice(None)):
            t[i] = v
            return t

        refused = [lambda: d3 + c3, lambda: c3 * d3, lambda: torch.where(d3 > 1, d3, c3), lambda: torch.stack([d0, c0]), lambda: torch.cat([d3, c3]), lambda: d3 @ c3, lambda: c3[put(i3)],
                   lambda: setitem(c3.clone(), d3 + 0, put(i3)), lambda: d3.numpy(), lambda: np.asarray(d3), lambda: torch.maximum(d3, c3), lambda: torch.complex(d3, c3), lambda: torch.outer(d3, c3),
                   lambda: d3.gather(0, i3), lambda: torch.searchsorted(d3, c3), lambda: c3.clone().add_(d3), lambda: torch.einsum("i,i->", d3, c3), lambda: torch.zeros(2, device="cuda")]
        allowed = [lambda: d3 + c0, lambda: c0 * d3, lambda: d3[i3], lambda: d3 + 1, lambda: torch.zeros(3, device=DEVICE) + d3, lambda: torch.tensor([1.0, 2, 3], device=DEVICE) * d3, lambda: torch.as_tensor(c3, device=DEVICE) + d3,
                   lambda: torch.arange(3, device=d3.device) + d3, lambda: c3.to(d3) + d3, lambda: torch.stack([d0, d0]), lambda: setitem(d3.clone(), 1.0), lambda: torch.zeros_like(d3) + d3, lambda: d3.new_zeros(3) + d3,
                   lambda: torch.where(d3 > 1, d3, c0), lambda: torch.complex(d3, d3).conj().real, lambda: setitem(d3.clone(), d3, d3 > 0) if False else d3[d3 > 0]]
        for i, f in enumerate(refused):
            try:
                f()
            except (RuntimeError, TypeError, AssertionError):
                continue
            print("simulated device accepted operation", i)
            bad += 1
        for i, f in enumerate(allowed):
            if not is_dev(f()):
                print("result of operation", i, "left the simulated device")
                bad += 1
        if is_dev(d3.cpu()) or is_dev(c3 + d3.cpu()) or float(d0) != 2.0 or d3.tolist() != [0, 1, 2] or int(d3.max()) != 2:
            print("simulated device: copy to the CPU")
            bad += 1
        x = put(torch.tensor([1.0, 2.0]), True)
        (x.cpu() ** 2).sum().backward()
        if not is_dev(x.grad) or x.grad.tolist() != [2, 4]:
            print("simulated device: gradient")
            bad += 1
    if torch.zeros(2).device.type != "cpu":
        bad += 1
    return bad


def main():
    bad = 0
    # 1. explorer: complete enumeration of a known tree
    def gen(ch):
        a = ch.pick("a", [0, 1, 2])
        b = ch.pick("b", list(range(a + 1)))
        if a == 2 and b == 1:
            ch.prune()
        return dict(a=a, b=b)

    t = engine.Tree(gen)
    got = [(c["a"], c["b"]) for _, c in t]
    want = [(a, b) for a in range(3) for b in range(a + 1) if (a, b) != (2, 1)]
    if got != want or t.nodes != 1 + 3 + 6 or t.pruned != 1:
        print("explorer self-test failed", got, t.nodes, t.pruned)
        bad += 1
    # 2. reference model against scattnlay and treams
    import scattnlay
    import treams

    worst = 0.0
    ns = [1.5, 4.0, 2 + 0.5j, 0.2 + 3j]
    count = 0
    for L in (1, 2, 3):
        for n in itertools.product(ns, repeat=L):
            for xo in (0.5, 3.0):
                r = [(i + 1) / L * 100.0 for i in range(L)]
                k0 = xo / 100.0
                S = Sphere(k0, r, n, 1.0, 8)
                an, bn = scattnlay.scattcoeffs(np.array(r) * k0, np.array(n, complex), nmax=8)[1:3]
                an, bn = np.asarray(an).ravel()[:8], np.asarray(bn).ravel()[:8]
                m = min(len(an), 8)
                e = max(np.max(np.abs(an[:m] - S.a[:m])), np.max(np.abs(bn[:m] - S.b[:m])))
                # treams: helicity basis coefficients  (sum/difference of -a, -b)
                for l in (1, 2, 3):
                    tm = treams.coeffs.mie(l, np.array(r) * k0, [complex(q) ** 2 for q in n] + [1.0], [1.0] * (L + 1), [0.0] * (L + 1))
                    a2, b2 = -(tm[1, 1] + tm[0, 1]), -(tm[1, 1] - tm[0, 1])
                    d = min(abs(a2 - S.a[l - 1]) + abs(b2 - S.b[l - 1]), abs(b2 - S.a[l - 1]) + abs(a2 - S.b[l - 1]))
                    e = max(e, d)
                worst = max(worst, e)
                count += 1
    print(f"reference model vs scattnlay/treams: {count} particles, worst difference {worst:.2e}")
    if not worst < 1e-8:
        bad += 1
    # 3. fields of the model: tangential continuity, host-only limit and divergence-free scaling
    S = Sphere(0.02, [40.0, 90.0, 130.0], [1.5, 0.2 + 3j, 2 + 0.5j], 1.33, 25)
    pts = [(0.6 * q, 0.48 * q, 0.64 * q) for q in (40.0, 90.0, 130.0)]
    for i, p in enumerate(pts):
        for sx, sy, sz in itertools.product((1, -1), repeat=3):
            v = np.array([[p[0] * sx, p[1] * sy, p[2] * sz]])
            e1, h1 = S.fields(v, scattered_outside=False, region=i)
            e2, h2 = S.fields(v, scattered_outside=False, region=i + 1)
            er = v[0] / np.linalg.norm(v)
            n1 = S.n[i]
            n2 = S.n[i + 1] if i < 2 else S.n_env
            d = max(np.max(np.abs(np.cross(er, e1[0] - e2[0]))), np.max(np.abs(h1 - h2)), abs(n1**2 * e1[0] @ er - n2**2 * e2[0] @ er))
            if d > 1e-9:
                print("model fields are not continuous", i, d)
                bad += 1
    e, h = S.fields(np.array([[50.0, 120.0, -90.0]]), scattered_outside=False)
    es, hs = S.fields(np.array([[50.0, 120.0, -90.0]]), scattered_outside=True)
    inc = np.exp(1j * 0.02 * 1.33 * -90.0)
    if np.max(np.abs(e - es - [[inc, 0, 0]])) > 1e-9 or np.max(np.abs(h - hs - [[0, 1.33 * inc, 0]])) > 1e-9:
        print("model incident field wrong", e - es, h - hs, inc)
        bad += 1
    bad += device()
    print("self-test", "FAILED" if bad else "passed")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
