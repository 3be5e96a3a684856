"""C01: Mie coefficients of any layered sphere equal the multi-precision reference."""
import numpy as np

from mc.world import N, Config, ms

LEVEL = "model_checking"
CHUNK = 4
RULE = (
    "Every layer stack over an alphabet of refractive indices (grown layer by layer up to the stated depth) is "
    "combined with every size parameter, radius pattern, host index and truncation mode of its family; a,b of the "
    "real solver are compared order by order with an independent multi-precision boundary-value solution."
)
BOUNDS = {
    "quick": "L=1: 11 letters x 19 sizes (1e-2..150, multiples of pi included) x 3 hosts; L=2: 81 stacks x 5 sizes x 3 patterns x 2 hosts; "
    "L=3: 125 x 3 x 3; L=4: 81 x 2 x 2; L=5..8 two-letter stacks; sizes 500..4300 for 5 stacks.",
    "thorough": "L=1: 11 letters x 29 sizes (1e-3..2000) x 4 hosts; L=2: 121 x 9 x 5 x 3; L=3: 343 x 4 x 4; L=4: 256 x 3 x 3; L=5: 243 x 2 x 2; L=6..10 two-letter stacks; sizes 500..6000 for 8 stacks.",
}
ASSUMPTIONS = [
    "mc/oracle.py (mpmath, textbook boundary conditions) is right; setup cross-validates it against scattnlay and treams",
    "values outside the finite alphabets are not covered",
]
PI = float(np.pi)
SIZES_Q = [1.0, 0.01, 0.1, 0.5, 2.0, PI / 2, PI, 2 * PI, 3 * PI, 4.4934, 5.0, 7.9, 8.0, 8.1, 10.0, 25.0, 20 * PI, 100.0, 150.0]
SIZES_T = SIZES_Q + [1e-3, 0.03, 1.5, 3.0, 15.0, 40.0, 100 * PI, 500.0, 1000.0, 2000.0]


def gen(ch, tier):
    T = tier == "thorough"
    fam = ch.pick("family", ["L1", "L2", "L3", "L4", "L5", "deep", "big", "huge"])
    L = {"L1": 1, "L2": 2, "L3": 3, "L4": 4, "L5": 5}.get(fam)
    nmax = "auto"
    if fam == "L1":
        stack = [ch.pick("layer", list(N))]
        x = ch.pick("size", SIZES_T if T else SIZES_Q)
        env = ch.pick("host", [1.0, 1.33, 2.0] + ([1.7] if T else []))
        pat = "even"
        nmax = ch.pick("orders", ["auto", 1, 3])
    elif fam == "L2":
        al = list(N) if T else ["d15", "d40", "a", "m", "v", "w", "t", "s", "g"]
        stack = [ch.pick("layer", al) for _ in range(2)]
        x = ch.pick("size", [1.0, 0.05, PI, 4.0, 12.0] + ([0.3, 2 * PI, 8.0, 30.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out", "thin_in"] + (["thin_mid", "shell_film"] if T else []))
        env = ch.pick("host", [1.0, 1.33] + ([1.7] if T else []))
    elif fam == "L3":
        al = ["d15", "d40", "a", "m", "v"] + (["s", "g"] if T else [])
        stack = [ch.pick("layer", al) for _ in range(3)]
        x = ch.pick("size", [0.5, 5.0, 20.0] + ([2 * PI] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out", "thin_in"] + (["thin_mid"] if T else []))
        env = 1.0 if x != 5.0 else 1.33
    elif fam == "L4":
        al = ["d15", "m", "a"] + (["d40"] if T else [])
        stack = [ch.pick("layer", al) for _ in range(4)]
        x = ch.pick("size", [1.0, 8.0] + ([25.0] if T else []))
        pat = ch.pick("pattern", ["even", "thin_mid"] + (["thin_in"] if T else []))
        env = 1.33
    elif fam == "L5":
        al = ["d40", "m"] + (["a"] if T else [])
        stack = [ch.pick("layer", al) for _ in range(5)]
        x = ch.pick("size", [3.0] + ([10.0] if T else []))
        pat = ch.pick("pattern", ["even"] + (["thin_out"] if T else []))
        env = 1.0
    elif fam == "deep":
        L = ch.pick("L", [6, 8] + ([7, 9, 10] if T else []))
        al = ch.pick("pair", [["d15", "a"]] + ([["d40", "m"]] if T else []))
        # all words of two letters with period <= 4: every residue pattern of a long stack
        word = [ch.pick("layer", al) for _ in range(4)]
        stack = [word[i % 4] for i in range(L)]
        x = 6.0
        pat = "even"
        env = 1.0
    elif fam == "huge":  # up to thousands: orders beyond the recurrences of small particles
        stack = list(ch.pick("stack", [("d15",), ("v",), ("a",), ("d15", "v"), ("d15", "d40", "d15")] + ([("d40",), ("v", "a"), ("d15", "v", "d40", "d15")] if T else [])))
        x = ch.pick("size", [500.0, 1000.0, 2000.0, 4300.0] + ([320 * PI, 4100.0, 6000.0] if T else []))
        if x > 3000 and len(stack) > (2 if T else 1):
            ch.prune()
        pat = ch.pick("pattern", ["even"] + (["thin_out"] if T or len(stack) == 2 else []))
        env = ch.pick("host", [1.0, 1.33] if T or x == 500.0 else [1.33 if len(stack) == 1 else 1.0])
        nmax = ch.pick("orders", ["auto"] + ([50] if x == 2000.0 else []))
    else:  # large multilayers
        stack = list(ch.pick("stack", [("d15",), ("m",), ("d15", "m"), ("m", "d15"), ("a", "d15", "s"), ("d15", "d40", "d15")]))
        x = ch.pick("size", [60.0, 150.0] + ([300.0, 100 * PI] if T else []))
        pat = ch.pick("pattern", ["even", "thin_out"])
        env = ch.pick("host", [1.0, 1.5])
    return dict(family=fam, stack=stack, x=x, pattern=pat, host=env, orders=nmax)


def run(cfg, rec):
    c = Config(cfg["x"], cfg["stack"], cfg["pattern"], cfg["host"])
    nm = None if cfg["orders"] == "auto" else cfg["orders"]
    o = rec.call(ms.mie_coefficients, c.kt(), n_max=nm, **c.kw())
    n_max = int(o["n_max"])
    if nm is not None:
        rec.true("n_max", n_max == nm, f"{n_max} != {nm}")
    rec.true("orders", list(o["n"].tolist()) == list(range(1, n_max + 1)))
    # model order: enough to judge every returned order; orders far above the size parameter
    # are below 1e-60 and are compared with zero
    ncut = min(n_max, int(cfg["x"] + 6 * cfg["x"] ** (1 / 3) + 14))
    S = c.model(ncut)
    for key, ref in (("a_n", S.a), ("b_n", S.b)):
        floor = 1e-60 if cfg["x"] < 300 else 1e-17
        got = o[key].numpy()
        rec.true(f"{key} shape", got.shape == (n_max, 1, 1), str(got.shape))
        got = got[:, 0, 0]
        rec.close(key, got[:ncut], ref, rtol=1e-8, atol=1e-12)
        # order by order, relative to the natural magnitude of that order (tiny spheres, high orders)
        rec.close(key + " (natural scale)", got[:ncut], ref, rtol=1e-8, scale=np.maximum(S.scale, np.abs(ref)), atol=floor)
        if n_max > ncut:
            rec.close(key + " tail", got[ncut:], np.zeros(n_max - ncut), atol=1e-12)
