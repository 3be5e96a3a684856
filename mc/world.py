"""Alphabets shared by the checks, and the bridge between a configuration and the real API."""
import math

import numpy as np
import torch

import pymiediff as pmd
from pymiediff import multishell as ms

F = torch.float64
C = torch.complex128
PI = math.pi

# refractive index letters, simplest first
N = {
    "d15": 1.5 + 0j,          # dielectric
    "d40": 4.0 + 0j,          # high index
    "a": 2.0 + 0.5j,          # absorber
    "m": 0.2 + 3.0j,          # metal
    "v": 1.0 + 0j,            # void
    "w": 1.33 + 0j,           # equals one of the host letters
    "l": 0.7 + 0j,            # below one
    "t": 1.5 + 1e-6j,         # almost lossless
    "s": 3.5 + 2.0j,          # strong absorber
    "g": 1.5 - 0.02j,         # gain
    "M": 0.05 + 6.0j,         # strong metal
    "z": 0.1 + 0.01j,         # epsilon near zero
    "e": 0.02 + 0.002j,       # epsilon very near zero
}
# radius patterns: fraction of the outer radius of each interface for L layers
def radii(pattern, L):
    if pattern == "even":
        f = [(i + 1) / L for i in range(L)]
    elif pattern == "thin_out":   # thin outermost layers
        f = [1 - 0.01 * (L - 1 - i) for i in range(L)]
    elif pattern == "thin_in":    # tiny core, thin inner layers
        f = [0.05 + 0.02 * i for i in range(L - 1)] + [1.0]
    elif pattern == "thin_mid":   # one very thin layer in the middle
        f = [(i + 1) / L for i in range(L)]
        if L >= 2:
            f[L // 2 - 1] = f[L // 2] - 1e-3
    elif pattern == "shell_film":  # nanometre-thin coating of everything
        f = [1 - 1e-4 * (L - 1 - i) for i in range(L)]
    else:
        raise KeyError(pattern)
    return f


def t64(x):
    return torch.tensor(x, dtype=F)


def tc(x):
    return torch.tensor(x, dtype=C)


def to_np(x):
    if hasattr(x, "detach"):
        x = x.numpy(force=True)
    return np.asarray(x)


def laid(t, f):
    """the same values in another memory layout; "lazy" leaves a pending conjugation or negation in the tensor"""
    if f == "strided":
        return torch.stack((t, 0 * t), -1)[..., 0]
    if f == "transposed":
        return t.transpose(0, -1).contiguous().transpose(0, -1) if t.ndim else t
    if f == "lazy":
        return t.conj().resolve_conj().conj() if t.is_complex() else torch.complex(0 * t, -t).conj().imag
    if f == "expanded":
        return t[..., :1].clone().expand(t.shape)
    return t


class Config:
    """one particle, one wavelength: x = size parameter of the outer radius in the host"""

    def __init__(self, x, letters, pattern="even", n_env=1.0, r_out=100.0):
        self.r = [r_out * f for f in radii(pattern, len(letters))]
        self.n = [N[c] if isinstance(c, str) else complex(c) for c in letters]
        self.n_env = float(n_env)
        self.k0 = float(x) / (self.n_env * self.r[-1])

    def kt(self):
        return t64([self.k0])

    def kw(self):
        return dict(
            r_layers=t64(self.r),
            eps_layers=tc(self.n) ** 2,
            eps_env=t64(self.n_env**2),
        )

    def kt(self):
        return t64([self.k0])

    def model(self, n_max):
        from mc.oracle import Sphere

        # indices as the implementation is given them: the root of the permittivity
        n = [complex(np.sqrt(complex(e))) for e in (np.array(self.n, complex) ** 2)]
        return Sphere(self.k0, self.r, n, math.sqrt(self.n_env**2), n_max)


def sqz(x):
    """drop particle and wavelength axes of a single-particle, single-wavelength result"""
    return np.asarray(x.detach().numpy())


def legacy_domain(c, limit=8.0):
    """the closed-form core-shell formulas of the torch/scipy backends lose all digits in strong absorbers"""
    x = max(c.k0 * c.r[-1] * abs(m.imag) for m in c.n)
    return x <= limit


def probes(r, extra=()):
    """simplest-first probe alphabet around radii r: (name, point)"""
    R = r[-1]
    out = [("out_oct1", (0.7 * R, 0.8 * R, 0.9 * R)), ("out_z", (0.0, 0.0, 1.5 * R)), ("out_-z", (0.0, 0.0, -1.3 * R)),
           ("out_x", (1.2 * R, 0.0, 0.0)), ("out_-x", (-1.4 * R, 0.0, 0.0)), ("out_y", (0.0, 1.7 * R, 0.0)), ("out_-y", (0.0, -1.1 * R, 0.0))]
    return out + list(extra)


def octants(rad):
    """eight generic directions, one per octant, at radius rad"""
    a, b, c = 0.6, 0.48, 0.64  # norm 1
    return [(sx * a * rad, sy * b * rad, sz * c * rad) for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]


AXES = [(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0),
        (1.0, 0.0, 1.0), (0.0, 1.0, -1.0), (1.0, 1.0, 0.0), (1e-9, 0.0, 1.0), (0.0, 1e-9, -1.0), (1e-5, 1e-5, 1.0)]


def directions():
    d = octants(1.0)
    for v in AXES:
        s = math.sqrt(sum(q * q for q in v))
        d.append(tuple(q / s for q in v))
    return d


BACKENDS = [("pena", "recurrence"), ("torch", "recurrence"), ("torch", "ratios"), ("scipy", "recurrence")]
FIELDS = ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t")


def bk(b):
    return dict(backend=b[0], which_jn=b[1])


def wiscombe(x):
    return int(x + 4.05 * x ** (1 / 3) + 2.5)


def fmax(a):
    """scale of a vector field: largest component modulus per position (last axis = components)"""
    a = np.asarray(a)
    return np.max(np.abs(a), axis=-1, keepdims=True)


def natural(S, x):
    """natural magnitudes (what a particle of this size could scatter) of efficiencies and amplitudes"""
    n = np.arange(1, S.n_max + 1)
    return dict(q=float(2 / x**2 * np.sum((2 * n + 1) * S.scale)), s=float(np.sum((n + 0.5) * S.scale)))
