"""High-precision reference model of a plane wave scattered by a layered sphere.

Independent of pymiediff: textbook boundary conditions (continuity of the
tangential E and H of every partial wave) solved with multi-precision
Riccati-Bessel functions.  Deliberately boring: upward three-term recurrences
carried with enough digits that their cancellation cannot matter.

Conventions (those of the documentation): time factor exp(-i w t) (absorption is
Im(n) > 0), incident wave E0 * exp(i k z) x, H in units of E (Z0 = 1).
"""
import math

import mpmath as mp
import numpy as np


def _digits(n_max, zs):
    """decimal digits that survive upward recurrences of psi up to n_max at every z."""
    d = 0.0
    for z in zs:
        a = abs(complex(z))
        if a == 0:
            continue
        # chi_n(z) grows like exp(n (t - tanh t)), cosh t = n / |z|, above the turning point
        if n_max + 1 > a:
            n = n_max + 2
            t = math.acosh(n / a)
            d = max(d, 2 * n * (t - math.tanh(t)) / math.log(10))
        d = max(d, 2 * abs(complex(z).imag) / math.log(10))
    return int(50 + 1.15 * d)


def riccati(n_max, z):
    """psi_n, psi'_n, xi_n, xi'_n (orders 0..n_max) at mp number z (current mp precision)."""
    s, c = mp.sin(z), mp.cos(z)
    psi = [s, s / z - c]
    chi = [c, c / z + s]  # chi_n = -z y_n
    for n in range(1, n_max):
        f = (2 * n + 1) / z
        psi.append(f * psi[n] - psi[n - 1])
        chi.append(f * chi[n] - chi[n - 1])
    psi, chi = psi[: n_max + 1], chi[: n_max + 1]
    xi = [p - 1j * q for p, q in zip(psi, chi)]
    dpsi = [c] + [psi[n - 1] - n * psi[n] / z for n in range(1, n_max + 1)]
    dchi = [-s] + [chi[n - 1] - n * chi[n] / z for n in range(1, n_max + 1)]
    dxi = [p - 1j * q for p, q in zip(dpsi, dchi)]
    return psi, dpsi, xi, dxi


class Sphere:
    """One particle at one wavenumber.

    k0: vacuum wavenumber, r: increasing radii, n: complex refractive indices,
    n_env: host index.  Numbers are taken as the exact doubles given.
    """

    def __init__(self, k0, r, n, n_env, n_max):
        self.k0, self.r, self.n, self.n_env = float(k0), [float(x) for x in r], [complex(x) for x in n], complex(n_env)
        self.n_max = N = int(n_max)
        L = len(self.r)
        zs = []
        for l in range(L):
            zs += [self.k0 * self.r[l] * self.n[l]]
            zs += [self.k0 * self.r[l] * (self.n[l + 1] if l + 1 < L else self.n_env)]
        self.dps = _digits(N, zs)
        with mp.workdps(self.dps):
            k0m = mp.mpf(self.k0)
            ns = [mp.mpc(x) for x in self.n] + [mp.mpc(self.n_env)]
            rs = [mp.mpf(x) for x in self.r]
            # region l: u = A psi + B xi ; region 0: A=1,B=0 (normalised later)
            A = {p: [[mp.mpc(1)] * (N + 1)] for p in "EM"}
            B = {p: [[mp.mpc(0)] * (N + 1)] for p in "EM"}
            for l in range(L):
                zi, zo = ns[l] * k0m * rs[l], ns[l + 1] * k0m * rs[l]
                p1, d1, x1, e1 = riccati(N, zi)
                p2, d2, x2, e2 = riccati(N, zo)
                for pol in "EM":
                    Al, Bl = A[pol][l], B[pol][l]
                    An, Bn = [], []
                    for n in range(N + 1):
                        u = Al[n] * p1[n] + Bl[n] * x1[n]
                        du = Al[n] * d1[n] + Bl[n] * e1[n]
                        if pol == "E":  # TM: u continuous, u'/m continuous
                            v, dv = u, du * ns[l + 1] / ns[l]
                        else:  # TE: u/m continuous, u' continuous
                            v, dv = u * ns[l + 1] / ns[l], du
                        # Wronskian psi xi' - psi' xi = i
                        An.append((v * e2[n] - dv * x2[n]) / 1j)
                        Bn.append((dv * p2[n] - v * d2[n]) / 1j)
                    A[pol].append(An)
                    B[pol].append(Bn)
            # |psi_n(x)/xi_n(x)|: the natural magnitude of the coefficients of order n
            self.scale = np.array([float(abs(p2[n] / x2[n])) for n in range(1, N + 1)])
            # outside: u = psi - a xi  -> scale so that A_out = 1
            self.coef = {}
            for pol in "EM":
                f = [1 / A[pol][L][n] for n in range(N + 1)]
                self.coef[pol] = (
                    [[A[pol][l][n] * f[n] for n in range(N + 1)] for l in range(L + 1)],
                    [[B[pol][l][n] * f[n] for n in range(N + 1)] for l in range(L + 1)],
                )
            self.a = np.array([complex(-self.coef["E"][1][L][n]) for n in range(1, N + 1)])
            self.b = np.array([complex(-self.coef["M"][1][L][n]) for n in range(1, N + 1)])

    # --- observables -----------------------------------------------------
    def cross_sections(self):
        k = self.k0 * self.n_env.real
        n = np.arange(1, self.n_max + 1)
        f = 2 * np.pi / k**2 * (2 * n + 1)
        ext = np.stack((f * self.a.real, f * self.b.real))
        sca = np.stack((f * abs(self.a) ** 2, f * abs(self.b) ** 2))
        return ext, sca

    def s12(self, theta):
        theta = np.asarray(theta, dtype=float)
        pi, tau = pi_tau(self.n_max, np.cos(theta))
        n = np.arange(1, self.n_max + 1)[:, None]
        f = (2 * n + 1) / (n * (n + 1))
        s1 = (f * (self.a[:, None] * pi + self.b[:, None] * tau)).sum(0)
        s2 = (f * (self.a[:, None] * tau + self.b[:, None] * pi)).sum(0)
        return s1, s2

    def region(self, rr):
        for l, r in enumerate(self.r):
            if rr <= r:
                return l
        return len(self.r)

    def fields(self, pts, scattered_outside=True, region=None):
        """E_s,H_s (internal field inside; scattered field outside) at cartesian points.

        region: optionally force the expansion of one region for all points
        (limit from that side of an interface)."""
        pts = np.asarray(pts, dtype=float)
        E = np.zeros((len(pts), 3), complex)
        H = np.zeros((len(pts), 3), complex)
        N = self.n_max
        L = len(self.r)
        cache = {}
        for i, (x, y, z) in enumerate(pts):
            rr = math.sqrt(x * x + y * y + z * z)
            l = self.region(rr) if region is None else region
            ct = z / rr if rr > 0 else 1.0
            st = math.sqrt(x * x + y * y) / rr if rr > 0 else 0.0
            ph = math.atan2(y, x) if (x or y) else 0.0
            if rr < 1e-14 * self.r[0]:
                rr = 1e-14 * self.r[0]
            key = (rr, l)
            if key not in cache:
                cache[key] = self._radial(rr, l, scattered_outside)
            uE, dE, uM, rho = cache[key]
            duE, duM = dE
            pi, tau = pi_tau(N, np.array([ct]))
            pi, tau = pi[:, 0], tau[:, 0]
            n = np.arange(1, N + 1)
            En = 1j**n * (2 * n + 1) / (n * (n + 1))
            nmed = self.n[l] if l < L else self.n_env
            cp, sp = math.cos(ph), math.sin(ph)
            nn = n * (n + 1)
            # E = sum En (M_o[uM] - i N_e[uE]),  H = -n sum En (M_e[uE] + i N_o[uM])
            Er = (-1j * En * cp * nn * st * pi * uE / rho**2).sum()
            Et = (En * (cp * pi * uM / rho - 1j * cp * tau * duE / rho)).sum()
            Ep = (En * (-sp * tau * uM / rho + 1j * sp * pi * duE / rho)).sum()
            Hr = -nmed * (1j * En * sp * nn * st * pi * uM / rho**2).sum()
            Ht = -nmed * (En * (-sp * pi * uE / rho + 1j * sp * tau * duM / rho)).sum()
            Hp = -nmed * (En * (-cp * tau * uE / rho + 1j * cp * pi * duM / rho)).sum()
            er = np.array([st * cp, st * sp, ct])
            et = np.array([ct * cp, ct * sp, -st])
            ep = np.array([-sp, cp, 0.0])
            E[i] = Er * er + Et * et + Ep * ep
            H[i] = Hr * er + Ht * et + Hp * ep
        return E, H

    def _radial(self, rr, l, scattered_outside):
        N, L = self.n_max, len(self.r)
        nm = self.n[l] if l < L else self.n_env
        with mp.workdps(max(self.dps, _digits(N, [self.k0 * rr * nm]))):
            z = mp.mpc(nm) * mp.mpf(self.k0) * mp.mpf(rr)
            p, d, x, e = riccati(N, z)
            out = []
            for pol in "EM":
                A, B = self.coef[pol]
                A, B = A[l], B[l]
                if l == L and scattered_outside:
                    A = [mp.mpc(0)] * (N + 1)
                u = np.array([complex(A[n] * p[n] + B[n] * x[n]) for n in range(1, N + 1)])
                du = np.array([complex(A[n] * d[n] + B[n] * e[n]) for n in range(1, N + 1)])
                out.append((u, du))
            (uE, duE), (uM, duM) = out
            return uE, (duE, duM), uM, complex(z)


def pi_tau(n_max, mu):
    """Angular functions for orders 1..n_max; shape (n_max, len(mu))."""
    mu = np.asarray(mu, float)
    pi = [np.zeros_like(mu), np.ones_like(mu)]
    for n in range(2, n_max + 1):
        pi.append(((2 * n - 1) * mu * pi[n - 1] - n * pi[n - 2]) / (n - 1))
    pi = np.array(pi[: n_max + 1])
    n = np.arange(1, n_max + 1)[:, None]
    tau = n * mu * pi[1:] - (n + 1) * pi[:-1]
    return pi[1:], tau
