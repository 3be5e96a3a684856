From 024d1c950bc66b4e10c1b9c7ab14ef95eca2975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:15 +0000
Subject: [PATCH 01/34] fix: seed the D1 downward recurrence above |z|

The log-derivative recurrence started at n_max+15 whatever the argument, so
Mie coefficients were wrong whenever n_max is below |m x| (user-chosen n_max,
very large spheres).
---
 src/pymiediff/special.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..1ef046f 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -489,7 +489,12 @@ def pena_D1_n(
     # build entries without in-place tensor writes (autograd-safe)
     D_list = [None] * (n_max + 1)
 
-    n_start = n_max + int(n_add)
+    # the downward recurrence only converges when seeded above the turning point |z|
+    z_max = float(_z.detach().abs().max())
+    n_start = n_max
+    if np.isfinite(z_max):
+        n_start = max(n_max, int(np.ceil(z_max + 8.0 * z_max ** (1 / 3))))
+    n_start = n_start + int(n_add)
     D_next = torch.zeros_like(_z, dtype=dtype_c)
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
 
-- 
2.43.0


From ab591a1d79953e996d432f40456f53e8eea78be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 02/34] fix: pena recurrences at zeros of psi_n and in strong
 absorbers

D3, Q and psi were built from products that become 0*inf where a
Riccati-Bessel function vanishes, which happens at every size parameter
that is a multiple of pi (e.g. r=300nm at 600nm): coefficients and fields
were wrong by O(1). zeta_0 = sin - i cos cancelled for large Im(z), and
the small-argument limit lost all digits. Use the (stable) upward D3
recurrence, the Wronskian for Q and a zero-safe step for psi.
---
 src/pymiediff/special.py | 65 +++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 1ef046f..85276f5 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -548,24 +548,17 @@ def pena_D3_n(
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
 
-    if D1 is None:
-        D1 = pena_D1_n(n_max, _z, precision=precision)
-    D1 = D1.to(dtype=dtype_c)
-
-    # psi0(z) * zeta0(z) = 0.5 * (1 - exp(2 i z))
-    psi_zeta_prev = 0.5 * (1.0 - torch.exp(2j * _z))
+    # Note: the upward recurrence of D3 is stable and, unlike the product form
+    # `D1 + i / (psi * zeta)`, regular where psi_n(z) = 0 (e.g. z = pi).
     D3_prev = 1j * torch.ones_like(_z, dtype=dtype_c)
     D3_list = [D3_prev]
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        t1 = (nn / z_safe) - D1[nn - 1, ...]
-        t2 = (nn / z_safe) - D3_prev
-        psi_zeta_curr = psi_zeta_prev * t1 * t2
-        denom = torch.where(psi_zeta_curr.abs() < eps, psi_zeta_curr + eps, psi_zeta_curr)
-        D3_curr = D1[nn, ...] + 1j / denom
+        denom = (nn / z_safe) - D3_prev
+        denom = torch.where(denom.abs() < eps, denom + eps, denom)
+        D3_curr = 1.0 / denom - (nn / z_safe)
         D3_list.append(D3_curr)
-        psi_zeta_prev = psi_zeta_curr
         D3_prev = D3_curr
 
     return torch.stack(D3_list, dim=0)
@@ -621,28 +614,22 @@ def pena_Q_n(
     _x1 = _x1.to(dtype=dtype_c)
     _x2 = _x2.to(dtype=dtype_c)
 
-    # Eq. (19a): Q_0^(l)
-    a1 = _z1.real
-    b1 = _z1.imag
-    a2 = _z2.real
-    b2 = _z2.imag
-    num0 = torch.exp(-2j * a1) - torch.exp(-2.0 * b1)
-    den0 = torch.exp(-2j * a2) - torch.exp(-2.0 * b2)
-    den0 = torch.where(den0.abs() < eps, den0 + eps, den0)
-    Q_prev = (num0 / den0) * torch.exp(-2.0 * (b2 - b1))
-    Q_list = [Q_prev]
-
-    # Eq. (19b): Q_n^(l), n >= 1
-    x2_safe = torch.where(_x2.abs() < eps, _x2 + eps, _x2)
-    x_ratio_sq = (_x1 / x2_safe) ** 2
-    for nn in range(1, n_max + 1):
-        n_c = torch.as_tensor(nn, dtype=dtype_c, device=_z1.device)
-        num = (_z2 * D1_z2[nn, ...] + n_c) * (n_c - _z2 * D3_z2[nn - 1, ...])
-        den = (_z1 * D1_z1[nn, ...] + n_c) * (n_c - _z1 * D3_z1[nn - 1, ...])
+    # With the Wronskian psi_n = -i / (zeta_n (D1_n - D3_n)), the ratio
+    # Q_n = psi_n(z1) zeta_n(z2) / (psi_n(z2) zeta_n(z1)) is expressed through
+    # zeta_n(z2) / zeta_n(z1) only, which has no zeros (psi_n has, e.g. z = pi).
+    z1_safe = torch.where(_z1.abs() < eps, _z1 + eps, _z1)
+    z2_safe = torch.where(_z2.abs() < eps, _z2 + eps, _z2)
+    zeta_ratio = torch.exp(1j * (_z2 - _z1))
+    Q_list = []
+    for nn in range(0, n_max + 1):
+        if nn > 0:
+            num = (nn / z2_safe) - D3_z2[nn - 1, ...]
+            den = (nn / z1_safe) - D3_z1[nn - 1, ...]
+            den = torch.where(den.abs() < eps, den + eps, den)
+            zeta_ratio = zeta_ratio * (num / den)
+        den = D1_z1[nn, ...] - D3_z1[nn, ...]
         den = torch.where(den.abs() < eps, den + eps, den)
-        Q_curr = Q_prev * x_ratio_sq * (num / den)
-        Q_list.append(Q_curr)
-        Q_prev = Q_curr
+        Q_list.append(zeta_ratio**2 * (D1_z2[nn, ...] - D3_z2[nn, ...]) / den)
 
     return torch.stack(Q_list, dim=0)
 
@@ -684,17 +671,25 @@ def pena_psi_zeta_n(
         dtype_c = torch.complex128
     _z = _z.to(dtype=dtype_c)
 
+    psi_pprev = torch.cos(_z)  # psi_{-1}
     psi_prev = torch.sin(_z)
-    zeta_prev = torch.sin(_z) - 1j * torch.cos(_z)
+    zeta_prev = -1j * torch.exp(1j * _z)
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
-        psi_curr = psi_prev * ((nn / z_safe) - D1[nn - 1, ...])
+        # psi_{n-1} / psi_n. Close to a zero of psi_{n-1} (e.g. z = pi), where the
+        # ratio cancels, use the three-term recurrence for this order instead.
+        ratio = (nn / z_safe) + D1[nn, ...]
+        use_rec = ratio.abs() < 0.1
+        ratio = torch.where(use_rec, torch.ones_like(ratio), ratio)
+        psi_rec = ((2 * nn - 1) / z_safe) * psi_prev - psi_pprev
+        psi_curr = torch.where(use_rec, psi_rec, psi_prev / ratio)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
+        psi_pprev = psi_prev
         psi_prev = psi_curr
         zeta_prev = zeta_curr
 
-- 
2.43.0


From dd071e2bdea627af3a51e28041007dd9ec20ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 03/34] fix: pena backend overflows for orders far above the
 size parameter

zeta_n overflowed to inf (NaN coefficients) for a small particle batched
with a large one, and near fields (and their gradients) were NaN at and
around the particle center.
---
 src/pymiediff/multishell.py | 16 +++++++++++++---
 src/pymiediff/special.py    |  3 +++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..53c2789 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1192,14 +1192,24 @@ def nearfields(
         ]
         n_medium_reg.append(n_env)
 
+        # each region is evaluated on radii clamped to this region: positions of the
+        # other regions are masked out below but must not overflow (autograd)
+        r_det = r_layers.detach()
         M1_o, M1_e, N1_o, N1_e = [], [], [], []
         M3_o, M3_e, N3_o, N3_e = [], [], [], []
-        for n_med in n_medium_reg:
+        for li, n_med in enumerate(n_medium_reg):
+            r_reg = r_sh
+            if li > 0:
+                r_lo = r_det[:, li - 1].view(1, n_p, 1, 1, 1)
+                r_reg = torch.where(r_reg < r_lo, r_lo, r_reg)
+            if li < L:
+                r_hi = r_det[:, li].view(1, n_p, 1, 1, 1)
+                r_reg = torch.where(r_reg > r_hi, r_hi, r_reg)
             _M1o, _M1e, _N1o, _N1e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=1, precision=precision
+                n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=1, precision=precision
             )
             _M3o, _M3e, _N3o, _N3e = vsh_pena(
-                n_max, k0, n_med, r_sh, theta_sh, phi_sh, kind=3, precision=precision
+                n_max, k0, n_med, r_reg, theta_sh, phi_sh, kind=3, precision=precision
             )
             M1_o.append(_M1o)
             M1_e.append(_M1e)
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 85276f5..689cd08 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -676,6 +676,7 @@ def pena_psi_zeta_n(
     zeta_prev = -1j * torch.exp(1j * _z)
     psi_list = [psi_prev]
     zeta_list = [zeta_prev]
+    zeta_max = torch.finfo(dtype_c).max ** 0.5
 
     z_safe = torch.where(_z.abs() < eps, _z + eps, _z)
     for nn in range(1, n_max + 1):
@@ -687,6 +688,8 @@ def pena_psi_zeta_n(
         psi_rec = ((2 * nn - 1) / z_safe) * psi_prev - psi_pprev
         psi_curr = torch.where(use_rec, psi_rec, psi_prev / ratio)
         zeta_curr = zeta_prev * ((nn / z_safe) - D3[nn - 1, ...])
+        # orders far above |z| are irrelevant: saturate instead of overflowing
+        zeta_curr = torch.where(zeta_curr.abs() < zeta_max, zeta_curr, zeta_prev)
         psi_list.append(psi_curr)
         zeta_list.append(zeta_curr)
         psi_pprev = psi_prev
-- 
2.43.0


From d0b9350b8a6cc0dec911b5ccf4308cc3c1e587f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 04/34] fix: near fields and amplitudes only had
 single-precision prefactors

---
 src/pymiediff/multishell.py | 3 +++
 src/pymiediff/special.py    | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 53c2789..3e1f65e 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -967,6 +967,7 @@ def angular_scattering(
     b_n = b_n.unsqueeze(-1)
 
     # eval. S1 and S2, sum over Mie orders (dim 0)
+    n = n.to(dtype=torch.float64)  # integer division would give float32 prefactors
     s1 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * pi_n + b_n * tau_n), dim=0)
     s2 = torch.sum(((2 * n + 1) / (n * (n + 1))) * (a_n * tau_n + b_n * pi_n), dim=0)
 
@@ -1182,6 +1183,7 @@ def nearfields(
         phi_sh = phi.unsqueeze(0).unsqueeze(0).unsqueeze(0).unsqueeze(-1)
 
         n = n.view((-1,) + (r_sh.ndim - 1) * (1,))
+        n = n.to(dtype=torch.float64)  # integer `n` would give a complex64 prefactor
         En = 1j**n * E_0 * (2 * n + 1) / (n * (n + 1))
 
         # evaluate VSH per region medium (0..L-1 layers, L outside env)
@@ -1397,6 +1399,7 @@ def nearfields(
 
     # add particle, wavenumber, position, vector dimensions
     n = n.view((-1,) + (r.ndim - 1) * (1,))
+    n = n.to(dtype=torch.float64)  # integer `n` would give a complex64 prefactor
 
     # evaluate vector spherical harmonics
     # Note: this is not optimum as all VSH are evaluated for all positions
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 689cd08..96cb1fd 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1151,7 +1151,8 @@ def vsh(n_max, k0, n_medium, r, theta, phi, kind, epsilon=1e-8):
     sin_t = torch.sin(theta)
     cos_p = torch.cos(phi)
     sin_p = torch.sin(phi)
-    rho = k0 * n_medium * r + epsilon
+    rho = k0 * n_medium * r
+    rho = torch.where(rho.abs() < epsilon, epsilon * torch.ones_like(rho), rho)
 
     # angular function evaluation
     pi_n, tau_n = pi_tau(n_max, cos_t[0])  # pass `cos_t` without order dim. (dim 0)
@@ -1490,7 +1491,8 @@ def vsh_pena(
     sin_t = torch.sin(theta)
     cos_p = torch.cos(phi)
     sin_p = torch.sin(phi)
-    rho = k0 * n_medium * r + epsilon
+    rho = k0 * n_medium * r
+    rho = torch.where(rho.abs() < epsilon, epsilon * torch.ones_like(rho), rho)
 
     # angular functions
     pi_n, tau_n = pi_tau(n_max, cos_t[0])
-- 
2.43.0


From 2dff9aa430705c8c10740f5d9586af24b109112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 05/34] fix: material lookup table drops or reuses the autograd
 graph

---
 src/pymiediff/materials/mat.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..d426add 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -329,7 +329,9 @@ class MatDatabase(MaterialBase):
 
         # optionally initialize wavelength lookup
         if init_lookup_wavelengths is not None:
-            for wl in init_lookup_wavelengths:
+            for wl in torch.as_tensor(
+                init_lookup_wavelengths, dtype=DTYPE_FLOAT, device=self.device
+            ):
                 _eps = self._get_eps_single_wl(wl)
 
     def __repr__(self, verbose: bool = False):
@@ -384,6 +386,12 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
+        # never memoize differentiable evaluations: the lookup would return values
+        # without (or with another evaluation's) autograd graph
+        if wavelength.requires_grad:
+            _eps = self._eval(wavelength)
+            return torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
+
         # memoize evaluations
         wl_key = float(wavelength)
 
-- 
2.43.0


From 744c5efa420ad4eb1285a541e3cba4f4609757b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 06/34] fix: scalar permittivity lookups hand out the lookup
 table's own tensor

---
 src/pymiediff/materials/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index d426add..a8642d6 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -420,6 +420,7 @@ class MatDatabase(MaterialBase):
         if len(torch.as_tensor(wavelength).shape) == 1:
             eps = torch.stack([self._get_eps_single_wl(wl) for wl in wavelength], dim=0)
         else:
-            eps = self._get_eps_single_wl(wavelength)
+            # copy: in-place changes by the caller must not alter the lookup table
+            eps = self._get_eps_single_wl(wavelength).clone()
 
         return eps
-- 
2.43.0


From 7db4827e6274ff5b845fed36d112cd69c37b84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:05 +0000
Subject: [PATCH 07/34] fix: angular scattering silently wrong for scalar or 2D
 angles

---
 src/pymiediff/multishell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 3e1f65e..31ce8e2 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -948,6 +948,10 @@ def angular_scattering(
     a_n = miecoeff["a_n"]
     b_n = miecoeff["b_n"]
 
+    theta = torch.atleast_1d(torch.as_tensor(theta, device=k0.device))
+    if theta.ndim != 1:
+        raise ValueError("`theta` must be scalar or 1D.")
+
     mu = torch.cos(theta)
     pi_n, tau_n = special.pi_tau(n_max, mu)  # shape: N_teta, n_Mie_order
     pi_n = pi_n[1:]  # Mie orders 1 - n (no zero order)
-- 
2.43.0


From 2adf4dd6d36fedea0b8530030d8762b8bc1e70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 08/34] fix: near fields of the torch and scipy backends mix up
 batch dimensions

---
 src/pymiediff/multishell.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 31ce8e2..f5234ac 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1381,6 +1381,11 @@ def nearfields(
     kc = kc.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     ks = ks.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
     n_sourrounding = n_sourrounding.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_env = n_env.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_core = n_core.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    n_shell = n_shell.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_c = r_c.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
+    r_s = r_s.unsqueeze(0).unsqueeze(-1).unsqueeze(-1)
 
     # add position, vector dim
     a_n = a_n.unsqueeze(-1).unsqueeze(-1)
-- 
2.43.0


From 91893fe68791f40359a5de40e5180fece94d1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:56 +0000
Subject: [PATCH 09/34] fix: gradient of Bessel derivatives overwrites zeros of
 the input; integer n_add crashes

---
 src/pymiediff/special.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 96cb1fd..c8fcbac 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -67,7 +67,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)  # copy, do not modify the caller's array
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
@@ -756,7 +756,7 @@ def sph_jn_torch_via_rec(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if isinstance(n_add, str) and n_add.lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
@@ -1254,7 +1254,7 @@ def D1n_torch(
     _z = torch.where(_z.abs() < eps, eps * torch.ones_like(_z), _z)
 
     # some empirical automatic starting order guess
-    if n_add.lower() == "auto":
+    if isinstance(n_add, str) and n_add.lower() == "auto":
         n_add = max(n_add_min, int(1.5 * torch.abs(z).detach().cpu().max()))
         if n_add > n_add_max:
             n_add = n_add_max
-- 
2.43.0


From f8c06c0d4c21987cb0c3b72f8eb5b15b306040c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:41 +0000
Subject: [PATCH 10/34] fix: torchgdm coefficients transposed for n_max=1

---
 src/pymiediff/helper/tg.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..d0cc6ab 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -185,13 +185,9 @@ def mie_ab_sphere_3d_AD(
     # --- get Mie coefficients from pymiediff particle
     miecoeff = mie_particle.get_mie_coefficients(k0=k0, n_max=n_max, backend=backend)
 
-    a_n = miecoeff["a_n"]
-    b_n = miecoeff["b_n"]
-
-    if a_n.ndim == 1:  # single wl
-        a_n = a_n.unsqueeze(1)  # add empty wavelength dimension
-    if b_n.ndim == 1:
-        b_n = b_n.unsqueeze(1)
+    # restore squeezed dimensions (single order and / or single wavelength)
+    a_n = miecoeff["a_n"].reshape(-1, wavelengths.shape[0])
+    b_n = miecoeff["b_n"].reshape(-1, wavelengths.shape[0])
 
     a_n = a_n.moveaxis(0, 1)
     b_n = b_n.moveaxis(0, 1)  # move Mie-order last
-- 
2.43.0


From e0d46d3b6b341e3d19dcf646d8d56363b9455180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 11/34] fix: real-valued negative permittivities give no
 truncation order

---
 src/pymiediff/multishell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index f5234ac..b64e3d5 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -590,6 +590,10 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
 
     eps_layers = torch.as_tensor(eps_layers)
     eps_layers = torch.atleast_1d(eps_layers)
+    # real-valued negative permittivities (metals) need a complex square root
+    eps_layers = eps_layers.to(
+        dtype=torch.promote_types(eps_layers.dtype, torch.complex64)
+    )
 
     # accepted eps_layers layouts:
     #   (L,) / (N_part, L) / (L, N_k0) / (N_part, L, N_k0)
-- 
2.43.0


From 2d9701ec716f1b1945220085c004fe8cc2be121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:27 +0000
Subject: [PATCH 12/34] fix: single-precision near fields fail with float64
 inputs

---
 src/pymiediff/multishell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index b64e3d5..f82b3bb 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1274,8 +1274,8 @@ def nearfields(
                     - a_l * M3_e[li]
                 )
 
-            Es[masks[li]] = E_l[masks[li]]
-            Hs[masks[li]] = H_l[masks[li]]
+            Es[masks[li]] = E_l[masks[li]].to(dtype=dtype_c)
+            Hs[masks[li]] = H_l[masks[li]].to(dtype=dtype_c)
 
         # convert to Cartesian and sum over Mie orders
         Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From 7e6233c5f9ddc36e1b0072a50afa5eb7f84b7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:04 +0000
Subject: [PATCH 13/34] fix: inaccurate polar angle close to the z axis

---
 src/pymiediff/helper/helper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 75578d1..6e06916 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -247,13 +247,10 @@ def transform_xyz_to_spherical(x, y, z):
         Spherical coordinates ``(r, theta, phi)``.
     """
     r = torch.sqrt(x**2 + y**2 + z**2)
-    r_safe = torch.where(r == 0, torch.as_tensor(1e-12, device=r.device, dtype=r.dtype), r)
-    z_over_r = z / r_safe
-    eps = torch.finfo(z_over_r.dtype).eps * 10
-    z_over_r = torch.clamp(z_over_r, -1.0 + eps, 1.0 - eps)
-    theta = torch.acos(z_over_r)
     eps_phi = torch.finfo(x.dtype).eps * 10
     x_safe = x + (x == 0).to(x.dtype) * eps_phi
+    # atan2 is accurate close to the polar axis, where acos(z/r) is not
+    theta = torch.atan2(torch.sqrt(x_safe**2 + y**2), z)
     phi = torch.atan2(y, x_safe)
     return r, theta, phi
 
-- 
2.43.0


From 6bac45ac37af43a5d082910125e88e758f36579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 14/34] fix: single-precision near fields of the torch backend
 fail with float32 inputs

---
 src/pymiediff/multishell.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index f82b3bb..71d72ec 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1449,9 +1449,9 @@ def nearfields(
     Es_3 = En * (1j * a_n * N3_e1n - b_n * M3_o1n)
 
     Es = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Es[idx_1] = Es_1[idx_1]
-    Es[idx_2] = Es_2[idx_2]
-    Es[idx_3] = Es_3[idx_3]
+    Es[idx_1] = Es_1[idx_1].to(dtype=Es.dtype)
+    Es[idx_2] = Es_2[idx_2].to(dtype=Es.dtype)
+    Es[idx_3] = Es_3[idx_3].to(dtype=Es.dtype)
 
     # magnetic fields (relative to H0)
     Hs_1 = -n_core * En * (d_n * M1_e1n_c + 1j * c_n * N1_o1n_c)
@@ -1467,9 +1467,9 @@ def nearfields(
     Hs_3 = En*n_env * (1j * b_n * N3_o1n + a_n * M3_e1n)
 
     Hs = torch.zeros(full_shape, dtype=a_n.dtype, device=a_n.device)
-    Hs[idx_1] = Hs_1[idx_1]
-    Hs[idx_2] = Hs_2[idx_2]
-    Hs[idx_3] = Hs_3[idx_3]
+    Hs[idx_1] = Hs_1[idx_1].to(dtype=Hs.dtype)
+    Hs[idx_2] = Hs_2[idx_2].to(dtype=Hs.dtype)
+    Hs[idx_3] = Hs_3[idx_3].to(dtype=Hs.dtype)
 
     # convert to Cartesian
     Es_xyz = transform_fields_spherical_to_cartesian(
-- 
2.43.0


From 3638cd56087e5e83154d9edf14d6422b10d0b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:26 +0000
Subject: [PATCH 15/34] fix: torch j_n wrong at zeros of j_0 and for arguments
 far above the order

---
 src/pymiediff/special.py | 41 ++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index c8fcbac..74bbb83 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -710,12 +710,8 @@ def sph_jn_torch_via_rec(
     precision="double",
     **kwargs,
 ):
-    """Torch-native ``j_n`` via downward recurrence. 
+    """Torch-native ``j_n`` via downward recurrence.
 
-    BEWARE: With this implementaion there is a singularity at z=pi, 
-    and the renormalization of the downward recurrence will fail.
-    The logarithmic derivatives implmentations, do not pose this risk.
-    
     Parameters
     ----------
     n : int or torch.Tensor
@@ -761,6 +757,10 @@ def sph_jn_torch_via_rec(
         if n_add > n_add_max:
             n_add = n_add_max
 
+    # the downward recurrence only converges when seeded above the turning point |z|
+    z_max = float(torch.abs(z).detach().max())
+    n_start = max(n_max + n_add, int(z_max + 8.0 * z_max ** (1 / 3)) + 5)
+
     # allocate tensors
     jns = []  # use python list for Bessel orders to avoid in-place modif.
 
@@ -768,19 +768,27 @@ def sph_jn_torch_via_rec(
     j_np1 = torch.ones_like(_z, dtype=dtype_c) * 1e-25
     j_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
-    for _n in range(n_max + n_add, 0, -1):
+    for _n in range(n_start, 0, -1):
         j_nm1 = ((2.0 * _n + 1.0) / _z) * j_n - j_np1
         j_np1 = j_n
         j_n = j_nm1
-        if _n <= n_max + 1:
+        if _n > n_max + 1:
+            # rescale orders that are not returned, to avoid overflows
+            too_big = j_n.abs() > torch.finfo(dtype_f).max ** 0.3
+            j_n, j_np1 = [torch.where(too_big, j * 1e-10, j) for j in (j_n, j_np1)]
+        else:
             jns.append(j_n[-1, ...])
 
     # inverse order and convert to tensor
     jns = torch.stack(jns[::-1], dim=0)  # first dim: order n
 
-    # normalize
+    # normalize, using the larger one of the exact j_0 and j_1 (j_0 = 0 at z = pi)
     j0_exact = torch.sin(_z[-1, ...]) / _z[-1, ...]
-    scale = j0_exact / jns[0, ...]
+    j1_exact = (j0_exact - torch.cos(_z[-1, ...])) / _z[-1, ...]
+    use_j1 = torch.logical_and(j1_exact.abs() > j0_exact.abs(), _z[-1, ...].abs() > 1)
+    scale = torch.where(use_j1, j1_exact, j0_exact) / torch.where(
+        use_j1, j_np1[-1, ...], jns[0, ...]
+    )
     jns = jns * scale.unsqueeze(0)  # scale: expand order dim.
 
     return jns
@@ -874,6 +882,10 @@ def sph_jn_torch(
             zabs_max = float(torch.max(torch.abs(z_big)).item())
             n_extra_auto = max(20, int(zabs_max * 2.0) + 10)
             n_extra_use = min(n_extra_auto, max_n_add)
+            # the recurrence only converges when seeded above the turning point |z|
+            n_extra_use = max(
+                n_extra_use, int(zabs_max + 8.0 * zabs_max ** (1 / 3)) + 5 - n_max
+            )
         else:
             n_extra_use = int(n_add)
         N = n_max + n_extra_use
@@ -898,18 +910,23 @@ def sph_jn_torch(
                 r_storage[k - 1, :] = r_k
             r_next = r_k
 
-        # - reconstruct j_n from j0 and cumulative product of ratios
+        # - reconstruct j_n from j0 (or from j1 close to zeros of j0, e.g. z = pi)
+        # and cumulative product of ratios
         j0_big = torch.where(
             z_big == 0.0, torch.ones_like(z_big), torch.sin(z_big) / z_big
         )  # compute j0 safely
 
+        j1_big = (j0_big - torch.cos(z_big)) / z_big
+        use_j1 = torch.logical_and(j1_big.abs() > j0_big.abs(), z_big.abs() > 1)
+
         # cumulative product of r_k across orders: shape (Q, n_max)
-        r_cum = torch.cumprod(r_storage, dim=0)  # r_1, r_1*r_2, ...
+        r_1 = torch.where(use_j1, torch.ones_like(r_storage[:1]), r_storage[:1])
+        r_cum = torch.cumprod(torch.cat((r_1, r_storage[1:])), dim=0)
 
         # fill spherical bessel output
         jns_big[0, :] = j0_big
         if n_max >= 1:
-            jns_big[1:, :] = j0_big.unsqueeze(0) * r_cum
+            jns_big[1:, :] = torch.where(use_j1, j1_big, j0_big).unsqueeze(0) * r_cum
         jns_flat[:, idx_big] = jns_big
 
     # reshape jns_flat into original z shape plus orders axis
-- 
2.43.0


From e22481eca8bef59f6aecba6bc092f7c2f16ad0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:51 +0000
Subject: [PATCH 16/34] fix: passing n_env to the torchgdm helpers crashes

---
 src/pymiediff/helper/tg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index d0cc6ab..1c85f49 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -179,7 +179,6 @@ def mie_ab_sphere_3d_AD(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # --- get Mie coefficients from pymiediff particle
@@ -506,7 +505,6 @@ def extract_GPM_sphere_miediff(
     assert torch.all(eps_env == eps_env[0]), "dispersive environment not supported yet"
     if n_env is not None:
         assert eps_env[0] == n_env**2
-        eps_env = n_env**2
     env_3d = EnvHomogeneous3D(env_material=float(eps_env[0].real), device=device)
 
     # full radius
-- 
2.43.0


From 779b5129b9bf1fc3f0571b479dfb345024057255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 17/34] fix: near fields in layers around a small core or of
 low index lose all digits

The ratio of outgoing and regular waves of a layer was obtained from its outer
interface, which cancels completely for orders above the size parameter of the
inner interface; orders with |psi * (D1 - D3)| < 1e-30 were dropped. Propagate
the ratios outwards and use the Wronskian instead of a guarded division.
---
 src/pymiediff/multishell.py | 92 ++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 38 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 71d72ec..ee364c7 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1097,7 +1097,52 @@ def nearfields(
             dim=1,
         )  # (Np, L+1, Nk)
 
-        eps = torch.tensor(1e-30, dtype=dtype_c, device=k0.device)
+        # logarithmic derivatives and Riccati functions on both sides of each interface.
+        # The ratios of outgoing and regular waves, a_l / d_l and b_l / c_l, are fixed by
+        # the inner interface of layer l. They are propagated outwards: obtaining them
+        # from the outer interface loses all digits for orders above |m_l x_{l-1}|.
+        interfaces = []
+        ratio_a = [torch.zeros_like(a_L)]  # regular in the core
+        ratio_b = [torch.zeros_like(a_L)]
+        H_a = H_b = None
+        for li in range(L):
+            xl = x_layers[:, li, :]
+            sides = []
+            for z in (m_ext[:, li, :] * xl, m_ext[:, li + 1, :] * xl):
+                D1 = special.pena_D1_n(n_max, z, precision=precision)
+                D3 = special.pena_D3_n(n_max, z, D1=D1, precision=precision)
+                psi, zeta = special.pena_psi_zeta_n(
+                    n_max, z, D1=D1, D3=D3, precision=precision
+                )
+                sides.append((z, D1, D3, psi, zeta))
+            interfaces.append(sides)
+
+            z_l, D1_l, D3_l = sides[0][:3]
+            if li == 0:
+                H_a, H_b = D1_l, D1_l
+                continue
+
+            ml = m_ext[:, li, :]
+            mlm1 = m_ext[:, li - 1, :]
+            z_prev, D1_prev, D3_prev, psi_prev, zeta_prev = interfaces[li - 1][1]
+            Q = special.pena_Q_n(
+                n_max,
+                z1=z_prev,
+                z2=z_l,
+                x1=x_layers[:, li - 1, :],
+                x2=xl,
+                D1_z1=D1_prev,
+                D1_z2=D1_l,
+                D3_z1=D3_prev,
+                D3_z2=D3_l,
+                precision=precision,
+            )
+            G = (ml * H_a - mlm1 * D1_prev) / (ml * H_a - mlm1 * D3_prev)
+            Gt = (mlm1 * H_b - ml * D1_prev) / (mlm1 * H_b - ml * D3_prev)
+            H_a = (D1_l - Q * G * D3_l) / (1 - Q * G)
+            H_b = (D1_l - Q * Gt * D3_l) / (1 - Q * Gt)
+            ratio_a.append(G * psi_prev / zeta_prev)
+            ratio_b.append(Gt * psi_prev / zeta_prev)
 
         # recursive expansion coefficients, l = L ... 1
         a_layers = [None] * (L + 1)
@@ -1112,22 +1157,8 @@ def nearfields(
         for li in range(L - 1, -1, -1):
             ml = m_ext[:, li, :]
             mlp1 = m_ext[:, li + 1, :]
-            xl = x_layers[:, li, :]
-
-            z_l = ml * xl
-            z_lp1 = mlp1 * xl
-
-            D1_l = special.pena_D1_n(n_max, z_l, precision=precision)
-            D3_l = special.pena_D3_n(n_max, z_l, D1=D1_l, precision=precision)
-            psi_l, zeta_l = special.pena_psi_zeta_n(
-                n_max, z_l, D1=D1_l, D3=D3_l, precision=precision
-            )
-
-            D1_lp1 = special.pena_D1_n(n_max, z_lp1, precision=precision)
-            D3_lp1 = special.pena_D3_n(n_max, z_lp1, D1=D1_lp1, precision=precision)
-            psi_lp1, zeta_lp1 = special.pena_psi_zeta_n(
-                n_max, z_lp1, D1=D1_lp1, D3=D3_lp1, precision=precision
-            )
+            _, _, D3_l, _, zeta_l = interfaces[li][0]
+            _, D1_lp1, D3_lp1, psi_lp1, zeta_lp1 = interfaces[li][1]
 
             a_nxt = a_layers[li + 1]
             b_nxt = b_layers[li + 1]
@@ -1138,29 +1169,14 @@ def nearfields(
             T2 = b_nxt * zeta_lp1 - c_nxt * psi_lp1
             T3 = d_nxt * D1_lp1 * psi_lp1 - a_nxt * D3_lp1 * zeta_lp1
             T4 = c_nxt * D1_lp1 * psi_lp1 - b_nxt * D3_lp1 * zeta_lp1
-            U = D1_l - D3_l
 
-            den_a = zeta_l * U
-            den_c = psi_l * U
-            den_a = torch.where(den_a.abs() < eps.abs(), den_a + eps, den_a)
-            den_c = torch.where(den_c.abs() < eps.abs(), den_c + eps, den_c)
-
-            # Ladutenko et al. 2017, Eq. (7.1)-(7.4): factor m_l / m_{l+1}
+            # Ladutenko et al. 2017, Eq. (7.3)-(7.4): factor m_l / m_{l+1}, and
+            # the Wronskian psi_n * (D1_n - D3_n) = -i / zeta_n in the denominator
             m_ratio = ml / mlp1
-            a_l = (D1_l * T1 + T3 * m_ratio) / den_a
-            b_l = (D1_l * T2 * m_ratio + T4) / den_a
-            c_l = (D3_l * T2 * m_ratio + T4) / den_c
-            d_l = (D3_l * T1 + T3 * m_ratio) / den_c
-
-            # enforce regularity in inner core
-            if li == 0:
-                a_l = torch.zeros_like(a_l)
-                b_l = torch.zeros_like(b_l)
-
-            a_layers[li] = a_l
-            b_layers[li] = b_l
-            c_layers[li] = c_l
-            d_layers[li] = d_l
+            c_layers[li] = 1j * zeta_l * (D3_l * T2 * m_ratio + T4)
+            d_layers[li] = 1j * zeta_l * (D3_l * T1 + T3 * m_ratio)
+            a_layers[li] = ratio_a[li] * d_layers[li]
+            b_layers[li] = ratio_b[li] * c_layers[li]
 
         # stack and remove n=0 slot for field sums
         a_reg = torch.stack(a_layers, dim=-1)[1:, ...]
-- 
2.43.0


From 611bfae7a952d33cbec1e96b31cbf456e5269c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 18/34] fix: near fields fail for list or integer probe
 coordinates and accept wrong shapes

---
 src/pymiediff/multishell.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index ee364c7..f65e748 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1047,6 +1047,12 @@ def nearfields(
 
     backend_l = backend.lower()
 
+    r_probe = torch.as_tensor(r_probe)
+    if r_probe.ndim != 2 or r_probe.shape[-1] != 3:
+        raise ValueError("`r_probe` must have shape (N, 3).")
+    if not r_probe.is_floating_point():
+        r_probe = r_probe.to(dtype=torch.float64)  # e.g. integer coordinates
+
     if backend_l == "pena":
         # evaluate scattering coefficients and multilayer metadata
         miecoeff = mie_coefficients(
-- 
2.43.0


From 7825e5fea5f2f908928b0f47758b6c58dd18421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 19/34] fix: gradients of cross sections are NaN where a
 coefficient is subnormal

---
 src/pymiediff/multishell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index f65e748..32f4190 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -865,7 +865,10 @@ def cross_sections(
 
     cs_ext_mp = prefactor * (2 * n + 1) * torch.stack((a_n.real, b_n.real))
 
-    cs_sca_mp = prefactor * (2 * n + 1) * torch.stack((a_n.abs() ** 2, b_n.abs() ** 2))
+    # |z|^2 without `abs`, whose gradient is not finite for subnormal numbers
+    abs2_a = a_n.real**2 + a_n.imag**2
+    abs2_b = b_n.real**2 + b_n.imag**2
+    cs_sca_mp = prefactor * (2 * n + 1) * torch.stack((abs2_a, abs2_b))
     cs_abs_mp = cs_ext_mp - cs_sca_mp
 
     # full cross-sections:
-- 
2.43.0


From 6ad9dfb7e943af40ee90012e4b411ce6907b063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 20/34] fix: tables of only the extinction coefficient are read
 as refractive index

---
 src/pymiediff/materials/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index a8642d6..001d3a8 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -305,7 +305,8 @@ class MatDatabase(MaterialBase):
         # load refractive index model.
         # currently supported: tabulated data and Sellmeier model.
         # - tabulated data
-        if self.type.split()[0] == "tabulated":
+        # (tables of only the extinction coefficient `k` don't define a permittivity)
+        if self.type.split()[0] == "tabulated" and self.type.split()[1:] != ["k"]:
             wl_dat, eps_dat = _load_tabulated(dat)
             self.wl_dat = torch.as_tensor(wl_dat, dtype=DTYPE_FLOAT, device=self.device)
             self.eps_dat = torch.as_tensor(
-- 
2.43.0


From 5ef8af8ab1793bbf7a1c6e92ece72e898bf05817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 21/34] fix: torch recurrence of j_n overflows for small
 arguments in a batch with large ones

---
 src/pymiediff/special.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 74bbb83..f66e879 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -775,7 +775,10 @@ def sph_jn_torch_via_rec(
         if _n > n_max + 1:
             # rescale orders that are not returned, to avoid overflows
             too_big = j_n.abs() > torch.finfo(dtype_f).max ** 0.3
-            j_n, j_np1 = [torch.where(too_big, j * 1e-10, j) for j in (j_n, j_np1)]
+            if _n == n_max + 2:  # leave the full range to the returned orders
+                too_big = j_n.abs() > 0
+            rescale = torch.where(too_big, 1.0 / j_n.abs().detach(), 1.0)
+            j_n, j_np1 = j_n * rescale, j_np1 * rescale
         else:
             jns.append(j_n[-1, ...])
 
-- 
2.43.0


From 1f14e276f90d66ff5033512ebf98ecd0ac0a4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 22/34] fix: torch j_n at tiny arguments is single precision
 and fails for multi-dimensional input

---
 src/pymiediff/special.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index f66e879..9009808 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -858,16 +858,16 @@ def sph_jn_torch(
         z_small = z_flat[idx_small]  # shape (S_small,)
 
         # double-factorial: log((2n+1)!!) = lgamma(2n+2) - n*log(2) - lgamma(n+1)
-        n_arr = _n.to(dtype_f)
+        n_arr = _n.reshape(-1, 1).to(dtype_f)
         log_dd = (
             torch.lgamma(2.0 * n_arr + 2.0)
-            - n_arr * torch.log(torch.tensor(2.0))
+            - n_arr * np.log(2.0)
             - torch.lgamma(n_arr + 1.0)
         )
         dd = torch.exp(log_dd).to(dtype_f)
 
         # leading-term series (very small z)
-        zpow = z_small.unsqueeze(0) ** _n.to(dtype_c)  # shape (n_max+1, S_small)
+        zpow = z_small.unsqueeze(0) ** n_arr.to(dtype_c)  # shape (n_max+1, S_small)
         jn_small = zpow / dd.to(dtype_c).unsqueeze(0)
 
         # for n==0, j0 = 1 (z^0 / 1 ), correct; for exact z==0, higher orders are zero
-- 
2.43.0


From 31d83f0d464491d00240561ac1b2bc9c6653cbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 23/34] fix: gradient of torch j_n wrong at zeros of lower
 orders

---
 src/pymiediff/special.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 9009808..baa7ba7 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -896,7 +896,6 @@ def sph_jn_torch(
         # - allocate tensors
         r_storage = torch.zeros((n_max, n_z_big), dtype=dtype_c, device=z.device)
         r_next = torch.zeros((n_z_big,), dtype=dtype_c, device=z.device)
-        jns_big = torch.zeros((n_max + 1, n_z_big), dtype=dtype_c, device=z.device)
         eps = torch.tensor(1e-50, dtype=dtype_c, device=z.device)  # avoid 1/0
 
         # - downward iteration: seed r_{N+1} = 0 (works if N large enough)
@@ -922,14 +921,19 @@ def sph_jn_torch(
         j1_big = (j0_big - torch.cos(z_big)) / z_big
         use_j1 = torch.logical_and(j1_big.abs() > j0_big.abs(), z_big.abs() > 1)
 
-        # cumulative product of r_k across orders: shape (Q, n_max)
-        r_1 = torch.where(use_j1, torch.ones_like(r_storage[:1]), r_storage[:1])
-        r_cum = torch.cumprod(torch.cat((r_1, r_storage[1:])), dim=0)
-
-        # fill spherical bessel output
-        jns_big[0, :] = j0_big
-        if n_max >= 1:
-            jns_big[1:, :] = torch.where(use_j1, j1_big, j0_big).unsqueeze(0) * r_cum
+        # product of the ratios r_k across orders. Close to a zero of j_{k-1}, where r_k
+        # diverges, use the three-term recurrence for this order instead.
+        jns_big = [j0_big]
+        for k in range(1, n_max + 1):
+            r_k = r_storage[k - 1]
+            if k == 1:
+                use_rec, j_rec = use_j1, j1_big
+            else:
+                use_rec = r_k.abs() > 3
+                j_rec = ((2.0 * k - 1.0) / z_big) * jns_big[k - 1] - jns_big[k - 2]
+            r_k = torch.where(use_rec, torch.ones_like(r_k), r_k)
+            jns_big.append(torch.where(use_rec, j_rec, jns_big[k - 1] * r_k))
+        jns_big = torch.stack(jns_big, dim=0)
         jns_flat[:, idx_big] = jns_big
 
     # reshape jns_flat into original z shape plus orders axis
-- 
2.43.0


From 7634b4afd80479f802dfb5afd046096a3505c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:54 +0000
Subject: [PATCH 24/34] fix: logarithmic derivative D1 of the torch helpers
 wrong for large arguments

---
 src/pymiediff/special.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index baa7ba7..16a148b 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1283,12 +1283,16 @@ def D1n_torch(
         if n_add > n_add_max:
             n_add = n_add_max
 
+    # the downward recurrence only converges when seeded above the turning point |z|
+    z_max = float(torch.abs(z).detach().max())
+    n_start = max(n_max + n_add, int(z_max + 8.0 * z_max ** (1 / 3)) + 5)
+
     D1ns = []
 
     D1_n = torch.ones_like(_z, dtype=dtype_c) * 0.0
     D1_nm1 = torch.zeros_like(_z, dtype=dtype_c)
 
-    for _n in range(n_max + n_add, 0, -1):
+    for _n in range(n_start, 0, -1):
         D1_nm1 = _n/_z - 1/(D1_n + _n/_z)
         D1_n = D1_nm1
         if _n <= n_max + 1:
-- 
2.43.0


From 4585e7c5bf4edf2522ec0c1a0b19fa45ad321664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:40 +0000
Subject: [PATCH 25/34] fix: plane-wave expansion coefficients lose precision
 with the order

---
 src/pymiediff/helper/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 6e06916..4cb993b 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -169,7 +169,7 @@ def plane_wave_expansion(n):
 
     n_all = torch.arange(1, n_max + 1)
 
-    a_pw_n = 1j**n_all * (2 * n_all + 1) / (n_all * (n_all + 1))
+    a_pw_n = 1j ** n_all.to(torch.complex128) * (2 * n_all + 1) / (n_all * (n_all + 1))
 
     return dict(a_pw_n=a_pw_n)
 
-- 
2.43.0


From d806d7cffea4f5877f75a51c1660277e8371a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:12 +0000
Subject: [PATCH 26/34] fix: torchgdm models of unsorted wavelength lists are
 wrong

---
 src/pymiediff/helper/tg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 1c85f49..c2062f2 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -497,7 +497,8 @@ def extract_GPM_sphere_miediff(
     device = mie_particle.device
 
     wavelengths = torch.as_tensor(wavelengths, dtype=DTYPE_FLOAT, device=device)
-    wavelengths = torch.atleast_1d(wavelengths)
+    # torchgdm interpolates the spectrum and requires ascending wavelengths
+    wavelengths = torch.sort(torch.atleast_1d(wavelengths)).values
     k0 = 2 * torch.pi / wavelengths
 
     backend = _resolve_mie_backend(mie_particle, backend)
@@ -832,7 +833,8 @@ if _tg_available is not None:
             wavelengths = torch.as_tensor(
                 wavelengths, dtype=DTYPE_FLOAT, device=self.device
             )
-            wavelengths = torch.atleast_1d(wavelengths)
+            # torchgdm interpolates the spectrum and requires ascending wavelengths
+            wavelengths = torch.sort(torch.atleast_1d(wavelengths)).values
             k0 = 2 * torch.pi / wavelengths
 
             # mie coefficients
-- 
2.43.0


From 9be5622244aba9825f5da1cb84abd9ee3fa8b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 27/34] fix: set_device fails while another thread evaluates a
 material

---
 src/pymiediff/materials/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 001d3a8..5d06816 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -356,7 +356,8 @@ class MatDatabase(MaterialBase):
         self.eps_dat = self.eps_dat.to(device)
 
         # transfer the lookup table
-        for _w in self.lookup_eps:
+        # (iterate a copy: another thread's evaluation may add entries)
+        for _w in list(self.lookup_eps):
             self.lookup_eps[_w] = self.lookup_eps[_w].to(device)
 
     def _eval(self, wavelength):
-- 
2.43.0


From 3345074cade66fd9c08e15394f8b418220641abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 28/34] fix: scipy Bessel functions and numpy converters accept
 tensors on any device

---
 src/pymiediff/helper/helper.py | 12 ++++++------
 src/pymiediff/special.py       | 32 ++++++++++++++++----------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 4cb993b..3dc2b82 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -38,11 +38,11 @@ def detach_tensor(args, item=False):
     """
     # If args is a tuple, process its elements; otherwise, process the single tensor
     if isinstance(args, tuple) and not item:
-        return tuple(x.detach().numpy() for x in args)
+        return tuple(x.detach().cpu().numpy() for x in args)
     elif isinstance(args, tuple) and item:
-        return tuple(x.detach().numpy().item() for x in args)
+        return tuple(x.detach().cpu().numpy().item() for x in args)
     else:
-        return args.detach().numpy()
+        return args.detach().cpu().numpy()
 
 
 def get_truncution_criteroin_wiscombe(ka):
@@ -305,9 +305,9 @@ def funct_grad_checker(z, funct, inputs):
         outputs=result, inputs=[z], grad_outputs=torch.ones_like(result)
     )
 
-    z_np = z.detach().numpy().squeeze()
-    num_grad_np = num_grad.detach().numpy().squeeze()
-    grad_np = grad[0].detach().numpy().squeeze()
+    z_np = z.detach().cpu().numpy().squeeze()
+    num_grad_np = num_grad.detach().cpu().numpy().squeeze()
+    grad_np = grad[0].detach().cpu().numpy().squeeze()
 
     return z_np, num_grad_np, grad_np
 
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 16a148b..46adcb8 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -75,8 +75,8 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
 class _AutoDiffJn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
-        result = torch.from_numpy(spherical_jn(n_np, z_np))
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        result = torch.from_numpy(spherical_jn(n_np, z_np)).to(z.device)
         return result
 
     @staticmethod
@@ -89,10 +89,10 @@ class _AutoDiffJn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
 
         # gradient of forward pass
-        dz = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True))
+        dz = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True)).to(z.device)
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -131,8 +131,8 @@ def sph_jn(n: torch.Tensor, z: torch.Tensor, **kwargs):
 class _AutoDiffdJn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
-        result = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True))
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        result = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True)).to(z.device)
         return result
 
     @staticmethod
@@ -145,10 +145,10 @@ class _AutoDiffdJn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
 
         # gradient of forward pass
-        ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_jn))
+        ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_jn)).to(z.device)
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -187,8 +187,8 @@ def sph_jn_der(n: torch.Tensor, z: torch.Tensor, **kwargs):
 class _AutoDiffYn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
-        result = torch.from_numpy(spherical_yn(n_np, z_np))
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        result = torch.from_numpy(spherical_yn(n_np, z_np)).to(z.device)
         return result
 
     @staticmethod
@@ -201,10 +201,10 @@ class _AutoDiffYn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
 
         # gradient of forward pass
-        dz = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True))
+        dz = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True)).to(z.device)
 
         # apply chain rule
         # torch convention: use conjugate!
@@ -243,8 +243,8 @@ def sph_yn(n: torch.Tensor, z: torch.Tensor, **kwargs):
 class _AutoDiffdYn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
-        result = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True))
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        result = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True)).to(z.device)
         return result
 
     @staticmethod
@@ -257,10 +257,10 @@ class _AutoDiffdYn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().numpy(), z.detach().numpy()
+        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
 
         # gradient of forward pass
-        ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_yn))
+        ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_yn)).to(z.device)
 
         # apply chain rule
         # torch convention: use conjugate!
-- 
2.43.0


From e7a7514bbf1cfd976b030749f57d5d67f410c791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 29/34] fix: numbers and the default host follow k0 to its
 device

---
 src/pymiediff/multishell.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 32f4190..e6cc9f1 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -576,7 +576,7 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
     n_k0 = k0.shape[0]
     k0 = k0.unsqueeze(0)  # particle dim
 
-    r_layers = torch.as_tensor(r_layers)
+    r_layers = torch.as_tensor(r_layers, device=k0.device)
     r_layers = torch.atleast_1d(r_layers)
     if r_layers.ndim == 1:
         r_layers = r_layers.unsqueeze(0)
@@ -588,7 +588,7 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
     if n_layers > 1 and not torch.all(r_layers[:, 1:] > r_layers[:, :-1]):
         raise ValueError("`r_layers` must be strictly increasing along layer axis.")
 
-    eps_layers = torch.as_tensor(eps_layers)
+    eps_layers = torch.as_tensor(eps_layers, device=k0.device)
     eps_layers = torch.atleast_1d(eps_layers)
     # real-valued negative permittivities (metals) need a complex square root
     eps_layers = eps_layers.to(
@@ -622,7 +622,7 @@ def _broadcast_mie_layers(k0, r_layers, eps_layers, eps_env):
     else:
         raise ValueError("`eps_layers` must be 1D, 2D, or 3D.")
 
-    eps_env = torch.as_tensor(eps_env)
+    eps_env = torch.as_tensor(eps_env, device=k0.device)
     eps_env = torch.atleast_1d(eps_env)
     if eps_env.ndim != 1:
         raise ValueError("`eps_env` must be scalar or 1D.")
-- 
2.43.0


From 9ad57143647c40f54ec72f52960770a2014f74ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 30/34] fix: particles on different devices can share a
 material

---
 src/pymiediff/main.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/main.py b/src/pymiediff/main.py
index 273ba97..22efa3a 100644
--- a/src/pymiediff/main.py
+++ b/src/pymiediff/main.py
@@ -257,12 +257,17 @@ class Particle:
         k0 = torch.as_tensor(k0, device=self.device)
         wl0 = 2 * torch.pi / k0
 
-        eps_env = self.mat_env.get_epsilon(wavelength=wl0)
+        # a shared material may have been moved elsewhere by another particle
+        eps_env = self.mat_env.get_epsilon(wavelength=wl0).to(self.device)
         if self.eps_layers is not None:
             eps_layers = self.eps_layers
         else:
             eps_layers = torch.stack(
-                [mat.get_epsilon(wavelength=wl0) for mat in self.mat_layers], dim=0
+                [
+                    mat.get_epsilon(wavelength=wl0).to(self.device)
+                    for mat in self.mat_layers
+                ],
+                dim=0,
             )
 
         return eps_layers, eps_env
-- 
2.43.0


From 4a3506036c90142d8ddb0883ee9afcef77fa6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 31/34] fix: near-field positions follow k0 to its device

---
 src/pymiediff/multishell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index e6cc9f1..10b6458 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -1050,7 +1050,7 @@ def nearfields(
 
     backend_l = backend.lower()
 
-    r_probe = torch.as_tensor(r_probe)
+    r_probe = torch.as_tensor(r_probe, device=torch.as_tensor(k0).device)
     if r_probe.ndim != 2 or r_probe.shape[-1] != 3:
         raise ValueError("`r_probe` must have shape (N, 3).")
     if not r_probe.is_floating_point():
-- 
2.43.0


From bd542abc587b213214de347eaa8f9d276e60361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 32/34] fix: polar and azimuth angles off for lengths in small
 units (absolute safeguard at x = 0)

---
 src/pymiediff/helper/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 3dc2b82..6b9e792 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -247,7 +247,8 @@ def transform_xyz_to_spherical(x, y, z):
         Spherical coordinates ``(r, theta, phi)``.
     """
     r = torch.sqrt(x**2 + y**2 + z**2)
-    eps_phi = torch.finfo(x.dtype).eps * 10
+    # tiny compared to the distance to the origin, in whatever unit that is given
+    eps_phi = torch.finfo(x.dtype).eps * 10 * torch.where(r == 0, 1.0, r.detach().clamp(max=1.0))
     x_safe = x + (x == 0).to(x.dtype) * eps_phi
     # atan2 is accurate close to the polar axis, where acos(z/r) is not
     theta = torch.atan2(torch.sqrt(x_safe**2 + y**2), z)
-- 
2.43.0


From 9e670616afbc7b1657a8e37ef8246047676cada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 33/34] fix: conjugated or negated tensors rejected by the
 scipy Bessel functions and numpy converters

---
 src/pymiediff/helper/helper.py | 12 ++++++------
 src/pymiediff/special.py       | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/pymiediff/helper/helper.py b/src/pymiediff/helper/helper.py
index 6b9e792..02d007c 100644
--- a/src/pymiediff/helper/helper.py
+++ b/src/pymiediff/helper/helper.py
@@ -38,11 +38,11 @@ def detach_tensor(args, item=False):
     """
     # If args is a tuple, process its elements; otherwise, process the single tensor
     if isinstance(args, tuple) and not item:
-        return tuple(x.detach().cpu().numpy() for x in args)
+        return tuple(x.numpy(force=True) for x in args)
     elif isinstance(args, tuple) and item:
-        return tuple(x.detach().cpu().numpy().item() for x in args)
+        return tuple(x.numpy(force=True).item() for x in args)
     else:
-        return args.detach().cpu().numpy()
+        return args.numpy(force=True)
 
 
 def get_truncution_criteroin_wiscombe(ka):
@@ -306,9 +306,9 @@ def funct_grad_checker(z, funct, inputs):
         outputs=result, inputs=[z], grad_outputs=torch.ones_like(result)
     )
 
-    z_np = z.detach().cpu().numpy().squeeze()
-    num_grad_np = num_grad.detach().cpu().numpy().squeeze()
-    grad_np = grad[0].detach().cpu().numpy().squeeze()
+    z_np = z.numpy(force=True).squeeze()
+    num_grad_np = num_grad.numpy(force=True).squeeze()
+    grad_np = grad[0].numpy(force=True).squeeze()
 
     return z_np, num_grad_np, grad_np
 
diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 46adcb8..1c10aec 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -75,7 +75,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
 class _AutoDiffJn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
         result = torch.from_numpy(spherical_jn(n_np, z_np)).to(z.device)
         return result
 
@@ -89,7 +89,7 @@ class _AutoDiffJn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
 
         # gradient of forward pass
         dz = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True)).to(z.device)
@@ -131,7 +131,7 @@ def sph_jn(n: torch.Tensor, z: torch.Tensor, **kwargs):
 class _AutoDiffdJn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
         result = torch.from_numpy(spherical_jn(n_np, z_np, derivative=True)).to(z.device)
         return result
 
@@ -145,7 +145,7 @@ class _AutoDiffdJn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
 
         # gradient of forward pass
         ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_jn)).to(z.device)
@@ -187,7 +187,7 @@ def sph_jn_der(n: torch.Tensor, z: torch.Tensor, **kwargs):
 class _AutoDiffYn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
         result = torch.from_numpy(spherical_yn(n_np, z_np)).to(z.device)
         return result
 
@@ -201,7 +201,7 @@ class _AutoDiffYn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
 
         # gradient of forward pass
         dz = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True)).to(z.device)
@@ -243,7 +243,7 @@ def sph_yn(n: torch.Tensor, z: torch.Tensor, **kwargs):
 class _AutoDiffdYn(torch.autograd.Function):
     @staticmethod
     def forward(n, z):
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
         result = torch.from_numpy(spherical_yn(n_np, z_np, derivative=True)).to(z.device)
         return result
 
@@ -257,7 +257,7 @@ class _AutoDiffdYn(torch.autograd.Function):
     @torch.autograd.function.once_differentiable  # todo: double diff support
     def backward(ctx, grad_result):
         n, z, result = ctx.saved_tensors
-        n_np, z_np = n.detach().cpu().numpy(), z.detach().cpu().numpy()
+        n_np, z_np = n.numpy(force=True), z.numpy(force=True)
 
         # gradient of forward pass
         ddz = torch.from_numpy(bessel2ndDer(n_np, z_np, spherical_yn)).to(z.device)
-- 
2.43.0


From e48e236732c992ed93e0228ea5012c14f92af7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:41 +0000
Subject: [PATCH 34/34] fix: pi_tau rejects transposed or expanded angles

---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 1c10aec..46595d6 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -1121,7 +1121,7 @@ def pi_tau(n: int, mu: torch.Tensor, **kwargs):
 
     # keep original shape to reshape later
     orig_shape = mu.shape
-    mu_flat = mu.view(-1)  # 1D for iteration
+    mu_flat = mu.reshape(-1)  # 1D for iteration
     L = mu_flat.shape[0]
 
     # build pi/tau without in-place writes (autograd-safe)
-- 
2.43.0

