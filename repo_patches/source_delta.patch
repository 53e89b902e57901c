From 467a348234fe99fdc9bd3948f7068d71ddc810d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:46 +0000
Subject: [PATCH 01/26] fix: incident p-wave enters numpy and jax conical/2D
 solvers with the sign of Moharam's equation

---
 meent/on_jax/emsolver/transfer_method.py   | 24 +++++++++++-----------
 meent/on_numpy/emsolver/transfer_method.py | 24 +++++++++++-----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 1399c25..b8308dc 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -389,9 +389,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B = jnp.block(
         [
             [-jnp.sin(psi) * delta_i0],
-            [jnp.cos(psi) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi) * delta_i0]
+            [1j * n_top * jnp.cos(psi) * delta_i0]
         ]
     )
 
@@ -426,9 +426,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_tm = jnp.block(
         [
             [-jnp.sin(psi_tm) * delta_i0],
-            [jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_tm) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_tm) * delta_i0]
+            [1j * n_top * jnp.cos(psi_tm) * delta_i0]
         ]
     )
 
@@ -436,9 +436,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_te = jnp.block(
         [
             [-jnp.sin(psi_te) * delta_i0],
-            [jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_te) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_te) * delta_i0]
+            [1j * n_top * jnp.cos(psi_te) * delta_i0]
         ]
     )
 
@@ -635,9 +635,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B = jnp.block(
         [
             [-jnp.sin(psi) * delta_i0],
-            [jnp.cos(psi) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi) * delta_i0]
+            [1j * n_top * jnp.cos(psi) * delta_i0]
         ]
     )
 
@@ -672,18 +672,18 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B_tm = jnp.block(
         [
             [-jnp.sin(psi_tm) * delta_i0],
-            [jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_tm) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_tm) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_tm) * delta_i0]
+            [1j * n_top * jnp.cos(psi_tm) * delta_i0]
         ]
     )
     psi_te = jnp.array(jnp.pi/2, dtype=type_complex)
     final_B_te = jnp.block(
         [
             [-jnp.sin(psi_te) * delta_i0],
-            [jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
+            [-jnp.cos(psi_te) * jnp.cos(theta) * delta_i0],
             [-1j * jnp.sin(psi_te) * n_top * jnp.cos(theta) * delta_i0],
-            [-1j * n_top * jnp.cos(psi_te) * delta_i0]
+            [1j * n_top * jnp.cos(psi_te) * delta_i0]
         ]
     )
 
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 3b7027e..4f0a9e9 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -292,9 +292,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B = np.block(
         [
             [-np.sin(psi) * delta_i0],
-            [np.cos(psi) * np.cos(theta) * delta_i0],
+            [-np.cos(psi) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi) * delta_i0]
+            [1j * n_top * np.cos(psi) * delta_i0]
         ]
     )
 
@@ -329,9 +329,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_tm = np.block(
         [
             [-np.sin(psi_tm) * delta_i0],
-            [np.cos(psi_tm) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_tm) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_tm) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_tm) * delta_i0]
+            [1j * n_top * np.cos(psi_tm) * delta_i0]
         ]
     )
 
@@ -339,9 +339,9 @@ def transfer_1d_conical_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi,
     final_B_te = np.block(
         [
             [-np.sin(psi_te) * delta_i0],
-            [np.cos(psi_te) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_te) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_te) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_te) * delta_i0]
+            [1j * n_top * np.cos(psi_te) * delta_i0]
         ]
     )
 
@@ -537,9 +537,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B = np.block(
         [
             [-np.sin(psi) * delta_i0],
-            [np.cos(psi) * np.cos(theta) * delta_i0],
+            [-np.cos(psi) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi) * delta_i0]
+            [1j * n_top * np.cos(psi) * delta_i0]
         ]
     )
 
@@ -574,9 +574,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B_tm = np.block(
         [
             [-np.sin(psi_tm) * delta_i0],
-            [np.cos(psi_tm) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_tm) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_tm) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_tm) * delta_i0]
+            [1j * n_top * np.cos(psi_tm) * delta_i0]
         ]
     )
 
@@ -584,9 +584,9 @@ def transfer_2d_4(ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, theta, n
     final_B_te = np.block(
         [
             [-np.sin(psi_te) * delta_i0],
-            [np.cos(psi_te) * np.cos(theta) * delta_i0],
+            [-np.cos(psi_te) * np.cos(theta) * delta_i0],
             [-1j * np.sin(psi_te) * n_top * np.cos(theta) * delta_i0],
-            [-1j * n_top * np.cos(psi_te) * delta_i0]
+            [1j * n_top * np.cos(psi_te) * delta_i0]
         ]
     )
 
-- 
2.43.0


From 34032d467252166973e783f8cd7ce6b339ca0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 02/26] fix: lossy substrate takes the decaying branch of kz in
 the numpy and jax backends

---
 meent/on_jax/emsolver/transfer_method.py   | 32 ++++++++++++----------
 meent/on_numpy/emsolver/transfer_method.py | 32 ++++++++++++----------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index b8308dc..4500872 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -4,14 +4,22 @@ import jax.numpy as jnp
 from .primitives import eig, conj, meeinv
 
 
+def outgoing_kz(n, k_par2):
+    """z component of the wave vector leaving the stack, exp(-1j * kz * z) with Im(kz) <= 0.
+
+    For a real index this is the conjugate of the principal square root. For a lossy index (n - ik) the principal
+    root itself is the decaying one and its conjugate grows, so the branch must not be picked by conjugation.
+    """
+    evanescent = abs(k_par2) > abs(jnp.real(n) ** 2)
+
+    return jnp.where(evanescent, -1j * (k_par2 - n ** 2) ** 0.5, (n ** 2 - k_par2) ** 0.5)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
     ff_x = len(kx)
 
-    kz_top = (n_top ** 2 - kx ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
-
-    kz_top = kz_top.conjugate()
-    kz_bot = kz_bot.conjugate()
+    kz_top = outgoing_kz(n_top, kx ** 2)
+    kz_bot = outgoing_kz(n_bot, kx ** 2)
 
     F = jnp.eye(ff_x, dtype=type_complex)
 
@@ -205,11 +213,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     I = jnp.eye(ff_xy).astype(type_complex)
     O = jnp.zeros((ff_xy, ff_xy)).astype(type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
+    kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
@@ -486,11 +491,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     I = jnp.eye(ff_xy, dtype=type_complex)
     O = jnp.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
+    kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 4f0a9e9..1dff5b4 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -3,14 +3,22 @@ import numpy as np
 from .primitives import meeinv
 
 
+def outgoing_kz(n, k_par2):
+    """z component of the wave vector leaving the stack, exp(-1j * kz * z) with Im(kz) <= 0.
+
+    For a real index this is the conjugate of the principal square root. For a lossy index (n - ik) the principal
+    root itself is the decaying one and its conjugate grows, so the branch must not be picked by conjugation.
+    """
+    evanescent = abs(k_par2) > abs(np.real(n) ** 2)
+
+    return np.where(evanescent, -1j * (k_par2 - n ** 2) ** 0.5, (n ** 2 - k_par2) ** 0.5)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
     ff_x = len(kx)
 
-    kz_top = (n_top ** 2 - kx ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
-
-    kz_top = kz_top.conj()
-    kz_bot = kz_bot.conj()
+    kz_top = outgoing_kz(n_top, kx ** 2)
+    kz_bot = outgoing_kz(n_bot, kx ** 2)
 
     F = np.eye(ff_x, dtype=type_complex)
 
@@ -143,11 +151,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     I = np.eye(ff_xy, dtype=type_complex)
     O = np.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
+    kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
@@ -388,11 +393,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     I = np.eye(ff_xy, dtype=type_complex)
     O = np.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
+    kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
-- 
2.43.0


From 11f79509250755f1488ae080976ef3303b6093e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 03/26] fix: torch conical/2D de_ti_p accounts for a complex
 substrate index

---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 631e3ce..5a3e210 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -442,7 +442,8 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    # T_p is H / n_bot, so the flux of H needs |n_bot|^2 / n_bot^2, which is 1 only for a real index.
+    de_ti_p = (T_p * T_p.conj() * (kz_bot * abs(n_bot) ** 2 / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -488,7 +489,8 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj()
+                    * (kz_bot * abs(n_bot) ** 2 / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
@@ -723,7 +725,8 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    # T_p is H / n_bot, so the flux of H needs |n_bot|^2 / n_bot^2, which is 1 only for a real index.
+    de_ti_p = (T_p * T_p.conj() * (kz_bot * abs(n_bot) ** 2 / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -769,7 +772,8 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj()
+                    * (kz_bot * abs(n_bot) ** 2 / n_bot ** 2 / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
-- 
2.43.0


From f928fdcecc74f714088ac928dd7069f551d20d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 04/26] fix: torch TE/TM-incidence amplitudes use the same
 convention as res

---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 5a3e210..a4fe542 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -477,13 +477,13 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
@@ -760,13 +760,13 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
-- 
2.43.0


From 2f944f3b7d5d819c2c550516b65c6244c356c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:36 +0000
Subject: [PATCH 05/26] fix: ellipse no longer vanishes when both neighbours of
 its highest point are level

---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 1747ca4..ff450c9 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -434,7 +434,7 @@ class ModelingJax:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1] // 2):
@@ -450,7 +450,7 @@ class ModelingJax:
             arr = arr.at[:, ::2].set(jnp.stack(right_array, axis=1))
             arr = arr.at[:, 1::2].set(jnp.stack(left_array, axis=1))
 
-        elif left_y < right_y:
+        else:
             # arr[:, ::2] = jnp.stack(left_array, axis=1)
             # arr[:, 1::2] = jnp.stack(right_array, axis=1)
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index acd0f50..0231514 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -455,7 +455,7 @@ class ModelingNumpy:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -467,7 +467,7 @@ class ModelingNumpy:
         if left_y > right_y:
             arr[:, ::2] = np.stack(right_array, axis=1)
             arr[:, 1::2] = np.stack(left_array, axis=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = np.stack(left_array, axis=1)
             arr[:, 1::2] = np.stack(right_array, axis=1)
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index c492e5c..05cf646 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -358,7 +358,7 @@ class ModelingTorch:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -370,7 +370,7 @@ class ModelingTorch:
         if left_y > right_y:
             arr[:, ::2] = torch.stack(right_array, dim=1)
             arr[:, 1::2] = torch.stack(left_array, dim=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = torch.stack(left_array, dim=1)
             arr[:, 1::2] = torch.stack(right_array, dim=1)
 
-- 
2.43.0


From 7e2eb4ec67ef5156d286faba918242d92429c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:49 +0000
Subject: [PATCH 06/26] fix: rotated rectangle divides each region by its own
 number of splits

---
 meent/on_jax/modeler/modeling.py   | 12 ++++++------
 meent/on_numpy/modeler/modeling.py | 12 ++++++------
 meent/on_torch/modeler/modeling.py | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index ff450c9..dce0e4c 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -191,13 +191,13 @@ class ModelingJax:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_parallelogram + 1).reshape(
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * jnp.arange(n_split_parallelogram + 1).reshape(
                 (-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -207,7 +207,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
@@ -270,7 +270,7 @@ class ModelingJax:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -285,7 +285,7 @@ class ModelingJax:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * jnp.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -305,7 +305,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 0231514..74c7bc0 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -166,12 +166,12 @@ class ModelingNumpy:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * np.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * np.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * np.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -179,7 +179,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * np.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -240,7 +240,7 @@ class ModelingNumpy:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * np.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -255,7 +255,7 @@ class ModelingNumpy:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * np.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -275,7 +275,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 05cf646..0285303 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -208,12 +208,12 @@ class ModelingTorch:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -221,7 +221,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * torch.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -246,13 +246,13 @@ class ModelingTorch:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * torch.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * torch.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -262,7 +262,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
-- 
2.43.0


From 9975b5a7a25fda5207dfcd49e9d0c8a2842e7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 07/26] fix: torch rotated shapes keep float64 precision and
 the gradient of their centre

---
 meent/on_torch/modeler/modeling.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 0285303..48807b6 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -134,10 +134,13 @@ class ModelingTorch:
         DL = rotate @ torch.vstack([-lx / 2, -ly / 2])
         LU = rotate @ torch.vstack([-lx / 2, ly / 2])
 
-        UR += torch.tensor([[cx], [cy]])
-        RD += torch.tensor([[cx], [cy]])
-        DL += torch.tensor([[cx], [cy]])
-        LU += torch.tensor([[cx], [cy]])
+        # torch.tensor([[cx], [cy]]) would cut cx and cy off from the graph and round floats to float32.
+        center = torch.stack([torch.as_tensor(c, dtype=self.type_float).reshape(1) for c in (cx, cy)])
+
+        UR = UR + center
+        RD = RD + center
+        DL = DL + center
+        LU = LU + center
 
         if 0 <= angle < torch.pi / 2:
             angle_inside = (torch.pi / 2) - angle
@@ -308,11 +311,11 @@ class ModelingTorch:
 
         angle = angle % (2 * torch.pi)
 
-        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w))
-        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h))
+        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w, dtype=self.type_float))
+        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h, dtype=self.type_float))
 
-        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w))[:-1]
-        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h))[:-1]
+        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w, dtype=self.type_float))[:-1]
+        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h, dtype=self.type_float))[:-1]
         points_origin_contour = torch.vstack([points_x_origin_contour, points_y_origin_contour])
 
         axis_x_origin = torch.vstack([points_x_origin, torch.ones(len(points_x_origin))])
-- 
2.43.0


From 646e9f88d89b6968ccd78c4670bfefebb31832a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:25 +0000
Subject: [PATCH 08/26] fix: 1D raster cells accept Fourier orders in y (fto_y
 > 0)

---
 meent/on_jax/emsolver/_base.py   | 2 +-
 meent/on_numpy/emsolver/_base.py | 2 +-
 meent/on_torch/emsolver/_base.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index ac7c77f..d750fbc 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -344,7 +344,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * jnp.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 230a482..b2c7af7 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -288,7 +288,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * np.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 919f4a2..b68a070 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -336,7 +336,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * torch.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
-- 
2.43.0


From 13bac678e692086a07c01de1beca75190b849968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:45 +0000
Subject: [PATCH 09/26] fix: an order with kx exactly 0 no longer turns
 conical/2D results into NaN

---
 meent/on_jax/emsolver/transfer_method.py   | 6 ++++--
 meent/on_numpy/emsolver/transfer_method.py | 6 ++++--
 meent/on_torch/emsolver/transfer_method.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 4500872..b8a4566 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -216,7 +216,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
     kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # kx = 0 exactly is a valid order; x / 0 is undefined in complex arithmetic (0 / 0 for an order along z).
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / jnp.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -494,7 +495,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
     kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # kx = 0 exactly is a valid order; x / 0 is undefined in complex arithmetic (0 / 0 for an order along z).
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / jnp.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 1dff5b4..a6847f4 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -154,7 +154,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
     kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # kx = 0 exactly is a valid order; x / 0 is undefined in complex arithmetic (0 / 0 for an order along z).
+    varphi = np.arctan(ky.reshape((-1, 1)) / np.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -396,7 +397,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = outgoing_kz(n_top, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
     kz_bot = outgoing_kz(n_bot, kx ** 2 + ky.reshape((-1, 1)) ** 2).flatten()
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # kx = 0 exactly is a valid order; x / 0 is undefined in complex arithmetic (0 / 0 for an order along z).
+    varphi = np.arctan(ky.reshape((-1, 1)) / np.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index a4fe542..5f08658 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -223,7 +223,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, device='cpu', type_complex=torch
 
     # varphi = torch.arctan(ky / kx_vector)
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # kx = 0 exactly is a valid order; x / 0 is undefined in complex arithmetic (0 / 0 for an order along z).
+    varphi = torch.arctan(ky.reshape((-1, 1)) / torch.where(kx == 0, 1E-20 * torch.ones_like(kx), kx)).flatten()
     Kz_bot = torch.diag(kz_bot)
 
 
@@ -530,7 +531,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, device=torch.device('cpu'), type_complex
     kz_top = kz_top.flatten()
     kz_bot = kz_bot.flatten()
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    # kx = 0 exactly is a valid order; x / 0 is undefined in complex arithmetic (0 / 0 for an order along z).
+    varphi = torch.arctan(ky.reshape((-1, 1)) / torch.where(kx == 0, 1E-20 * torch.ones_like(kx), kx)).flatten()
     Kz_bot = torch.diag(kz_bot)
 
     big_F = torch.cat(
-- 
2.43.0


From a28bfc836b8f2c5446eab2a5da82376da0a1d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 10/26] fix: numpy conv_solve applies its keyword arguments
 like the other backends

---
 meent/on_numpy/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index 429e9b2..e2ed900 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -171,7 +171,7 @@ class RCWANumpy(_BaseRCWA):
         return result
 
     def conv_solve(self, **kwargs):
-        # [setattr(self, k, v) for k, v in kwargs.items()]  # no need in npmeent
+        [setattr(self, k, v) for k, v in kwargs.items()]
 
         if self.modeling_type_assigned == 0:  # Raster
 
-- 
2.43.0


From 294018c3c954417788b42a3b2fe02bde74bbaa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 11/26] fix: jax conv_solve_field_no_jit calls the existing
 conv_solve

---
 meent/on_jax/emsolver/rcwa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2839f68..5712ce6 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -290,15 +290,15 @@ class RCWAJax(_BaseRCWA):
             print('CFT (fourier_type=1) is not supported with JAX jit-compilation. Use conv_solve_field_no_jit.')
             return None, None, None
 
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve()
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res.de_ri, res.de_ti, field_cell
 
     @jax_device_set
     def conv_solve_field_no_jit(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve()
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res.de_ri, res.de_ti, field_cell
 
     def run_ucell_vmap(self, ucell_list):
         """
-- 
2.43.0


From fee054a4c2380f4d533248a7e40b95a298789967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:57 +0000
Subject: [PATCH 12/26] fix: torch Eig backward uses the perturbation of its
 own forward pass

---
 meent/on_torch/emsolver/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 196920d..d542499 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -16,6 +16,7 @@ class Eig(torch.autograd.Function):
         matrix, = inputs
         eigval, eigvec = output
         ctx.save_for_backward(matrix, eigval, eigvec)
+        ctx.perturbation = Eig.perturbation  # the class attribute may belong to another solver by the time of backward
 
     @staticmethod
     def backward(ctx, grad_eigval, grad_eigvec):
@@ -36,7 +37,7 @@ class Eig(torch.autograd.Function):
         W_H = eig_vector.T.conj()
 
         Fij = eig_val.reshape((1, -1)) - eig_val.reshape((-1, 1))
-        Fij = Fij / (torch.abs(Fij) ** 2 + Eig.perturbation)
+        Fij = Fij / (torch.abs(Fij) ** 2 + ctx.perturbation)
         diag_indices = torch.arange(len(Fij), device=Fij.device)
         Fij[diag_indices, diag_indices] = 0
 
-- 
2.43.0


From 45da2e1edf54ba812eb59502f81ef094f5eaaede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:27 +0000
Subject: [PATCH 13/26] fix: discrete Fourier series takes the first cell row
 as the top, like the continuous one

---
 meent/on_jax/emsolver/convolution_matrix.py   | 3 ++-
 meent/on_numpy/emsolver/convolution_matrix.py | 3 ++-
 meent/on_torch/emsolver/convolution_matrix.py | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index e83bfb8..74ab493 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -120,7 +120,8 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=None, type_complex=j
             n = minimum_pattern_size_x // layer.shape[1]
             layer = jnp.repeat(layer, n + 1, axis=1, total_repeat_length=layer.shape[1] * (n + 1))
 
-        eps_matrix = layer ** 2
+        # The first row is the top (y = period) of the cell, as in cell_compression.
+        eps_matrix = jnp.flipud(layer) ** 2
 
         epz_conv = dfs2d(eps_matrix, 1, 1, fto_x, fto_y, type_complex)
         epy_conv = dfs2d(eps_matrix, 1, 0, fto_x, fto_y, type_complex)
diff --git a/meent/on_numpy/emsolver/convolution_matrix.py b/meent/on_numpy/emsolver/convolution_matrix.py
index 9d8426c..81e0a45 100644
--- a/meent/on_numpy/emsolver/convolution_matrix.py
+++ b/meent/on_numpy/emsolver/convolution_matrix.py
@@ -116,7 +116,8 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=None, type_complex=n
             n = minimum_pattern_size_x // layer.shape[1]
             layer = np.repeat(layer, n + 1, axis=1)
 
-        eps_matrix = layer ** 2
+        # The first row is the top (y = period) of the cell, as in cell_compression.
+        eps_matrix = np.flipud(layer) ** 2
 
         epz_conv = dfs2d(eps_matrix, 1, 1, fto_x, fto_y, type_complex)
         epy_conv = dfs2d(eps_matrix, 1, 0, fto_x, fto_y, type_complex)
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index cd3b391..f261801 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -191,6 +191,8 @@ def to_conv_mat_raster_discrete(ucell, fto_x, fto_y, device=torch.device('cpu'),
     # ucell shape: (Layers, H, W) isotropic or (Layers, H, W, 3) anisotropic
     def _repeat_to_min(a):
         # Repeat the pattern up to the minimum size the requested Fourier order needs.
+        # The first row is the top (y = period) of the cell, as in cell_compression.
+        a = torch.flipud(a)
         if a.shape[0] < minimum_pattern_size_y:
             a = a.repeat_interleave((minimum_pattern_size_y // a.shape[0]) + 1, dim=0)
         if a.shape[1] < minimum_pattern_size_x:
-- 
2.43.0


From 7b6b475cde1ebc7051f04736af6b5d4bb7056b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:17 +0000
Subject: [PATCH 14/26] fix: gradient with respect to theta is not cut at
 normal incidence (PyTorch)

The perturbation that replaced theta = 0 was a constant, so theta got a zero
gradient there.
---
 meent/on_torch/emsolver/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index b68a070..641f2d1 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -134,7 +134,7 @@ class _BaseRCWA:
             self._theta = None
         else:
             self._theta = _to_tensor(theta, self.device, self.type_complex)
-            self._theta = torch.where(self._theta == 0, self.perturbation, self._theta)  # perturbation
+            self._theta = torch.where(self._theta == 0, self._theta + self.perturbation, self._theta)  # perturbation
 
     @property
     def phi(self):
-- 
2.43.0


From 825f9749db33e758d36000249b366fb1bdae2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:48 +0000
Subject: [PATCH 15/26] fix: pixel gradients of the continuous Fourier series
 with equal neighbors

cell_compression merges equal neighboring columns and rows and keeps one of
them, so the gradient of the whole run went to that pixel and the others got 0.
---
 meent/on_jax/emsolver/convolution_matrix.py   | 7 +++++--
 meent/on_torch/emsolver/convolution_matrix.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index 74ab493..31eb8b8 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -26,10 +26,13 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x = []
     cell_xy = []
 
+    # Equal neighbors are merged, which would leave all but one of them without gradient.
+    keep_all = isinstance(cell, jax.core.Tracer)
+
     cell_next = jnp.roll(cell, -1, axis=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col])
 
@@ -37,7 +40,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x_next = jnp.roll(cell_x, -1, axis=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :])
 
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index f261801..60c490b 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -22,10 +22,13 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x = []
     cell_xy = []
 
+    # Equal neighbors are merged, which would leave all but one of them without gradient.
+    keep_all = cell.requires_grad
+
     cell_next = torch.roll(cell, -1, dims=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col].reshape((1, -1)))
 
@@ -33,7 +36,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x_next = torch.roll(cell_x, -1, dims=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :].reshape((1, -1)))
 
-- 
2.43.0


From 2014cbc8d02b5d9c813efade7622acd4718f1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:06 +0000
Subject: [PATCH 16/26] fix: grad() of the PyTorch optimizer does not
 accumulate over calls

---
 meent/on_torch/optimizer/optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 30084ce..67e9be6 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -17,6 +17,7 @@ class OptimizerTorch(Grad):
 
     def grad(self, pois, forward, loss_fn):
         [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
+        [setattr(getattr(self, poi), 'grad', None) for poi in pois]  # backward() adds to what an earlier call left
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
         loss.backward()  # Back Prop.
-- 
2.43.0


From 4c38844662e092b62a48ba7934cf2e028bf2987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:18 +0000
Subject: [PATCH 17/26] fix: gradient with respect to a real index of a vector
 shape does not fail

---
 meent/on_torch/modeler/modeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 48807b6..6f722f8 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -538,7 +538,8 @@ class ModelingTorch:
             if is_aniso:
                 ucell_layer[row_begin:row_end, col_begin:col_end, :] = _to_index_vector(pmty, datatype)
             else:
-                ucell_layer[row_begin:row_end, col_begin:col_end] = pmty
+                # backward() of this assignment needs both sides to be complex
+                ucell_layer[row_begin:row_end, col_begin:col_end] = pmty.type(datatype) if torch.is_tensor(pmty) else pmty
 
         x_list = torch.cat(col_list).reshape((-1, 1))
         y_list = torch.cat(row_list).reshape((-1, 1))
-- 
2.43.0


From a12a5c679ba92125b983f860f4bb23a32ec42a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:15 +0000
Subject: [PATCH 18/26] fix: gradients of a differentiable (nx, ny, nz) cell
 whose components are equal

Equal values routed the cell to the isotropic conical solver, which gets the
components' separate gradients wrong.
---
 meent/on_torch/emsolver/rcwa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 530e578..c96286d 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -137,7 +137,8 @@ class RCWATorch(_BaseRCWA):
         if self.modeling_type_assigned == 0:
             if self.ucell.dim() == 4:  # (Layers, H, W, 3): anisotropic
                 nx, ny, nz = self.ucell[..., 0], self.ucell[..., 1], self.ucell[..., 2]
-                self.is_aniso = not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
+                # The conical solver gives the response, but not the gradients, of equal components.
+                self.is_aniso = self.ucell.requires_grad or not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
             else:  # (Layers, H, W): isotropic
                 self.is_aniso = False
 
-- 
2.43.0


From c62f96f67eed77e63048d12539d625eaa319dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:55 +0000
Subject: [PATCH 19/26] fix: jax rejects a cell of unsupported dtype instead of
 keeping the previous one

---
 meent/on_jax/emsolver/rcwa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 5712ce6..3c86efc 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -102,6 +102,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (jnp.complex128, jnp.complex64):
                 dtype = self.type_complex
                 self._ucell = ucell.astype(dtype)
+            else:
+                raise ValueError
 
         elif isinstance(ucell, np.ndarray):  # Raster
             self._modeling_type_assigned = 0
@@ -111,6 +113,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (np.complex128, np.complex64):
                 dtype = self.type_complex
                 self._ucell = jnp.array(ucell, dtype=dtype)
+            else:
+                raise ValueError
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
-- 
2.43.0


From 8b03c2cd4f81674ce12df96df9491df8d45c190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:55 +0000
Subject: [PATCH 20/26] fix: a number of thicknesses other than the number of
 layers is rejected, not answered

---
 meent/on_jax/emsolver/rcwa.py   | 3 +++
 meent/on_numpy/emsolver/rcwa.py | 3 +++
 meent/on_torch/emsolver/rcwa.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 3c86efc..dfe95d1 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -178,6 +178,9 @@ class RCWAJax(_BaseRCWA):
 
     @jax_device_set
     def solve_for_conv(self, wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all):
+        if len(self.thickness) != len(epx_conv_all):
+            raise ValueError("'thickness' must have one element per layer of 'ucell'.")
+
 
         # def false_fun(wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all):
         #     de_ri, de_ti, layer_info_list, T1 = self.solve_1d(wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all)
diff --git a/meent/on_numpy/emsolver/rcwa.py b/meent/on_numpy/emsolver/rcwa.py
index e2ed900..8d3d453 100644
--- a/meent/on_numpy/emsolver/rcwa.py
+++ b/meent/on_numpy/emsolver/rcwa.py
@@ -153,6 +153,9 @@ class RCWANumpy(_BaseRCWA):
         self._grating_type_assigned = grating_type_assigned
 
     def solve_for_conv(self, wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all):
+        if len(self.thickness) != len(epx_conv_all):
+            raise ValueError("'thickness' must have one element per layer of 'ucell'.")
+
         self._assign_grating_type()
 
         if self.grating_type_assigned == 0:
diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index c96286d..28e9d37 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -167,6 +167,9 @@ class RCWATorch(_BaseRCWA):
         self._grating_type_assigned = grating_type_assigned
 
     def solve_for_conv(self, wavelength, epx_conv_all, epy_conv_all, epz_conv_i_all):
+        if len(self.thickness) != len(epx_conv_all):
+            raise ValueError("'thickness' must have one element per layer of 'ucell'.")
+
 
         # Re-derive the grating type from the current ucell right before solving.
         # The ucell setter does not recompute it, so if ucell was assigned after
-- 
2.43.0


From 91e877942973789412abdcb3be03fa1f3072ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:44 +0000
Subject: [PATCH 21/26] fix: torch accepts flipped views of NumPy arrays as
 cells

---
 meent/on_torch/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 28e9d37..c85eb97 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -97,7 +97,7 @@ class RCWATorch(_BaseRCWA):
             self._modeling_type_assigned = 0
             
             if isinstance(ucell, np.ndarray):
-                ucell = torch.from_numpy(ucell)
+                ucell = torch.from_numpy(np.ascontiguousarray(ucell))
 
             if ucell.dim() == 3:
                 # Isotropic (Layers, H, W): kept as-is. Do NOT expand to (..., 3) with
-- 
2.43.0


From ce3dc59de831a909cdf6d8914e36d983d578123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:43 +0000
Subject: [PATCH 22/26] fix: numpy 1D results have the requested type also in
 the dark polarization

---
 meent/on_numpy/emsolver/transfer_method.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index a6847f4..e3d04e6 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -112,23 +112,23 @@ def transfer_1d_4(pol, ff_x, F, G, T, kz_top, kz_bot, theta, n_top, n_bot, type_
     if pol == 0:
         de_ti = (T * T.conj() * (kz_bot / (n_top * np.cos(theta))).real).real
         R_s = R
-        R_p = np.zeros(R.shape)
+        R_p = np.zeros(R.shape, dtype=R.dtype)
         T_s = T
-        T_p = np.zeros(T.shape)
+        T_p = np.zeros(T.shape, dtype=T.dtype)
         de_ri_s = de_ri
-        de_ri_p = np.zeros(de_ri.shape)
+        de_ri_p = np.zeros(de_ri.shape, dtype=de_ri.dtype)
         de_ti_s = de_ti
-        de_ti_p = np.zeros(de_ri.shape)
+        de_ti_p = np.zeros(de_ri.shape, dtype=de_ri.dtype)
 
     elif pol == 1:
         de_ti = (T * T.conj() * (kz_bot / n_bot ** 2 / (np.cos(theta) / n_top)).real).real
-        R_s = np.zeros(R.shape)
+        R_s = np.zeros(R.shape, dtype=R.dtype)
         R_p = R
-        T_s = np.zeros(T.shape)
+        T_s = np.zeros(T.shape, dtype=T.dtype)
         T_p = T
-        de_ri_s = np.zeros(de_ri.shape)
+        de_ri_s = np.zeros(de_ri.shape, dtype=de_ri.dtype)
         de_ri_p = de_ri
-        de_ti_s = np.zeros(de_ri.shape)
+        de_ti_s = np.zeros(de_ri.shape, dtype=de_ri.dtype)
         de_ti_p = de_ti
     else:
         raise ValueError
-- 
2.43.0


From 71fc61135d8c86e4018a4bcd00fd36863cf35c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:04 +0000
Subject: [PATCH 23/26] fix: torch period may be omitted like in the other
 backends

---
 meent/on_torch/modeler/modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 6f722f8..a3009f1 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -58,7 +58,7 @@ class Compress(torch.autograd.Function):
 
 
 class ModelingTorch:
-    def __init__(self, period=None, *args, **kwargs):
+    def __init__(self, period=(1., 1.), *args, **kwargs):
 
         self.ucell = None
         self.ucell_vector = None
-- 
2.43.0


From b3d8b95f40e45a82c229f2de91197931e0f8e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:04 +0000
Subject: [PATCH 24/26] fix: torch device setter accepts the names the
 constructor accepts

---
 meent/on_torch/emsolver/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 641f2d1..175989b 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -85,9 +85,9 @@ class _BaseRCWA:
 
     @device.setter
     def device(self, device):
-        if device == 0:
+        if device in (0, 'cpu'):
             self._device = torch.device('cpu')
-        elif device == 1:
+        elif device in (1, 'gpu', 'cuda'):
             self._device = torch.device('cuda')
         elif type(device) is torch.device:
             self._device = device
-- 
2.43.0


From f370c6c1bb706a8dfaab25078a0da33b40fdfd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:44 +0000
Subject: [PATCH 25/26] fix: torch compares the cut-off of an order in the
 working precision, not in float32

---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 5f08658..881cd77 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -31,8 +31,8 @@ def transfer_1d_1(pol, kx, n_top, n_bot, device=torch.device('cpu'), type_comple
     # Force the decaying branch there. Compare against the real part of the index: the
     # propagating/evanescent cutoff is only defined for a lossless medium, and a complex
     # index cannot be ordered against a real magnitude at all.
-    evan_top = abs(kx) > abs(torch.as_tensor(n_top).real)
-    evan_bot = abs(kx) > abs(torch.as_tensor(n_bot).real)
+    evan_top = abs(kx) > abs(torch.as_tensor(n_top, dtype=type_complex).real)
+    evan_bot = abs(kx) > abs(torch.as_tensor(n_bot, dtype=type_complex).real)
     kz_top[evan_top] = -1j * (kx[evan_top] ** 2 - n_top ** 2) ** 0.5
     kz_bot[evan_bot] = -1j * (kx[evan_bot] ** 2 - n_bot ** 2) ** 0.5
 
@@ -212,8 +212,8 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, device='cpu', type_complex=torch
 
     # Force the decaying branch of the sqrt for evanescent orders; see transfer_1d_1.
     k_par2 = kx ** 2 + ky.reshape((-1, 1)) ** 2
-    evan_top = abs(k_par2) > abs(torch.as_tensor(n_top).real ** 2)
-    evan_bot = abs(k_par2) > abs(torch.as_tensor(n_bot).real ** 2)
+    evan_top = abs(k_par2) > abs(torch.as_tensor(n_top, dtype=type_complex).real ** 2)
+    evan_bot = abs(k_par2) > abs(torch.as_tensor(n_bot, dtype=type_complex).real ** 2)
     kz_top[evan_top] = -1j * (k_par2[evan_top] - n_top ** 2) ** 0.5
     kz_bot[evan_bot] = -1j * (k_par2[evan_bot] - n_bot ** 2) ** 0.5
 
@@ -523,8 +523,8 @@ def transfer_2d_1(kx, ky, n_top, n_bot, device=torch.device('cpu'), type_complex
 
     # Force the decaying branch of the sqrt for evanescent orders; see transfer_1d_1.
     k_par2 = kx ** 2 + ky.reshape((-1, 1)) ** 2
-    evan_top = abs(k_par2) > abs(torch.as_tensor(n_top).real ** 2)
-    evan_bot = abs(k_par2) > abs(torch.as_tensor(n_bot).real ** 2)
+    evan_top = abs(k_par2) > abs(torch.as_tensor(n_top, dtype=type_complex).real ** 2)
+    evan_bot = abs(k_par2) > abs(torch.as_tensor(n_bot, dtype=type_complex).real ** 2)
     kz_top[evan_top] = -1j * (k_par2[evan_top] - n_top ** 2) ** 0.5
     kz_bot[evan_bot] = -1j * (k_par2[evan_bot] - n_bot ** 2) ** 0.5
 
-- 
2.43.0


From 64b9c7a348f7eaea4e9dadf8528704e573e91d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:46 +0000
Subject: [PATCH 26/26] fix: torch treats a cell as isotropic only when its
 components are equal

torch.allclose dropped index differences below 1e-5 of a one-row (nx, ny, nz) cell.
---
 meent/on_torch/emsolver/rcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index c85eb97..732ebcb 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -138,7 +138,7 @@ class RCWATorch(_BaseRCWA):
             if self.ucell.dim() == 4:  # (Layers, H, W, 3): anisotropic
                 nx, ny, nz = self.ucell[..., 0], self.ucell[..., 1], self.ucell[..., 2]
                 # The conical solver gives the response, but not the gradients, of equal components.
-                self.is_aniso = self.ucell.requires_grad or not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
+                self.is_aniso = self.ucell.requires_grad or not (torch.equal(nx, ny) and torch.equal(ny, nz))
             else:  # (Layers, H, W): isotropic
                 self.is_aniso = False
 
-- 
2.43.0

