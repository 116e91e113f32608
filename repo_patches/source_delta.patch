From 44067416af638e15a5cda69b06fb4467f120eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 01/33] fix: Avoid overflow in derivative of Fermi-Dirac delta
 function

For |x| > 355, the squared hyperbolic cosine overflowed. Use the equivalent
-tanh(x / 2) / (2 cosh(x) + 2) instead.
---
 elphmod/occupations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/occupations.py b/elphmod/occupations.py
index 85aa34f..8f8e07a 100644
--- a/elphmod/occupations.py
+++ b/elphmod/occupations.py
@@ -46,7 +46,7 @@ def fermi_dirac_delta_prime(x):
     x = np.array(x)
     x.real = np.sign(x.real) * np.minimum(abs(x.real), xmax)
 
-    return -np.sinh(x) / (2 * (np.cosh(x) + 1) ** 2)
+    return -np.tanh(x / 2) / (2 * np.cosh(x) + 2)
 
 def fermi_dirac_entropy(x):
     """Calculate electronic entropy."""
-- 
2.43.0


From ba62230c10de636650aa851233caefa67feb44fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:29 +0000
Subject: [PATCH 02/33] fix: Correct number of electronic lattice vectors in
 elph.Model.standardize

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 0d8b5b5..01b860c 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -624,7 +624,7 @@ class Model:
         if nk <= len(self.Rk):
             self.Rk = self.Rk[:nk]
         else:
-            self.Rk = np.empty((ng, 3), dtype=int)
+            self.Rk = np.empty((nk, 3), dtype=int)
 
         shape = ng, self.ph.size, nk, self.el.size, self.el.size
 
-- 
2.43.0


From 2f5c791bec187e68fa82d8865d9ba82b0f882515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:29 +0000
Subject: [PATCH 03/33] fix: Discard cached coupling in elph.Model.asr and
 elph.q2r

---
 elphmod/elph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index 01b860c..bd0a644 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -708,6 +708,8 @@ class Model:
         if self.node.rank == 0:
             self.images.Bcast(self.data.view(dtype=float))
 
+        self.q = None # discard cached coupling
+
         comm.Barrier()
 
     def decay_epmate(self):
@@ -1089,6 +1091,14 @@ def q2r(elph, nq, nk, g, r=None, divide_mass=True, shared_memory=False):
     if elph.node.rank == 0:
         elph.images.Bcast(elph.data.view(dtype=float))
 
+    # discard cached coupling:
+
+    elph.q = None
+    elph.gq = np.empty((elph.ph.size, len(elph.Rk),
+        elph.el.size, elph.el.size), dtype=complex)
+
+    elph.Rk0 = elphmod.misc.vector_index(elph.Rk, (0, 0, 0))
+
     comm.Barrier()
 
 def coupling(filename, nQ, nmodes, nk, bands, Q=None, nq=None, offset=0,
-- 
2.43.0


From bcaf3085bc37077ee558cfc3eaab27c35c935185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 04/33] fix: Accept integer lattice vectors in
 bravais.reciprocals

---
 elphmod/bravais.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 87c9771..782238a 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -332,8 +332,8 @@ def reciprocals(a1, a2, a3=None):
         b1 = rotate(a2, -90 * deg)
         b2 = rotate(a1, +90 * deg)
 
-        b1 /= np.dot(a1, b1)
-        b2 /= np.dot(a2, b2)
+        b1 = b1 / np.dot(a1, b1)
+        b2 = b2 / np.dot(a2, b2)
 
         return b1, b2
 
@@ -342,9 +342,9 @@ def reciprocals(a1, a2, a3=None):
         b2 = np.cross(a3, a1)
         b3 = np.cross(a1, a2)
 
-        b1 /= np.dot(a1, b1)
-        b2 /= np.dot(a2, b2)
-        b3 /= np.dot(a3, b3)
+        b1 = b1 / np.dot(a1, b1)
+        b2 = b2 / np.dot(a2, b2)
+        b3 = b3 / np.dot(a3, b3)
 
         return b1, b2, b3
 
-- 
2.43.0


From 6dbb7f6b35b88b349c2c0d5f979ee18d911d86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:30 +0000
Subject: [PATCH 05/33] fix: Do not modify lattice parameters passed to
 bravais.primitives

---
 elphmod/bravais.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 782238a..321acc3 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -94,6 +94,8 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
         elif ibrav in {-5, 5, 12, 13}:
             celldm[3] = cosab
 
+    celldm = np.array(celldm, dtype=float) # do not modify argument
+
     if not bohr:
         celldm[0] *= elphmod.misc.a0
 
@@ -101,7 +103,7 @@ def primitives(ibrav=8, a=1.0, b=1.0, c=1.0, cosbc=0.0, cosac=0.0, cosab=0.0,
         if r_cell is None or cell_units is None:
             info('ibrav=0 requires r_cell and cell_units!', error=True)
 
-        a = np.array(r_cell)
+        a = np.array(r_cell, dtype=float)
 
         if 'alat' in cell_units.lower():
             a *= celldm[0]
-- 
2.43.0


From 9d473b3c3530aef8c462177b9ba6307ed771318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 06/33] fix: Interpolate data with additional axes with recent
 NumPy

---
 elphmod/bravais.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 321acc3..ddf819c 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -934,6 +934,11 @@ def linear_interpolation(data, angle=60, axes=(0, 1), period=None, polar=False):
 
     # make interpolant function applicable to arrays and return:
 
+    if data.ndim > len(axes):
+        return np.vectorize(interpolant, signature='%s->(%s)'
+            % (','.join(['()'] * len(axes)),
+               ','.join('n%d' % n for n in range(data.ndim - len(axes)))))
+
     return np.vectorize(interpolant)
 
 def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
-- 
2.43.0


From d169c59247609ef6efa2ae000f5b47f7ffb95348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:46 +0000
Subject: [PATCH 07/33] fix: Correct order of band indices in
 eliashberg.McMillan with tetra=True

---
 elphmod/eliashberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/eliashberg.py b/elphmod/eliashberg.py
index 6401a42..162ea7b 100644
--- a/elphmod/eliashberg.py
+++ b/elphmod/eliashberg.py
@@ -120,7 +120,7 @@ def McMillan(nq, e, w2, g2, eps=1e-10, mustar=0.0, tetra=False, kT=0.025,
                         E[:, :, m])(0)
 
                     for (k1, k2), weight in intersections.items():
-                        g2dd[iq] += weight * g2_fun(k1, k2)[:, n, m]
+                        g2dd[iq] += weight * g2_fun(k1, k2)[:, m, n]
                         dd[iq] += weight
 
         N0 = 0
-- 
2.43.0


From 7feaa74ca880b46d3aba45dca2aa4ebb8879293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 08/33] fix: Let standardized models without nonzero matrices
 keep their shape

---
 elphmod/el.py   | 5 +++--
 elphmod/elel.py | 5 +++--
 elphmod/ph.py   | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 4fe9485..bce90cf 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -559,8 +559,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                *self.data.shape[1:]))
 
             if symmetrize:
                 self.data /= 2
diff --git a/elphmod/elel.py b/elphmod/elel.py
index 9425112..18917f0 100644
--- a/elphmod/elel.py
+++ b/elphmod/elel.py
@@ -249,8 +249,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                *self.data.shape[1:]))
         else:
             count = None
 
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0a7ba49..fead21d 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -882,8 +882,9 @@ class Model:
             cells = sorted(list(const.keys()))
             count = len(cells)
 
-            self.R = np.array(cells, dtype=int)
-            self.data = np.array([const[R] for R in cells])
+            self.R = np.array(cells, dtype=int).reshape((-1, 3))
+            self.data = np.array([const[R] for R in cells]).reshape((-1,
+                *self.data.shape[1:]))
 
             if symmetrize:
                 self.data /= 2
-- 
2.43.0


From a1a6554faf1ba07642113927890ce2bda31c7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:39 +0000
Subject: [PATCH 09/33] fix: Let ph.Model.unit_cell recover lattice vectors of
 left-handed supercells

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index fead21d..22e62dd 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -696,7 +696,7 @@ class Model:
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
         B3 = np.cross(self.N[0], self.N[1])
-        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / len(self.cells)
+        ph.a = np.dot(np.array([B1, B2, B3]).T, self.a) / np.dot(self.N[0], B1)
 
         ph.divide_mass = self.divide_mass
         ph.divide_ndegen = self.divide_ndegen
-- 
2.43.0


From 2c4e07bd27bed92e5d6abd602af77b1565f049f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 10/33] fix: Keep settings of tight-binding model in unit_cell

---
 elphmod/el.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elphmod/el.py b/elphmod/el.py
index bce90cf..04927da 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -413,6 +413,8 @@ class Model:
         """
         el = Model()
         el.size = self.size // len(self.cells)
+        el.divide_ndegen = self.divide_ndegen
+        el.rydberg = self.rydberg
 
         if comm.rank == 0:
             const = dict()
-- 
2.43.0


From 14fcd487ceceb004fe0097dbb555820872c05d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:04 +0000
Subject: [PATCH 11/33] fix: Find origin cell when mapping supercell model back
 to unit cell

---
 elphmod/el.py | 4 +++-
 elphmod/ph.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/elphmod/el.py b/elphmod/el.py
index 04927da..59058b5 100644
--- a/elphmod/el.py
+++ b/elphmod/el.py
@@ -422,9 +422,11 @@ class Model:
             status = elphmod.misc.StatusBar(len(self.R),
                 title='map hoppings back to unit cell')
 
+            o = self.cells.index((0, 0, 0)) * el.size
+
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    t = self.data[n, :el.size, i * el.size:(i + 1) * el.size]
+                    t = self.data[n, o:o + el.size, i * el.size:(i + 1) * el.size]
 
                     if np.any(t != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
diff --git a/elphmod/ph.py b/elphmod/ph.py
index 22e62dd..e9bf4dc 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -691,7 +691,9 @@ class Model:
         ph.nat = self.nat // len(self.cells)
         ph.M = self.M[:ph.nat]
         ph.atom_order = self.atom_order[:ph.nat]
-        ph.r = self.r[:ph.nat]
+
+        origin = self.cells.index((0, 0, 0))
+        ph.r = self.r[origin * ph.nat:(origin + 1) * ph.nat]
 
         B1 = np.cross(self.N[1], self.N[2])
         B2 = np.cross(self.N[2], self.N[0])
@@ -732,9 +734,11 @@ class Model:
             status = elphmod.misc.StatusBar(len(self.R),
                 title='map force constants back to unit cell')
 
+            o = origin * ph.size
+
             for n in range(len(self.R)):
                 for i, cell in enumerate(self.cells):
-                    C = self.data[n, :ph.size, i * ph.size:(i + 1) * ph.size]
+                    C = self.data[n, o:o + ph.size, i * ph.size:(i + 1) * ph.size]
 
                     if np.any(C != 0):
                         R = tuple(np.dot(self.R[n], self.N) + np.array(cell))
-- 
2.43.0


From 067c9fd2e2222106a8ac93f69dfe834e770f18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:46 +0000
Subject: [PATCH 12/33] fix: Find all reciprocal vectors within cutoff also for
 skewed cells

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index e9bf4dc..4107675 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -373,7 +373,7 @@ class Model:
         self.scale = 4 * self.alpha * (2 * np.pi / a) ** 2
 
         nr = 1 + (np.sqrt(self.scale * G_max)
-            / np.linalg.norm(2 * np.pi * self.b, axis=1)).astype(int)
+            * np.linalg.norm(self.a, axis=1) / (2 * np.pi)).astype(int)
 
         if self.lr2d or G_2d:
             nr[2] = 0
-- 
2.43.0


From 8662fd27999d38e6d77ddff72502dd44fbf3461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 13/33] fix: Renormalize orbital coupling beyond
 density-density terms

---
 elphmod/diagrams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index 5e96149..b81dcf8 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -822,7 +822,7 @@ def renormalize_coupling_orbital(q, e, g, W, U, **kwargs):
 
     g = g.copy()
 
-    while dg.ndim < g.ndim - 1 if dd else g.ndim:
+    while dg.ndim < (g.ndim - 1 if dd else g.ndim):
         dg = dg[:, :, np.newaxis]
 
     if dd:
-- 
2.43.0


From d3ea347f18dc31aa87b68192eee4dc520880c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:37 +0000
Subject: [PATCH 14/33] fix: Do not truncate integer data interpolated by
 bravais.resize

---
 elphmod/bravais.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index ddf819c..6c674df 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -985,8 +985,10 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
     size = np.prod(shape)
     sizes, bounds = elphmod.MPI.distribute(size, bounds=True)
 
+    dtype = np.result_type(data.dtype, 1.0) # do not round interpolated integers
+
     my_new_data = np.empty((sizes[comm.rank], *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     if periodic:
         scale = np.divide(data.shape[:len(shape)], shape)
@@ -1000,7 +1002,7 @@ def resize(data, shape, angle=60, axes=(0, 1), period=None, polar=False,
         my_new_data[n] = interpolant(*np.multiply(m, scale))
 
     new_data = np.empty((*shape, *data.shape[len(shape):]),
-        dtype=data.dtype)
+        dtype=dtype)
 
     comm.Allgatherv(my_new_data,
         (new_data, sizes * np.prod(data.shape[len(shape):], dtype=int)))
-- 
2.43.0


From 939159321d53a9f6683f978b39e1de56de7db687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:17 +0000
Subject: [PATCH 15/33] fix: sort bands by their average energy in band_order

---
 elphmod/dispersion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index fc36400..ba1142e 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -499,7 +499,8 @@ def band_order(v, V, by_mean=True, dv=float('inf'), eps=1e-10, status=True):
             bar.update()
 
     if by_mean:
-        o[:] = o[:, sorted(range(bands), key=lambda i: v[:, o[:, i]].sum())]
+        o[:] = o[:, sorted(range(bands), key=lambda i:
+            v[range(points), o[:, i]].sum())]
 
     return o
 
-- 
2.43.0


From 2cf9e66e89b2a344fb8b654ad1dbac19a9069742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:23 +0000
Subject: [PATCH 16/33] fix: select representative wave vector from set in
 dispersion

---
 elphmod/dispersion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index ba1142e..0926af8 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -123,8 +123,8 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             # rotate phonon eigenvectors by negative angle of k point:
 
             if rotate:
-                k1, k2 = elphmod.bravais.to_Voronoi(*my_k[point, :2],
-                    nk=2 * np.pi, angle=angle)[0]
+                k1, k2 = min(elphmod.bravais.to_Voronoi(*my_k[point, :2],
+                    nk=2 * np.pi, angle=angle))
 
                 x, y = k1 * b1 + k2 * b2
                 phi = np.arctan2(y, x)
-- 
2.43.0


From bb401f75b6f16c825ce57f988f3b075b06afed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:47 +0000
Subject: [PATCH 17/33] fix: store band order in shared array in dispersion

---
 elphmod/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/dispersion.py b/elphmod/dispersion.py
index 0926af8..c8137a5 100644
--- a/elphmod/dispersion.py
+++ b/elphmod/dispersion.py
@@ -168,7 +168,7 @@ def dispersion(matrix, k, angle=60, vectors=False, gauge=False, rotate=False,
             dtype=int, **memory)
 
         if comm.rank == 0:
-            o = band_order(v, V, **order_kwargs)
+            o[...] = band_order(v, V, **order_kwargs)
 
             for point in range(points):
                 v[point] = v[point, o[point]]
-- 
2.43.0


From 678fd0a04f24c3efeff246f8d1c6be07dcfa4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:09 +0000
Subject: [PATCH 18/33] fix: qualify name of distribute in
 interpolate_dynamical_matrices

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 4107675..0f59879 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -2065,7 +2065,7 @@ def interpolate_dynamical_matrices(D, q, nq, fildyn_template, fildyn, flfrc,
             D[:, group(na), :] *= np.sqrt(amass[na])
             D[:, :, group(na)] *= np.sqrt(amass[na])
 
-    sizes, bounds = MPI.distribute(len(q), bounds=True)
+    sizes, bounds = elphmod.MPI.distribute(len(q), bounds=True)
 
     for iq in range(*bounds[comm.rank:comm.rank + 2]):
         fildynq = fildyn + str(iq + 1)
-- 
2.43.0


From 75591b697362fb8f9648c1a1e7990e80b12200b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 19/33] fix: Find all images in shifted Voronoi cell

---
 elphmod/bravais.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 6c674df..17fb3a7 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1060,14 +1060,11 @@ def to_Voronoi(k1, k2, nk, angle=60, dk1=0, dk2=0, epsilon=0.0):
     set
         All equivalent point within or on the edge of the Voronoi cell.
     """
-    k1 %= nk
-    k2 %= nk
+    k1 -= nk * int((k1 - dk1) // nk)
+    k2 -= nk * int((k2 - dk2) // nk)
 
     images = [(k1, k2), (k1 - nk, k2), (k1, k2 - nk), (k1 - nk, k2 - nk)]
 
-    if nk < 3:
-        images.extend([(k1 + nk, k2), (k1, k2 + nk), (k1 + nk, k2 + nk)])
-
     distances = [squared_distance(k1 - dk1, k2 - dk2, angle=angle)
         for k1, k2 in images]
     minimum = min(distances)
-- 
2.43.0


From 0a8c827f4be19418b402d2cb32914fa76ef7305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:56 +0000
Subject: [PATCH 20/33] fix: Handle exclamation marks and quotes in quoted
 strings of namelists

---
 elphmod/misc.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index d7a9a6e..ac0f6ca 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -525,24 +525,21 @@ def read_namelists(filename):
     with open(filename) as data:
         text = data.read()
 
-    # remove comments:
-
-    text = re.sub(r'!.*$', '', text, flags=re.MULTILINE)
-
-    # protect string (which might contain spaces):
+    # remove comments and protect strings (which might contain spaces):
 
     groups = []
 
     def replace(match):
+        if match.group(0).startswith('!'):
+            return ''
+
         groups.append(match.group(0))
         return '___%d___' % len(groups)
 
     def place(match):
         return groups[int(match.group(0).strip('_')) - 1]
 
-    count = 1
-    while count:
-        text, count = re.subn(r'\'[^\'"]*\'|"[^\'"]*"', replace, text)
+    text = re.sub(r'\'[^\'\n]*\'|"[^"\n]*"|!.*', replace, text)
 
     # parse all namelists:
 
@@ -573,9 +570,7 @@ def read_namelists(filename):
                     data[name][key].append(None)
 
             elif key is not None and item != '=':
-                count = 1
-                while count:
-                    item, count = re.subn(r'___\d+___', place, item)
+                item = re.sub(r'___\d+___', place, item)
 
                 if re.match(r'(\'.*\'|".*")$', item):
                     item = item[1:-1]
-- 
2.43.0


From 07a872d96d6742e4a34cbb43c75d2fbe7fb1be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:15 +0000
Subject: [PATCH 21/33] fix: Recognize empty namelists

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index ac0f6ca..cff14e2 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -545,7 +545,7 @@ def read_namelists(filename):
 
     data = dict()
 
-    for namelist in re.finditer(r'&(\w+)(.+?)/', text, flags=re.DOTALL):
+    for namelist in re.finditer(r'&(\w+)(.*?)/', text, flags=re.DOTALL):
         name, content = namelist.groups()
         name = name.lower()
         data[name] = dict()
-- 
2.43.0


From f0cddab59a8b99e3155dc3a17e8268279f3344ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:43 +0000
Subject: [PATCH 22/33] fix: Split expressions with angle brackets and line
 breaks

---
 elphmod/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index cff14e2..35c187e 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -713,7 +713,7 @@ def split(expr, sd=',', od='{', cd='}'):
 
     def pack(match):
         groups.append(match.group(1))
-        return '<%d>' % (len(groups) - 1)
+        return '\0%d\0' % (len(groups) - 1)
 
     expr = od + expr + cd
 
@@ -722,7 +722,7 @@ def split(expr, sd=',', od='{', cd='}'):
         expr, n = re.subn(group, pack, expr)
 
     def factorize(x):
-        match = re.match(r'(.*)<(\d+)>(.*)', x)
+        match = re.match(r'(.*)\0(\d+)\0(.*)', x, flags=re.DOTALL)
 
         if match:
             for y in groups[int(match.group(2))].split(sd):
-- 
2.43.0


From a4678a1639e4f6674c75569fef1b0acca9d04b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 23/33] fix: Add energy of photoexcited electrons to free
 energy

---
 elphmod/md.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elphmod/md.py b/elphmod/md.py
index 318e200..2a6f0f7 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -264,6 +264,10 @@ class Driver:
 
         E = prefactor * (self.f(self.e / self.kT) * self.e).sum() # E - mu N
         E += self.mu * self.n # mu N
+
+        if self.f is elphmod.occupations.two_fermi_dirac:
+            E += 2 * self.kT * self.f.d * self.nx # (muc - muv) Nx
+
         E -= prefactor * self.kT * self.f.entropy(self.e / self.kT).sum() # T S
 
         E += 0.5 * self.u.dot(self.C0[0].real).dot(self.u)
-- 
2.43.0


From af25c46358b2415434ba9186d293d38888f535f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:23 +0000
Subject: [PATCH 24/33] fix: Use separate Fermi-level shifts for photoexcited
 electrons and holes

---
 elphmod/diagrams.py | 12 +++++++++---
 elphmod/md.py       | 19 ++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/elphmod/diagrams.py b/elphmod/diagrams.py
index b81dcf8..1e6f343 100644
--- a/elphmod/diagrams.py
+++ b/elphmod/diagrams.py
@@ -526,10 +526,16 @@ def phonon_self_energy_fermi_shift(e, g, kT=0.025, occupations='fd'):
     x = e / kT
     d = occupations.delta(x) / kT
 
-    dos = d.sum()
-    avg = np.einsum('ijkn,xijknn->x', d, g) / dos
+    def shift(d):
+        dos = d.sum()
+        avg = np.einsum('ijkn,xijknn->x', d, g) / dos
 
-    return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
+        return 2 / nk.prod() * dos * np.outer(avg, avg) # one complex conjugate?
+
+    if occupations is elphmod.occupations.two_fermi_dirac:
+        return shift(d * (x < 0)) + shift(d * (x >= 0))
+
+    return shift(d)
 
 def phonon_self_energy2(q, e, g2, kT=0.025, nmats=1000, hyb_width=1.0,
         hyb_height=0.0, GB=4.0):
diff --git a/elphmod/md.py b/elphmod/md.py
index 2a6f0f7..2d38103 100644
--- a/elphmod/md.py
+++ b/elphmod/md.py
@@ -359,7 +359,10 @@ class Driver:
 
             dfde = np.tile(d, (self.elph.el.size, 1))
             dfde[ok] = df[ok] / de[ok]
-            dos = -d.sum() # = -np.trace(dfde)
+            levels = [slice(None)] # states that share a chemical potential
+
+            if self.f is elphmod.occupations.two_fermi_dirac:
+                levels = [x < 0, x >= 0]
 
             if kT is not None:
                 tmp = d if kT == self.kT else self.f.delta(self.e / kT) / kT
@@ -372,9 +375,14 @@ class Driver:
 
             V = self.U.transpose().copy()
 
-            d_orb = self.U * d[np.newaxis] @ V
-            avg = np.array([self.d0[x].multiply(d_orb).sum()
-                for x in range(self.elph.ph.size)]) / np.sqrt(dos)
+            avg = np.empty((self.elph.ph.size, len(levels)))
+
+            for n, level in enumerate(levels):
+                dos = -d[level].sum()
+                d_orb = self.U[:, level] * d[level][np.newaxis] @ V[level]
+
+                for x in range(self.elph.ph.size):
+                    avg[x, n] = self.d0[x].multiply(d_orb).sum() / np.sqrt(dos)
 
             status = elphmod.misc.StatusBar(self.elph.ph.size,
                 title='calculate static phonon self-energy')
@@ -388,7 +396,8 @@ class Driver:
                 gx = self.U @ (gx * dfde) @ V # overwriting gx to save memory
 
                 for y in range(x, self.elph.ph.size):
-                    C[0, x, y] = self.d0[y].multiply(gx).sum() + avg[x] * avg[y]
+                    C[0, x, y] = self.d0[y].multiply(gx).sum()
+                    C[0, x, y] += avg[x].dot(avg[y])
                     C[0, y, x] = C[0, x, y]
 
                     if kT is not None:
-- 
2.43.0


From d948875b3e2e21abe9465193dfe2458865d6413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 25/33] fix: Write volumetric data in Fortran order

---
 elphmod/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/misc.py b/elphmod/misc.py
index 35c187e..8412f70 100644
--- a/elphmod/misc.py
+++ b/elphmod/misc.py
@@ -464,7 +464,7 @@ def write_xsf(xsf, r0, a, X, tau, data, only_header=False, comm=comm):
                 text.write('%12.7f %11.7f %11.7f\n' % tuple(a[i]))
 
             if not only_header:
-                for i, value in enumerate(data.flat, 1):
+                for i, value in enumerate(data.T.flat, 1):
                     text.write('%13.5e' % value)
 
                     if not i % 6 or i == data.size:
-- 
2.43.0


From bd2d483c42bcb388b916fcf1cc87bf0e69db08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 26/33] fix: Read complete labels of atomic species

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 0f59879..4ca7ec7 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1171,7 +1171,7 @@ def read_flfrc(flfrc):
         for nt in range(ntyp):
             tmp = cells()
 
-            atm.append(tmp[1][1:3])
+            atm.append(tmp[1].strip("'"))
             amass[nt] = float(tmp[-1])
 
         # read types and positions of individual atoms:
-- 
2.43.0


From 4de556aa8ceb304d3621e80cab802261f0082550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:21 +0000
Subject: [PATCH 27/33] fix: Write header of Born effective charges as Quantum
 ESPRESSO

---
 elphmod/ph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/ph.py b/elphmod/ph.py
index 4ca7ec7..b82d9e1 100644
--- a/elphmod/ph.py
+++ b/elphmod/ph.py
@@ -1402,7 +1402,7 @@ def write_flfrc(flfrc, phid, amass, at, tau, atom_order,
                 data.write('\n')
 
             if dyn:
-                data.write('\n     Effective charges\n')
+                data.write('\n     Effective Charges E-U: Z_{alpha}{s,beta}\n')
 
             for na in range(len(zeu)):
                 if dyn:
-- 
2.43.0


From 1430862b28f8a0f3da83dc3e82f038dd718aa674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:35 +0000
Subject: [PATCH 28/33] fix: Read arrays from ASCII files in Python 3

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index bd0a644..b6643c6 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1612,7 +1612,7 @@ def read_data(filename):
     """Read array from ASCII file."""
 
     with open(filename) as text:
-        columns = text.next().split()
+        columns = next(text).split()
         shape = tuple(map(int, columns[:-1]))
         complex_data = {'R': False, 'C': True}[columns[-1]]
 
-- 
2.43.0


From e154ad8a41ceee0a8c71242abdd2ea1c059abc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:51 +0000
Subject: [PATCH 29/33] fix: Write coupling for a single band to XML files

---
 elphmod/elph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elphmod/elph.py b/elphmod/elph.py
index b6643c6..8cf4016 100644
--- a/elphmod/elph.py
+++ b/elphmod/elph.py
@@ -1521,7 +1521,7 @@ def write_xml_files(filename, data, angle=120, angle0=0):
         return
 
     if data.ndim == 4:
-        data = data[:, :, np.newaxis, np.newaxis, :, :]
+        data = data[:, :, :, :, np.newaxis, np.newaxis]
 
     nQ, nmodes, nk, nk, nbands, nbands = data.shape
 
-- 
2.43.0


From 1818eb3a9221b94276cbdfd3b27461a8c5e22d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:08 +0000
Subject: [PATCH 30/33] fix: Write NumPy scalars to input files

---
 elphmod/bravais.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 17fb3a7..78fe84d 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1902,6 +1902,30 @@ def read_pwi(pwi):
 
     return struct
 
+def python_types(struct):
+    """Convert NumPy to Python types, whose representation is valid input.
+
+    Parameters
+    ----------
+    struct : dict
+        Input data.
+
+    Returns
+    -------
+    dict
+        Input data without NumPy scalars and arrays.
+    """
+    def convert(value):
+        if isinstance(value, (np.generic, np.ndarray)):
+            return value.tolist()
+
+        if isinstance(value, (list, tuple)):
+            return [convert(item) for item in value]
+
+        return value
+
+    return {key: convert(value) for key, value in struct.items()}
+
 def write_pwi(pwi, struct):
     """Write crystal structure to PWscf input file.
 
@@ -1915,6 +1939,8 @@ def write_pwi(pwi, struct):
     if comm.rank != 0:
         return
 
+    struct = python_types(struct)
+
     with open(pwi, 'w') as data:
         data.write('&CONTROL\n')
 
@@ -2161,6 +2187,8 @@ def write_win(win, struct):
     if comm.rank != 0:
         return
 
+    struct = python_types(struct)
+
     with open(win, 'w') as data:
         for key in ['num_bands', 'num_wann']:
             if key in struct:
@@ -2255,6 +2283,8 @@ def write_ph(ph, struct):
     if comm.rank != 0:
         return
 
+    struct = python_types(struct)
+
     with open(ph, 'w') as data:
         data.write('&INPUTPH\n')
 
@@ -2311,6 +2341,8 @@ def write_q2r(q2r, struct):
     if comm.rank != 0:
         return
 
+    struct = python_types(struct)
+
     with open(q2r, 'w') as data:
         data.write('&INPUT\n')
 
@@ -2370,6 +2402,8 @@ def write_matdyn(matdyn, struct):
     if comm.rank != 0:
         return
 
+    struct = python_types(struct)
+
     with open(matdyn, 'w') as data:
         data.write('&INPUT\n')
 
@@ -2440,6 +2474,8 @@ def write_epw(epw, struct):
     if comm.rank != 0:
         return
 
+    struct = python_types(struct)
+
     with open(epw, 'w') as data:
         data.write('&INPUTEPW\n')
 
-- 
2.43.0


From f075a64b62f5cb4e967e6e4ab8f644506c2bccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:26 +0000
Subject: [PATCH 31/33] fix: Write starting magnetizations one by one

---
 elphmod/bravais.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 78fe84d..24bc90e 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -1958,6 +1958,12 @@ def write_pwi(pwi, struct):
                 if celldm:
                     data.write('celldm(%d) = %r\n' % (i, celldm))
 
+        if isinstance(struct.get('starting_magnetization'), list):
+            for i, value in enumerate(struct.pop('starting_magnetization'), 1):
+                if value is not None:
+                    data.write('starting_magnetization(%d) = %r\n'
+                        % (i, value))
+
         for key in ['ibrav', 'ntyp', 'nat', 'a', 'b', 'c', 'cosbc', 'cosac',
                 'cosab', 'ecutwfc', 'ecutrho', 'nbnd', 'occupations',
                 'smearing', 'degauss', 'nosym', 'noinv', 'tot_charge',
-- 
2.43.0


From 1c9091527a1372e24786f84c69fe0f39f4f6285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:41 +0000
Subject: [PATCH 32/33] fix: Read matdyn.x input with slashes in filenames

---
 elphmod/bravais.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 24bc90e..6682dfb 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2371,12 +2371,16 @@ def read_matdyn(filename):
     dict
         Input parameters.
     """
+    import re
+
     struct = elphmod.misc.read_input_data(filename, broadcast=False)
 
     if comm.rank == 0:
         with open(filename) as lines:
             for line in lines:
-                if '/' in line:
+                # find end of namelist, skipping strings and comments:
+
+                if '/' in re.sub(r'\'[^\']*\'|"[^"]*"|!.*', '', line):
                     for line in lines:
                         words = line.split()
                         if words:
-- 
2.43.0


From b8bd44f52e8425f20846f3d4330346fffaafb169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:57 +0000
Subject: [PATCH 33/33] fix: Write Wannier90 input that can be read again

---
 elphmod/bravais.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/elphmod/bravais.py b/elphmod/bravais.py
index 6682dfb..c3d182e 100644
--- a/elphmod/bravais.py
+++ b/elphmod/bravais.py
@@ -2060,6 +2060,8 @@ def read_win(win):
     dict
         Crystal structure.
     """
+    import re
+
     if comm.rank == 0:
         struct = dict()
 
@@ -2067,7 +2069,7 @@ def read_win(win):
             for line in lines:
                 words = [word
                     for column in line.split()
-                    for word in column.split('=') if word]
+                    for word in re.split('[=:]', column) if word]
 
                 if not words:
                     continue
@@ -2209,7 +2211,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['proj']:
+        if struct.get('proj'):
             data.write('begin projections\n')
             for key, value in struct['proj'].items():
                 data.write('%s: %s\n' % (key, value))
@@ -2217,7 +2219,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        for key in ['write_hr', 'bands_plot']:
+        for key in ['write_hr', 'bands_plot', 'wannier_plot']:
             if key in struct:
                 data.write('%s = %r\n' % (key, struct[key]))
 
@@ -2229,7 +2231,7 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        if struct['kpoint_path']:
+        if struct.get('kpoint_path'):
             data.write('begin kpoint_path\n')
             for line in struct['kpoint_path']:
                 data.write('%s\n' % line)
@@ -2256,10 +2258,11 @@ def write_win(win, struct):
 
         data.write('\n')
 
-        data.write('begin kpoints\n')
-        for (kx, ky, kz, wk) in struct['kpoints']:
-            data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
-        data.write('end kpoints\n')
+        if 'kpoints' in struct:
+            data.write('begin kpoints\n')
+            for (kx, ky, kz, wk) in struct['kpoints']:
+                data.write('%12.9f %12.9f %12.9f %12.9f\n' % (kx, ky, kz, wk))
+            data.write('end kpoints\n')
 
 def read_ph(filename):
     """Read input parameters from Quantum ESPRESSO's ``ph.x`` input file.
-- 
2.43.0

