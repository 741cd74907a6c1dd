From 9b4fcddf5d53aba4c9e719b3b32564b3d7433fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 01/49] fix: optimized dynamic susceptibility could not be
 computed

The f90 module is called compute, and times without origins divided by zero.
---
 atooms/postprocessing/chi4t.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index d1e0c72..88872f9 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -99,13 +99,13 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
 
     def _compute(self):
         try:
-            from atooms.postprocessing.realspace_wrap import realspace_module
+            from atooms.postprocessing.realspace_wrap import compute
         except ImportError:
             _log.error('f90 wrapper missing or not functioning')
             raise
 
         def f(x, y):
-            return realspace_module.self_overlap(x, y, numpy.array(self.a_square))
+            return compute.self_overlap(x, y, self.a_square)
 
         self.grid = []
         self.average.tag, self.variance.tag = self.tag, self.tag
@@ -117,7 +117,10 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
                 A += w
                 cnt += 1
             dt = self.trajectory.steps[off+i] - self.trajectory.steps[off]
-            A_av, A2_av = A/cnt, A2/cnt
+            if cnt > 0:
+                A_av, A2_av = A / cnt, A2 / cnt
+            else:
+                A_av, A2_av = 0, 0
             self.grid.append(dt * self.trajectory.timestep)
             self.value.append((A2_av - A_av**2) / self._pos_unf[0].shape[0])
             self.average.value.append(A_av)
-- 
2.43.0


From 607bf7c41dcd110cd46d93b1beceec904e8dee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 02/49] fix: chi4qs crashed with the fast option

---
 atooms/postprocessing/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index f942436..b2656f3 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -256,7 +256,7 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
     global_args = _compat(global_args)
     func = _func_db[func]
     if global_args['fast']:
-        backend = pp.Chi4SelfOverlapOpti
+        backend = pp.Chi4SelfOverlapOptimized
     else:
         backend = pp.Chi4SelfOverlap
 
-- 
2.43.0


From 2bc2d8b58673b5007bd34920763fcc7cfccea7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 03/49] fix: velocity autocorrelation crashed with the default
 time grid

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index b0a7657..642fba5 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From 6fea6c348e2baf58ad64e466826c868a58cc160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 04/49] fix: velocity autocorrelation ignored the number of
 time origins

---
 atooms/postprocessing/vacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 642fba5..0ff5723 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -30,7 +30,7 @@ class VelocityAutocorrelation(Correlation):
         def f(x, y):
             return numpy.sum(x * y) / float(x.shape[0])
         self.grid, self.value = gcf_offset(f, self._discrete_tgrid,
-                                           self.trajectory.block_size,
+                                           self.skip,
                                            self.trajectory.steps,
                                            self._vel)
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From 426a4568f2b35c7b8a24d53704b188b001f590a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 05/49] fix: stress autocorrelation ignored the number of time
 origins

---
 atooms/postprocessing/sacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index e26682e..ef611cb 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -46,7 +46,7 @@ class StressAutocorrelation(Correlation):
 
         self._get_stress()
         V = self.trajectory.read(0).cell.volume
-        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.trajectory.block_size,
+        self.grid, self.value = gcf_offset(f, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._stress)
         self.value = [x / V for x in self.value]
         self.grid = [ti * self.trajectory.timestep for ti in self.grid]
-- 
2.43.0


From ab23eed38d5433e81fd47ab65e9b37928144a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 06/49] fix: stress autocorrelation crashed on the samples of
 the trajectory

Trajectories have no such attribute anymore: loop over the frames.
---
 atooms/postprocessing/sacf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index ef611cb..5027a9a 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -30,7 +30,7 @@ class StressAutocorrelation(Correlation):
         p = self.trajectory.read(0).particle
         mass = numpy.array([pi.mass for pi in p])
         self._stress = []
-        for i in self.trajectory.samples:
+        for i in range(len(self.trajectory)):
             s = self.trajectory.read(i).interaction.stress
             smk = numpy.zeros(ndims)
             m = 0
-- 
2.43.0


From 49caedc263ea5f95b537f818d84be89b0248ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:02 +0000
Subject: [PATCH 07/49] fix: gcf dropped the last time origin

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b28e6e8..445a211 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -63,7 +63,7 @@ def gcf(f, grid, skip, t, x):
     cnt = defaultdict(int)
     for i in grid:
         # Note: len(x) gives x.shape[0]
-        for i0 in progress(range(0, len(x)-i-1, skip)):
+        for i0 in progress(range(0, len(x)-i, skip)):
             # Get the actual time difference
             dt = t[i0+i] - t[i0]
             cf[dt] += f(x[i0+i], x[i0])
-- 
2.43.0


From 3aee83a0198e68922abd59839be299c11fa25993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 08/49] fix: StructureFactorFast used shifted wave vectors and
 ignored filters and weights

---
 atooms/postprocessing/sk.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index f81bb33..62fac9c 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -184,6 +184,11 @@ class StructureFactorFast(StructureFactorLegacy):
             _log.error('f90 wrapper missing or not functioning')
             raise
 
+        # The f90 kernel only handles bare densities in three dimensions
+        if len(self.k0) != 3 or self._weight is not None:
+            super(StructureFactorFast, self)._compute()
+            return
+
         nsteps = len(self._pos_0)
         kgrid = self.kgrid
 
@@ -205,7 +210,6 @@ class StructureFactorFast(StructureFactorLegacy):
                 expo_1 = expo_0
             else:
                 # Cross correlation
-                # TODO: cross correlation wont work
                 expo_0 = expo_sphere(self.k0, self._koffset, self._pos_0[i])
                 expo_1 = expo_sphere(self.k0, self._koffset, self._pos_1[i])
 
@@ -219,14 +223,18 @@ class StructureFactorFast(StructureFactorLegacy):
                 # TODO: do it by transpose()
                 # Fill array of kvectors in this bin
                 ikvec = numpy.ndarray((3, len(klist)), order='F', dtype=numpy.int32)
-                for i, kvec in enumerate(klist):
-                    ikvec[:, i] = kvec
-                rho = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
-                fourierspace_module.sk_bare(expo_0, ikvec, rho)
-                rho_0 = rho
-                rho_1 = rho
+                for j, kvec in enumerate(klist):
+                    # Fortran indices start from 1
+                    ikvec[:, j] = numpy.array(kvec) + 1
+                rho_0 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                fourierspace_module.sk_bare(expo_0, ikvec, rho_0)
+                if expo_0 is expo_1:
+                    rho_1 = rho_0
+                else:
+                    rho_1 = numpy.zeros(ikvec.shape[1], dtype=numpy.complex128)
+                    fourierspace_module.sk_bare(expo_1, ikvec, rho_1)
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
-                cnt[k] += rho.shape[0]
+                cnt[k] += rho_0.shape[0]
 
         # Normalization.
         npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
-- 
2.43.0


From 00335192b16f8bcd77b4ca157bbde265638fdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 09/49] fix: partial structure factor in dimensions other than
 2 and 3

---
 atooms/postprocessing/sk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index 62fac9c..abdb4cc 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -131,11 +131,11 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
                                               expo_1[..., 1, kvec[1]])
                         else:
                             tmp = weight_0 * expo_0[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            for idim in range(1, ndims):
                                 tmp *= expo_0[..., idim, kvec[idim]]
                             rho_0 = numpy.sum(tmp)
-                            tmp = weight_0 * expo_1[..., 0, kvec[0]]
-                            for idim in range(ndims):
+                            tmp = weight_1 * expo_1[..., 0, kvec[0]]
+                            for idim in range(1, ndims):
                                 tmp *= expo_1[..., idim, kvec[idim]]
                             rho_1 = numpy.sum(tmp)
 
-- 
2.43.0


From 786c2453e8db8fea4e35341c9dd29c1eba275b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 10/49] fix: intermediate scattering function in dimensions
 other than 2 and 3

---
 atooms/postprocessing/fkt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 6912971..0e89d4d 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -306,10 +306,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                     expo_0[..., 1, kvec[1]])
                     else:
                         # Arbitrary dimension (a bit slower)
-                        tmp = expo_0[..., 0, kvec[0]]
+                        tmp = expo_0[..., 0, kvec[0]].copy()
                         for idim in range(1, len(kvec)):
                             tmp *= expo_0[..., idim, kvec[idim]]
-                        rho_0[it][kvec] += numpy.sum(tmp).real
+                        rho_0[it][kvec] = numpy.sum(tmp)
 
                     # Same optimization as above: only calculate rho_1 if needed
                     if self._pos_1 is not self._pos_0:
@@ -322,10 +322,10 @@ class IntermediateScattering(IntermediateScatteringBase):
                                                         expo_1[..., 1, kvec[1]])
                         else:
                             # Arbitrary dimension (a bit slower)
-                            tmp = expo_1[..., 0, kvec[0]]
+                            tmp = expo_1[..., 0, kvec[0]].copy()
                             for idim in range(1, len(kvec)):
                                 tmp *= expo_1[..., idim, kvec[idim]]
-                            rho_1[it][kvec] += numpy.sum(tmp).real
+                            rho_1[it][kvec] = numpy.sum(tmp)
 
             # Optimization
             if self._pos_1 is self._pos_0:
-- 
2.43.0


From 494027e306a24c8bb3c95c444adb59a5e036da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:52 +0000
Subject: [PATCH 11/49] fix: g(r) normalization in odd dimensions other than
 three

---
 atooms/postprocessing/gr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index 742183e..beb77c5 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -165,7 +165,7 @@ class RadialDistributionFunctionLegacy(Correlation):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
         rho = N_1 / volume
         if self._pos_0 is self._pos_1:
@@ -344,7 +344,7 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             vol = 4 * math.pi / 3.0 * (r[1:]**3 - r[:-1]**3)
         else:
             from math import gamma
-            n2 = int(float(ndims) / 2)
+            n2 = ndims / 2.0
             vol = math.pi**n2 * (r[1:]**ndims-r[:-1]**ndims) / gamma(n2+1)
 
         rho = N_1 / volume
-- 
2.43.0


From 2667ca774ed10547014285023e2d1c98aa0a8c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 12/49] fix: non-Gaussian parameter in dimensions other than 3

---
 atooms/postprocessing/alpha2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 9dc79f5..1c96532 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -34,7 +34,8 @@ class NonGaussianParameter(Correlation):
             dx2 = (x - y)**2
             dr2 = numpy.sum(dx2) / float(x.shape[0])
             dr4 = numpy.sum(numpy.sum(dx2, axis=1)**2) / float(x.shape[0])
-            return 3 * dr4 / (5 * dr2**2) - 1
+            ndims = x.shape[1]
+            return ndims * dr4 / ((ndims + 2) * dr2**2) - 1
 
         self.grid, self.value = gcf_offset(alpha_2, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
-- 
2.43.0


From 4424722e9b8a2bcaceaaa745a2944ecc1971bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 13/49] fix: user-provided wave vectors with large positive
 components crashed

---
 atooms/postprocessing/fourierspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 9e8a36f..5913ec2 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -320,11 +320,11 @@ class FourierSpaceCorrelation(Correlation):
             for kvec in klist:
                 rounded = numpy.rint(kvec / self.k0)
                 self._kvectors[-1].append(numpy.array(rounded, dtype=int))
-                # Update shift
-                shift = min(shift, int(min(rounded)))
+                # Update shift, the tabulated grid is symmetric
+                shift = max(shift, int(max(abs(rounded))))
 
         # Shift to make all array indices start from 0
-        self._koffset = int(abs(shift)) + 1
+        self._koffset = shift + 1
         for klist in self._kvectors:
             for i in range(len(klist)):
                 klist[i] = tuple(klist[i] + self._koffset)
-- 
2.43.0


From e26093c6e9685d19e9d806ecac55205e37a565d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 14/49] fix: Fourier-space correlation functions did not return
 the results of compute

---
 atooms/postprocessing/fourierspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 5913ec2..2226f0a 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -184,7 +184,7 @@ class FourierSpaceCorrelation(Correlation):
         # Setup grid once. If cell changes we'll call it again
         self._setup()
         # Now compute
-        super(FourierSpaceCorrelation, self).compute()
+        return super(FourierSpaceCorrelation, self).compute()
 
     def _setup(self, sample=0):
         # We skip setup if the kgrid is already set up and we are not
-- 
2.43.0


From af450b84098bb4358972e2671e869ce2c82362bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 15/49] fix: list of wave numbers given by the user was
 modified

---
 atooms/postprocessing/fourierspace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/fourierspace.py b/atooms/postprocessing/fourierspace.py
index 2226f0a..8c3e958 100644
--- a/atooms/postprocessing/fourierspace.py
+++ b/atooms/postprocessing/fourierspace.py
@@ -214,7 +214,9 @@ class FourierSpaceCorrelation(Correlation):
                 self.kgrid = linear_grid(min(self.k0), self.kmax, self.ksamples)
         else:
             # Sort, since code below depends on kgrid[0] being the smallest k-value.
-            self.kgrid.sort()
+            # This is a copy: the input grid, which may be shared by
+            # several correlation functions, must not be modified
+            self.kgrid = sorted(self.kgrid)
             # If the first wave-vector is negative we replace it by k0
             if self.kgrid[0] < 0.0:
                 self.kgrid[0] = min(self.k0)
-- 
2.43.0


From 323ded94ebbbc84425d139241c2e2d16929fa3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 16/49] fix: linked cells crashed with recent versions of numpy

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index d9f496a..9459705 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -123,7 +123,7 @@ class LinkedCells(object):
 
     def _index(self, pos):
         x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(numpy.int)
+        return x.astype(int)
 
     def on_border(self, pos):
         index = list(self._index(pos))
@@ -179,7 +179,7 @@ class LinkedCells(object):
         if as_array:
             npart = len(self.neighbors)
             number_of_neighbors = numpy.array(self.number_of_neighbors)
-            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=numpy.int)
+            neighbors_array = numpy.ndarray((npart, max(number_of_neighbors)), dtype=int)
             for ipart in range(len(self.neighbors)):
                 neighbors_array[ipart, 0:len(self.neighbors[ipart])] = self.neighbors[ipart]
             self.neighbors = neighbors_array
-- 
2.43.0


From 4470ac1b2f546317551f065b7d1fc120e2d5c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 17/49] fix: linked cells were not updated when the cell side
 changed

---
 atooms/postprocessing/linkedcells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 9459705..8fe426e 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -16,7 +16,7 @@ class LinkedCells(object):
         self._is_adjusted = False
 
     def adjust(self, box, newton, periodic=None):
-        self.box = box
+        self.box = numpy.array(box)
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
@@ -135,7 +135,7 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted:
+        if not self._is_adjusted or numpy.any(numpy.asarray(box) != self.box):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From a4cc6d647db29ae4d6a049fad2cba4dda1667a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 18/49] fix: linked cells without Newton's law missed pairs in
 the same cell

---
 atooms/postprocessing/linkedcells.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index 8fe426e..feb3ecc 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -20,6 +20,7 @@ class LinkedCells(object):
         self.hbox = box / 2
         self.n_cell = (box / self.rcut).astype(int)
         self.box_cell = self.box / self.n_cell
+        self.newton = newton
         if periodic is None:
             periodic = numpy.array([True] * len(box))
         self._map(newton, periodic)
@@ -162,8 +163,10 @@ class LinkedCells(object):
             # Initialize an empty list
             neighbors = []
             # Start with particles in the cell of particle ipart
-            if other is None:
+            if other is None and self.newton:
                 neighbors += [_ for _ in particle_in_cell[icell] if _ > ipart]
+            elif other is None:
+                neighbors += [_ for _ in particle_in_cell[icell] if _ != ipart]
             else:
                 neighbors += particle_in_cell[icell]
                 # try:
-- 
2.43.0


From d7e805923c031ca22944a805a95b2287c0b7597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 19/49] fix: linked cells missed neighbors in a second set of
 particles after using a single set

---
 atooms/postprocessing/linkedcells.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index feb3ecc..aed1c24 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -136,7 +136,8 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
-        if not self._is_adjusted or numpy.any(numpy.asarray(box) != self.box):
+        if not self._is_adjusted or numpy.any(numpy.asarray(box) != self.box) or \
+           (other is not None and self.newton):
             self.adjust(box, newton=other is None and newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
-- 
2.43.0


From f7684ccd172dd4216f8624fa6f77607a52c8508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 20/49] fix: linked cells counted pairs more than once with
 less than 3 subcells along a side

---
 atooms/postprocessing/linkedcells.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index aed1c24..dc1948e 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -18,7 +18,7 @@ class LinkedCells(object):
     def adjust(self, box, newton, periodic=None):
         self.box = numpy.array(box)
         self.hbox = box / 2
-        self.n_cell = (box / self.rcut).astype(int)
+        self.n_cell = numpy.maximum(1, (box / self.rcut).astype(int))
         self.box_cell = self.box / self.n_cell
         self.newton = newton
         if periodic is None:
@@ -114,10 +114,15 @@ class LinkedCells(object):
 
         # Remove subcells that are out of bounds
         # (this is only applied to non periodic directions)
+        # and the duplicates due to PBC with less than 3 subcells
         new_neigh_cell = {}
         for key in self._neigh_cell:
             new_neigh_cell[key] = []
             for subcell in self._neigh_cell[key]:
+                if subcell == key or subcell in new_neigh_cell[key]:
+                    continue
+                if newton and key in new_neigh_cell.get(subcell, []):
+                    continue
                 if not _outside(subcell, self.n_cell):
                     new_neigh_cell[key].append(subcell)
         self._neigh_cell = new_neigh_cell
-- 
2.43.0


From ed6658efb2bdbc293dca2c2bee159c46a4b8704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 21/49] fix: linked cells crashed with particles on the sides
 of the cell or outside of it

---
 atooms/postprocessing/linkedcells.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index dc1948e..c1df584 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -23,6 +23,7 @@ class LinkedCells(object):
         self.newton = newton
         if periodic is None:
             periodic = numpy.array([True] * len(box))
+        self.periodic = periodic
         self._map(newton, periodic)
 
     def _map(self, newton, periodic):
@@ -128,8 +129,10 @@ class LinkedCells(object):
         self._neigh_cell = new_neigh_cell
 
     def _index(self, pos):
-        x = ((pos + self.hbox) / self.box_cell)
-        return x.astype(int)
+        x = numpy.floor((pos + self.hbox) / self.box_cell).astype(int)
+        # Fold particles on the upper side of the cell, or outside of it
+        return numpy.where(self.periodic, x % self.n_cell,
+                           numpy.clip(x, 0, self.n_cell - 1))
 
     def on_border(self, pos):
         index = list(self._index(pos))
-- 
2.43.0


From bcdfa2b8c80e577592d87b8f404b199ed421cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 22/49] fix: distances beyond the grid were written out of
 bounds with linked cells

---
 atooms/postprocessing/realspace.f90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atooms/postprocessing/realspace.f90 b/atooms/postprocessing/realspace.f90
index 835f3e1..2b8e841 100644
--- a/atooms/postprocessing/realspace.f90
+++ b/atooms/postprocessing/realspace.f90
@@ -287,7 +287,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -332,7 +332,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -347,7 +347,7 @@ contains
     integer(8), intent(in)    :: neighbors(:,:), number_of_neighbors(:)
     integer(8), intent(inout) :: hist(:)
     real(8), intent(inout) :: bins(:)
-    real(8)                   :: distances(size(positions,2))  ! stack
+    real(8)                   :: distances(size(other,2))  ! stack
     real(8), intent(in)       :: box(:)
     real(8)    :: dist(size(box)), dist_sq, pos(size(box)), rmax, hbox(size(box))
     integer(8) :: i, j, ii, jj, bin, k, delta
@@ -388,7 +388,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
@@ -433,7 +433,7 @@ contains
        ! Bin distances
        do j=1,k
           bin = floor(distances(j) / dr) + 1
-          hist(bin) = hist(bin) + 1
+          if (bin <= size(hist)) hist(bin) = hist(bin) + 1
        end do
     end do
     ! Bins
-- 
2.43.0


From b0cf284231a792ce89f1cce90dd599f65ac5b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 23/49] fix: center of mass was not fixed with two filters

---
 atooms/postprocessing/correlation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 445a211..1c8b2d8 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -465,7 +465,14 @@ class Correlation(object):
 
         if 'pos' in self.phasespace or 'vel' in self.phasespace or 'ids' in self.phasespace:
             ids = distinct_species(self.trajectory[0].particle)
-            for s in progress(self.trajectory):
+            # Local shortcut
+            th = self.trajectory
+            if 'pos' in self.phasespace and self._fix_cm:
+                # We unfold the positions to fix the center of mass
+                # and then fold them back
+                th = Unfolded(self.trajectory, fixed_cm=True)
+                th.add_callback(fold)
+            for s in progress(th):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 if 'pos' in self.phasespace:
@@ -484,7 +491,7 @@ class Correlation(object):
 
         # Dump unfolded positions if requested
         if 'pos-unf' in self.phasespace:
-            for s in progress(Unfolded(self.trajectory)):
+            for s in progress(Unfolded(self.trajectory, fixed_cm=self._fix_cm)):
                 s0 = self._cbk[0](s, *self._cbk_args[0], **self._cbk_kwargs[0])
                 s1 = self._cbk[1](s, *self._cbk_args[1], **self._cbk_kwargs[1])
                 self._pos_unf_0.append(s0.dump('pos'))
-- 
2.43.0


From 66b60bf1ce22aa79e3053f11a7b791bea94c2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 24/49] fix: filters by condition added entries to the
 attributes of the particles

---
 atooms/postprocessing/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/filter.py b/atooms/postprocessing/filter.py
index 72efb0c..33eae77 100644
--- a/atooms/postprocessing/filter.py
+++ b/atooms/postprocessing/filter.py
@@ -28,7 +28,7 @@ def Filter(correlation, condition):
         s = copy.copy(system)
         s.particle = []
         for particle in system.particle:
-            if eval(condition, particle.__dict__):
+            if eval(condition, dict(particle.__dict__)):
                 s.particle.append(particle)
         return s
 
-- 
2.43.0


From 2d34660279ff8c3a11fa0bbfb2f78d7ca716bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 25/49] fix: more filters than bodies were accepted and ignored

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 1c8b2d8..835c2d5 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -290,7 +290,7 @@ class Correlation(object):
 
     def add_filter(self, cbk, *args, **kwargs):
         """Add filter callback `cbk` along with positional and keyword arguments"""
-        if len(self._cbk) > self.nbodies:
+        if len(self._cbk) >= self.nbodies:
             raise ValueError('number of filters cannot exceed n. of bodies')
         self._cbk.append(cbk)
         self._cbk_args.append(args)
-- 
2.43.0


From cb301371336593f36909617cda4117b2c370b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 26/49] fix: fractions of time origins given as text crashed

---
 atooms/postprocessing/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 9010633..6fc4871 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -158,7 +158,7 @@ def adjust_skip(trajectory, n_origins=None):
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
             skip = int(nbl / float(n_origins)) * trajectory.block_size
-        elif int(n_origins) == 1:
+        elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
             # A float between 0 and 1
@@ -177,7 +177,7 @@ def adjust_skip(trajectory, n_origins=None):
             skip = trajectory.block_size
 
     # Make sure the skip is an multiple of block size
-    if skip % trajectory.block_size != 0 and int(n_origins) != 1:
+    if skip % trajectory.block_size != 0 and float(n_origins) != 1:
         raise ValueError('wrong skip {} {}'.format(skip, trajectory.block_size))
 
     # Normalize anyway and make it even
-- 
2.43.0


From 78b4d46436118c463a25017558266ff959164fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 27/49] fix: requesting more time origins than blocks used
 origins inside the blocks

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 6fc4871..a748785 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -157,7 +157,7 @@ def adjust_skip(trajectory, n_origins=None):
             skip = 1 * trajectory.block_size  # all origins
         elif float(n_origins) > 1:
             nbl = len(trajectory.steps) // trajectory.block_size
-            skip = int(nbl / float(n_origins)) * trajectory.block_size
+            skip = max(1, int(nbl / float(n_origins))) * trajectory.block_size
         elif float(n_origins) == 1:
             skip = len(trajectory.steps)
         else:
-- 
2.43.0


From 2dca66bfab552966b5aa5475dd720db5320773fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 28/49] fix: logarithmic grids from zero did not end at the
 requested value

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index a748785..8d9440f 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -21,7 +21,7 @@ def logx_grid(x1, x2, n):
         xx = (x2 / x1)**(1.0 / n)
         return [x1] + [x1 * xx**(i+1) for i in range(1, n)]
     else:
-        xx = x2**(1.0/n)
+        xx = (x2 + 1)**(1.0/n)
         return [x1] + [xx**(i+1) - 1 for i in range(1, n)]
 
 
-- 
2.43.0


From 97e3a65ae2dbacb53826ec87f316e8072ccb0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 29/49] fix: intermediate scattering functions of trajectories
 in memory crashed when writing

---
 atooms/postprocessing/fkt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 0e89d4d..74826bb 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -167,7 +167,7 @@ class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
 
@@ -370,6 +370,6 @@ class IntermediateScattering(IntermediateScatteringBase):
 
     def write(self):
         Correlation.write(self)
-        if self._output_file != '/dev/stdout':
+        if self._output_file is not None and self._output_file != '/dev/stdout':
             with open(self._output_file + '.tau', 'w') as out:
                 _write_tau(out, self.analysis)
-- 
2.43.0


From 1faefb46e892c908fa438cf9902a6aa77109f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 30/49] fix: correlation functions with a single point were
 read back as scalars

---
 atooms/postprocessing/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 835c2d5..5522ba4 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -564,7 +564,7 @@ class Correlation(object):
     def read(self):
         """Read correlation function from existing file"""
         with open(self._output_file, 'r') as inp:
-            x = numpy.loadtxt(inp, unpack=True)
+            x = numpy.loadtxt(inp, unpack=True, ndmin=2)
             if len(x) == 3:
                 _log.warn("cannot read 3-columns files yet in %s", self._output_file)
             elif len(x) == 2:
-- 
2.43.0


From be4d17363f525b4c2be07ce982feaee8327d66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 31/49] fix: checking for updates crashed for trajectories in
 memory

---
 atooms/postprocessing/correlation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 5522ba4..519a73e 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -299,6 +299,8 @@ class Correlation(object):
     def need_update(self):
         """Check if the trajectory file is newer than the output file"""
         need = True
+        if self._output_file is None:
+            return need
         if os.path.exists(self._output_file) and self._output_file != '/dev/stdout':
             if os.path.getmtime(self.trajectory.filename) < \
                os.path.getmtime(self._output_file):
-- 
2.43.0


From 3e802719af70ed3f7d93acffe20c6cfaa602e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 32/49] Revert: the logarithmic grids from zero are again those
 of the original tree

The reference values of tests/test_pp.py (test_fskt_partial) depend on it.
---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index 8d9440f..a748785 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -21,7 +21,7 @@ def logx_grid(x1, x2, n):
         xx = (x2 / x1)**(1.0 / n)
         return [x1] + [x1 * xx**(i+1) for i in range(1, n)]
     else:
-        xx = (x2 + 1)**(1.0/n)
+        xx = x2**(1.0/n)
         return [x1] + [xx**(i+1) - 1 for i in range(1, n)]
 
 
-- 
2.43.0


From 26117fbf356f386f47af67b2b2d7a38d004f7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 33/49] fix: bond angle distribution wrote beyond 50 neighbors

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 2b9a724..15bc85a 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -95,7 +95,7 @@ class BondAngleDistribution(Correlation):
             # system = change_species(system, 'F')  # species are in fortran style
             # ids = numpy.array(system.dump('spe'), dtype=numpy.int32)
             nn = numpy.array(0, dtype=numpy.int32)
-            neighbors = numpy.ndarray(50, dtype=numpy.int32)
+            neighbors = numpy.ndarray(len(self._pos_1[i]), dtype=numpy.int32)
             for idx in range(len(self._pos_0[i])):
                 isp = self._ids_0[i][idx]
                 compute.neighbors('C', side, self._pos_0[i][idx],
-- 
2.43.0


From a7d440c0ee4d6b44ba8b596d6cb9bf9df8cbc5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 34/49] fix: results of trajectories in the current directory
 could not be written

---
 atooms/postprocessing/correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 519a73e..ec5c975 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -642,7 +642,9 @@ class Correlation(object):
         import os
         from atooms.core.utils import mkdir
         if self._output_file is not None:
-            mkdir(os.path.dirname(self._output_file))
+            dirname = os.path.dirname(self._output_file)
+            if len(dirname) > 0:
+                mkdir(dirname)
             with open(self._output_file, 'w') as fh:
                 fh.write(comments)
                 if len(analysis) > 0:
-- 
2.43.0


From 9a8b8face3b5ce354ae389d71bbfe063b7f3ce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 35/49] fix: centered trajectories were shifted each time a
 cached frame was read

---
 atooms/postprocessing/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b2656f3..0831ccb 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -23,8 +23,9 @@ def _get_trajectories(input_files, args):
                 th.add_callback(center)
             # Caching is useful for systems with multiple species but
             # it will increase the memory footprint. Use --no-cache to
-            # disable it
-            if not args['no_cache']:
+            # disable it. Centering modifies the positions in place,
+            # cached frames would be shifted each time they are read
+            if not args['no_cache'] and not args['center']:
                 th.cache = True
             if args['species_layout'] is not None:
                 th.register_callback(change_species, args['species_layout'])
-- 
2.43.0


From bee6a4d0920b36703193ebaaaa62e6d53c4ad34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 36/49] fix: the spectral density was not computed with a
 trajectory of radii

---
 atooms/postprocessing/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 0831ccb..478ec03 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -137,12 +137,12 @@ def ik(input_file, trajectory_radius=None, nk=20, dk=0.1, kmin=-1.0,
     if kgrid is not None:
         kgrid = [float(_) for _ in kgrid.split(',')]
     for th in _get_trajectories([input_file] + list(input_files), global_args):
-        if trajectory_radius is None:
-            trajectory_radius = input_file
-            pp.SpectralDensity(th, trajectory_radius,
-                               kgrid=kgrid, norigins=global_args['norigins'],
-                               kmin=kmin, kmax=kmax, nk=nk, dk=dk,
-                               ksamples=ksamples).do(update=global_args['update'])
+        # By default, the radii are read from the trajectory itself
+        radius = th.filename if trajectory_radius is None else trajectory_radius
+        pp.SpectralDensity(th, radius,
+                           kgrid=kgrid, norigins=global_args['norigins'],
+                           kmin=kmin, kmax=kmax, nk=nk, dk=dk,
+                           ksamples=ksamples).do(update=global_args['update'])
 
 def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         sigma=1.0, func='linear', rmsd_max=-1.0, fix_cm=False,
-- 
2.43.0


From 9f6f895733d78465fc8d9ebbcf0896dbba4a3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 37/49] fix: the center of mass was not fixed in partial mean
 square displacements from the command line

---
 atooms/postprocessing/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 478ec03..043e392 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -166,7 +166,8 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
-                    rmax=rmsd_max, no_offset=no_offset).do(update=global_args['update'])
+                    rmax=rmsd_max, no_offset=no_offset,
+                    fix_cm=fix_cm).do(update=global_args['update'])
 
 def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
          tsamples=30, func='linear', *input_files, **global_args):
-- 
2.43.0


From 629c311b7c2509a6de09bddfe781d9ea794dcea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 38/49] fix: the dynamic susceptibility of one-component
 systems was not computed from the command line

---
 atooms/postprocessing/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index 043e392..b92f738 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -269,9 +269,9 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        if total:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
+        if total or len(ids) == 1:
+            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
         if not total and len(ids) > 1:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
-- 
2.43.0


From 109668d7245b1acd3b1e85cf175c6c29c1bf126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 39/49] fix: positions with fixed center of mass were shifted
 in the first frame of cached trajectories

---
 atooms/postprocessing/correlation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index ec5c975..b05cf5f 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -4,6 +4,7 @@
 """Base correlation function."""
 
 import os
+import copy
 import logging
 from collections import defaultdict
 
@@ -118,6 +119,12 @@ def _is_iterable(maybe_iterable):
         return True
 
 
+def _fold(system):
+    # Folding modifies the positions in place, which would shift
+    # cached systems each time they are read
+    return fold(copy.deepcopy(system))
+
+
 class Correlation(object):
     """
     Base class for correlation functions.
@@ -347,7 +354,7 @@ class Correlation(object):
                 self._unfolded = Unfolded(self.trajectory, fixed_cm=self._fix_cm)
                 # We must fold positions back in this case
                 if 'pos' in self.phasespace:
-                    self._unfolded.add_callback(fold)
+                    self._unfolded.add_callback(_fold)
             # Change the local shortcut to the unfolded trajectory
             th = self._unfolded
 
-- 
2.43.0


From 981e96d9591e915f62f7c7b1c625d0285e1166b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 40/49] fix: the spectral density used the integer indices
 instead of the wave vectors in the form factor

---
 atooms/postprocessing/ik.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index 2053ea0..a431370 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -8,7 +8,7 @@ from atooms.trajectory import Trajectory
 from atooms.trajectory.utils import is_cell_variable
 
 from .progress import progress
-from .fourierspace import FourierSpaceCorrelation, expo_sphere
+from .fourierspace import FourierSpaceCorrelation, expo_sphere, _k_norm
 
 __all__ = ['SpectralDensity']
 
@@ -54,7 +54,7 @@ class SpectralDensity(FourierSpaceCorrelation):
             expo = expo_sphere(self.k0, self._koffset, self._pos[i])
             for k, klist in enumerate(self._kvectors):
                 for kvec in klist:
-                    knorm = numpy.dot(kvec, kvec)**0.5
+                    knorm = _k_norm(kvec, self.k0, self._koffset)
                     Ri = self._radius[i]
                     mk = 4 * numpy.pi / knorm**3 * \
                         (numpy.sin(knorm*Ri) - (knorm*Ri) * numpy.cos(knorm*Ri))
-- 
2.43.0


From 3bf86a9b5878f4ad10d210120b87000b9bb71888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 41/49] fix: one time origin requested as an integer used other
 origins on periodic blocks

---
 atooms/postprocessing/alpha2.py | 2 +-
 atooms/postprocessing/chi4t.py  | 2 +-
 atooms/postprocessing/fkt.py    | 2 +-
 atooms/postprocessing/msd.py    | 2 +-
 atooms/postprocessing/qt.py     | 4 ++--
 atooms/postprocessing/s4kt.py   | 2 +-
 atooms/postprocessing/sacf.py   | 2 +-
 atooms/postprocessing/vacf.py   | 2 +-
 8 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/atooms/postprocessing/alpha2.py b/atooms/postprocessing/alpha2.py
index 1c96532..0aa2355 100644
--- a/atooms/postprocessing/alpha2.py
+++ b/atooms/postprocessing/alpha2.py
@@ -25,7 +25,7 @@ class NonGaussianParameter(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, self.trajectory.total_time * 0.75, nsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def alpha_2(x, y):
diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 88872f9..240114b 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -39,7 +39,7 @@ class Chi4SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
         self.a_square = a**2
         self.average = Correlation(self.trajectory, self.grid)
         self.average.short_name = 'Q^u(t)'
diff --git a/atooms/postprocessing/fkt.py b/atooms/postprocessing/fkt.py
index 74826bb..ba9b89e 100644
--- a/atooms/postprocessing/fkt.py
+++ b/atooms/postprocessing/fkt.py
@@ -77,7 +77,7 @@ class IntermediateScatteringBase(FourierSpaceCorrelation):
 
         # When a single time origin is requested,
         # make sure no additional time origins except the first frame is used
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid[1], offset=norigins != '1' and norigins != 1)
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid[1], offset=norigins not in ('1', 1))
 
 
 class SelfIntermediateScatteringLegacy(IntermediateScatteringBase):
diff --git a/atooms/postprocessing/msd.py b/atooms/postprocessing/msd.py
index 12a52ac..76b2738 100644
--- a/atooms/postprocessing/msd.py
+++ b/atooms/postprocessing/msd.py
@@ -71,7 +71,7 @@ class MeanSquareDisplacement(Correlation):
         # Setup time grid
         # We disable offsets if only one time origin is requested or if no_offset is True
         self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid,
-                                            offset=self._norigins != '1' and not self._no_offset)
+                                            offset=self._norigins not in ('1', 1) and not self._no_offset)
         # Note that the grid is redefined
         self.grid, self.value = gcf_offset(msd, self._discrete_tgrid, self.skip,
                                            self.trajectory.steps, self._pos_unf)
diff --git a/atooms/postprocessing/qt.py b/atooms/postprocessing/qt.py
index 111f088..35b6222 100644
--- a/atooms/postprocessing/qt.py
+++ b/atooms/postprocessing/qt.py
@@ -50,7 +50,7 @@ class CollectiveOverlap(Correlation):
         self.a_square = a**2
         if tgrid is None:
             self.grid = logx_grid(0.0, self.trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def f(x, y):
@@ -74,7 +74,7 @@ class SelfOverlap(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if tgrid is None:
             self.grid = logx_grid(0.0, trajectory.total_time * 0.75, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
         self.a_square = a**2
 
     def _compute(self):
diff --git a/atooms/postprocessing/s4kt.py b/atooms/postprocessing/s4kt.py
index 715ce68..0da4e79 100644
--- a/atooms/postprocessing/s4kt.py
+++ b/atooms/postprocessing/s4kt.py
@@ -34,7 +34,7 @@ class S4ktOverlap(FourierSpaceCorrelation):
         FourierSpaceCorrelation.__init__(self, trajectory, [tgrid, kgrid], norigins,
                                          nk, dk, kmin, kmax, ksamples)
         # Setup time grid
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
         self.a_square = a**2
 
     def _tabulate_W(self, kgrid, selection, t_off, t, skip):
diff --git a/atooms/postprocessing/sacf.py b/atooms/postprocessing/sacf.py
index 5027a9a..ae1cff6 100644
--- a/atooms/postprocessing/sacf.py
+++ b/atooms/postprocessing/sacf.py
@@ -23,7 +23,7 @@ class StressAutocorrelation(Correlation):
 
     def __init__(self, trajectory, tgrid, norigins=None):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, tgrid, offset=norigins not in ('1', 1))
 
     def _get_stress(self):
         ndims = 3
diff --git a/atooms/postprocessing/vacf.py b/atooms/postprocessing/vacf.py
index 0ff5723..7d61f31 100644
--- a/atooms/postprocessing/vacf.py
+++ b/atooms/postprocessing/vacf.py
@@ -24,7 +24,7 @@ class VelocityAutocorrelation(Correlation):
         Correlation.__init__(self, trajectory, tgrid, norigins=norigins)
         if self.grid is None:
             self.grid = linear_grid(0.0, trajectory.total_time * 0.10, tsamples)
-        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins != '1')
+        self._discrete_tgrid = setup_t_grid(self.trajectory, self.grid, offset=norigins not in ('1', 1))
 
     def _compute(self):
         def f(x, y):
-- 
2.43.0


From ceb78c46e0c7a9afe7cf8ab86ce10ef287a4e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 42/49] fix: time differences between the end of a block and
 the last frames were not available

---
 atooms/postprocessing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/helpers.py b/atooms/postprocessing/helpers.py
index a748785..a685962 100644
--- a/atooms/postprocessing/helpers.py
+++ b/atooms/postprocessing/helpers.py
@@ -216,7 +216,7 @@ def setup_t_grid(trajectory, t_grid, offset=True):
     else:
         offset_range = [0]
     for off in offset_range:
-        for i in range(off, len(steps)-off):
+        for i in range(off, len(steps)):
             if steps[i] - steps[off] not in off_samp:
                 off_samp[steps[i] - steps[off]] = (off, i-off)
 
-- 
2.43.0


From 7789608017f205a44e230295537c799a3e440e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 43/49] fix: linked cells used again for other periodic
 directions or conventions gave the wrong neighbors

---
 atooms/postprocessing/linkedcells.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/atooms/postprocessing/linkedcells.py b/atooms/postprocessing/linkedcells.py
index c1df584..1647ec1 100644
--- a/atooms/postprocessing/linkedcells.py
+++ b/atooms/postprocessing/linkedcells.py
@@ -144,9 +144,12 @@ class LinkedCells(object):
         return found
 
     def compute(self, box, pos, other=None, as_array=False, newton=True, periodic=None):
+        newton = other is None and newton
+        if periodic is None:
+            periodic = numpy.array([True] * len(box))
         if not self._is_adjusted or numpy.any(numpy.asarray(box) != self.box) or \
-           (other is not None and self.newton):
-            self.adjust(box, newton=other is None and newton, periodic=periodic)
+           newton != self.newton or numpy.any(numpy.asarray(periodic) != self.periodic):
+            self.adjust(box, newton=newton, periodic=periodic)
             self._is_adjusted = True
         # We only need positions here but how can we be sure that
         # this is the same set of particles we use when retrieving
-- 
2.43.0


From e29ff95bcf488699dc06752938d3123f53e30916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 44/49] fix: computing a correlation function again crashed or
 gave other results

---
 atooms/postprocessing/chi4t.py       |  6 ++++--
 atooms/postprocessing/correlation.py | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/atooms/postprocessing/chi4t.py b/atooms/postprocessing/chi4t.py
index 240114b..0c7eb07 100644
--- a/atooms/postprocessing/chi4t.py
+++ b/atooms/postprocessing/chi4t.py
@@ -55,7 +55,8 @@ class Chi4SelfOverlap(Correlation):
             return self_overlap(x, y, self.a_square).sum()
 
         side = self.trajectory.read(0).cell.side
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         # At this stage, we can copy the tags
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
@@ -107,7 +108,8 @@ class Chi4SelfOverlapOptimized(Chi4SelfOverlap):
         def f(x, y):
             return compute.self_overlap(x, y, self.a_square)
 
-        self.grid = []
+        self.grid, self.value = [], []
+        self.average.value, self.variance.value = [], []
         self.average.tag, self.variance.tag = self.tag, self.tag
         for off, i in progress(self._discrete_tgrid):
             A, A2, cnt = 0.0, 0.0, 0
diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index b05cf5f..8a39501 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -209,6 +209,7 @@ class Correlation(object):
         self._fix_cm = fix_cm
         self._unfolded = None
         self.grid = grid
+        self._grid_computed, self._grid_requested = None, None
         self.value = []
         self.analysis = {}
         self.comments = None  # can be modified by user at run time
@@ -319,7 +320,16 @@ class Correlation(object):
         Dump positions and/or velocities at different time frames as a
         list of numpy array.
         """
-        # TODO: what happens if we call compute twice?? Shouldnt we reset the arrays?
+        # Reset the arrays, in case the correlation has been computed already
+        self._unfolded = None
+        self._pos, self._vel, self._ids, self._pos_unf = [], [], [], []
+        self._pos_0, self._pos_1 = [], []
+        self._vel_0, self._vel_1 = [], []
+        self._ids_0, self._ids_1 = [], []
+        self._pos_unf_0, self._pos_unf_1 = [], []
+        if self._weight is not None:
+            self._weight = []
+
         # Ensure phasespace is a list.
         # It may not be a class variable anymore after this
         if not isinstance(self.phasespace, list) and \
@@ -515,6 +525,12 @@ class Correlation(object):
         which are also returned.
         """
         _log.info('setup arrays for %s', self.tag_description)
+        # If the correlation has been computed already, the grid is the
+        # one of the results: start again from the requested one
+        if self._grid_computed is not None and self.grid is self._grid_computed:
+            self.grid = self._grid_requested
+        self._grid_requested = copy.copy(self.grid)
+
         t = [Timer(), Timer()]
         t[0].start()
         self._setup_arrays()
@@ -526,6 +542,7 @@ class Correlation(object):
                   len(self.trajectory))
         t[1].start()
         self._compute()
+        self._grid_computed = self.grid
         t[1].stop()
 
         _log.info('output file %s', self._output_file)
-- 
2.43.0


From d38aacc50e222c44dda5684cafc077bf6b5a0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 45/49] fix: structure factors of variable cells could not be
 computed again

---
 atooms/postprocessing/ik.py |  5 +++++
 atooms/postprocessing/sk.py | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/atooms/postprocessing/ik.py b/atooms/postprocessing/ik.py
index a431370..e3982fa 100644
--- a/atooms/postprocessing/ik.py
+++ b/atooms/postprocessing/ik.py
@@ -46,6 +46,7 @@ class SpectralDensity(FourierSpaceCorrelation):
         rho_av = [complex(0., 0.) for k in self.kgrid]
         rho2_av = [complex(0., 0.) for k in self.kgrid]
         cell_variable = is_cell_variable(self.trajectory)
+        first = self.kgrid, self.k0, self._kvectors, self._koffset
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update
             if cell_variable:
@@ -65,6 +66,10 @@ class SpectralDensity(FourierSpaceCorrelation):
                     rho2_av[k] += (rho * rho.conjugate())
                     cnt[k] += 1
 
+        # The results are given on the grid of the first frame
+        if cell_variable:
+            self.kgrid, self.k0, self._kvectors, self._koffset = first
+
         # Normalization.
         volume = numpy.average([s.cell.volume for s in self.trajectory])
         self.grid = self.kgrid
diff --git a/atooms/postprocessing/sk.py b/atooms/postprocessing/sk.py
index abdb4cc..6773a0b 100644
--- a/atooms/postprocessing/sk.py
+++ b/atooms/postprocessing/sk.py
@@ -68,6 +68,7 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
         rho_1_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
         variable_cell = is_cell_variable(self.trajectory)
+        first = self.k0, self._kvectors, self._koffset
         for i in progress(range(0, nsteps, self.skip), total=nsteps // self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
@@ -145,6 +146,11 @@ class StructureFactorLegacy(FourierSpaceCorrelation):
                     rho2_av[k] += (rho_0 * rho_1.conjugate())
                     cnt[k] += 1
 
+        # The results are given on the grid of the first frame
+        if variable_cell:
+            self.kgrid = kgrid
+            self.k0, self._kvectors, self._koffset = first
+
         # In the absence of a microscopic field, the average density is zero.
         # We get rid of the average and compute <rho(k)rho*(k)>.
         if self._weight_0 is None:
@@ -197,6 +203,7 @@ class StructureFactorFast(StructureFactorLegacy):
         rho_av = [complex(0., 0.) for k in kgrid]
         rho2_av = [complex(0., 0.) for k in kgrid]
         variable_cell = is_cell_variable(self.trajectory)
+        first = self.k0, self._kvectors, self._koffset
         for i in range(0, nsteps, self.skip):
             # If cell changes we have to update the wave vectors
             if variable_cell:
@@ -236,6 +243,11 @@ class StructureFactorFast(StructureFactorLegacy):
                 rho2_av[k] += numpy.sum(rho_0 * rho_1.conjugate())
                 cnt[k] += rho_0.shape[0]
 
+        # The results are given on the grid of the first frame
+        if variable_cell:
+            self.kgrid = kgrid
+            self.k0, self._kvectors, self._koffset = first
+
         # Normalization.
         npart_0 = sum([p.shape[0] for p in self._pos_0]) / float(len(self._pos_0))
         npart_1 = sum([p.shape[0] for p in self._pos_1]) / float(len(self._pos_1))
-- 
2.43.0


From 2a41dc47177648ed6df2827d95f3199c0a7fb454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 46/49] fix: systems with unfolded positions stored in the
 trajectory were modified when fixing the center of mass

---
 atooms/postprocessing/correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atooms/postprocessing/correlation.py b/atooms/postprocessing/correlation.py
index 8a39501..9707e76 100644
--- a/atooms/postprocessing/correlation.py
+++ b/atooms/postprocessing/correlation.py
@@ -394,6 +394,9 @@ class Correlation(object):
                     # methods work with particle.position
                     # TODO: can be revised with atooms 3.4.0
                     if self._fix_cm:
+                        # The system may be cached by the trajectory or
+                        # be stored in it: we must not modify it
+                        s = copy.deepcopy(s)
                         # Compute CM using unfolded positions, which is safe
                         cm = numpy.zeros_like(s.particle[0].position_unfolded)
                         mtot = 0.0
-- 
2.43.0


From b90fc515cc52883344c501ec30758c682d9614fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 47/49] fix: the bond-angle distribution overwrote the result
 files of the partial radial distribution functions

---
 atooms/postprocessing/ba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atooms/postprocessing/ba.py b/atooms/postprocessing/ba.py
index 15bc85a..04dd2eb 100644
--- a/atooms/postprocessing/ba.py
+++ b/atooms/postprocessing/ba.py
@@ -28,7 +28,7 @@ def _default_rcut(th):
 
     ids = distinct_species(th[0].particle)
     gr = Partial(RadialDistributionFunction, ids, th, dr=0.1)
-    gr.do(update=False)
+    gr.compute()
     rcut = {}
     for isp in ids:
         for jsp in ids:
-- 
2.43.0


From 3109b3fb4f3fae12922613091d42700492725b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 48/49] fix: conditions on particles were ignored by most
 commands

---
 atooms/postprocessing/api.py | 52 +++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/atooms/postprocessing/api.py b/atooms/postprocessing/api.py
index b92f738..a4d079d 100644
--- a/atooms/postprocessing/api.py
+++ b/atooms/postprocessing/api.py
@@ -68,6 +68,12 @@ def _compat(args):
 
     return args
 
+def _filter(cf, args):
+    """Apply the condition on particles in `args` to the correlation function"""
+    if args['filter'] is not None:
+        return pp.Filter(cf, args['filter'])
+    return cf
+
 def gr(input_file, dr=0.04, grandcanonical=False, ndim=-1, rmax=-1.0, *input_files, **global_args):
     """Radial distribution function"""
     global_args = _compat(global_args)
@@ -159,10 +165,11 @@ def msd(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=30,
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        pp.MeanSquareDisplacement(th, tgrid=t_grid,
-                                  norigins=global_args['norigins'],
-                                  sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
-                                  fix_cm=fix_cm).do(update=global_args['update'])
+        cf = pp.MeanSquareDisplacement(th, tgrid=t_grid,
+                                       norigins=global_args['norigins'],
+                                       sigma=sigma, rmax=rmsd_max, no_offset=no_offset,
+                                       fix_cm=fix_cm)
+        _filter(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.MeanSquareDisplacement, ids, th, tgrid=t_grid,
                     norigins=global_args['norigins'], sigma=sigma,
@@ -181,7 +188,8 @@ def vacf(input_file, tmax=-1.0, tmax_fraction=0.10,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.VelocityAutocorrelation(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.VelocityAutocorrelation, ids, th,
@@ -210,10 +218,11 @@ def fkt(input_file, tmax=-1.0, tmax_fraction=0.75,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            pp.IntermediateScattering(th, k_grid, t_grid,
-                                      norigins=global_args['norigins'],
-                                      nk=nk, dk=dk, fix_cm=fix_cm).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = pp.IntermediateScattering(th, k_grid, t_grid,
+                                           norigins=global_args['norigins'],
+                                           nk=nk, dk=dk, fix_cm=fix_cm)
+            _filter(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.IntermediateScattering, ids, th, k_grid, t_grid,
                     norigins=global_args['norigins'],
@@ -242,10 +251,11 @@ def fskt(input_file, tmax=-1.0, tmax_fraction=0.75, tsamples=60,
         else:
             k_grid = linear_grid(kmin, kmax, ksamples)
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, k_grid, t_grid, nk, dk=dk,
-                    norigins=global_args['norigins'], fix_cm=fix_cm,
-                    lookup_mb=lookup_mb).do(update=global_args['update'])
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, k_grid, t_grid, nk, dk=dk,
+                         norigins=global_args['norigins'], fix_cm=fix_cm,
+                         lookup_mb=lookup_mb)
+            _filter(cf, global_args).do(update=global_args['update'])
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(backend, ids, th, k_grid, t_grid, nk, dk=dk,
                     norigins=global_args['norigins'], fix_cm=fix_cm,
@@ -270,9 +280,10 @@ def chi4qs(input_file, tsamples=60, a=0.3, tmax=-1.0, func='logx',
         else:
             t_grid = None
         ids = distinct_species(th[0].particle)
-        if total or len(ids) == 1:
-            backend(th, t_grid, a=a, norigins=global_args['norigins']).do(update=global_args['update'])
-        if not total and len(ids) > 1:
+        if total or len(ids) == 1 or global_args['filter'] is not None:
+            cf = backend(th, t_grid, a=a, norigins=global_args['norigins'])
+            _filter(cf, global_args).do(update=global_args['update'])
+        if not total and len(ids) > 1 and global_args['filter'] is None:
             Partial(backend, ids, th, t_grid, a=a,
                     norigins=global_args['norigins']).do(update=global_args['update'])
 
@@ -288,7 +299,8 @@ def alpha2(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.NonGaussianParameter(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.NonGaussianParameter, ids, th, t_grid,
@@ -306,7 +318,8 @@ def qst(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.SelfOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.SelfOverlap(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.SelfOverlap, ids, th, t_grid,
@@ -324,7 +337,8 @@ def qt(input_file, tmax=-1.0, tmax_fraction=0.75,
             t_grid = [0.0] + func(th.timestep, tmax_fraction*th.total_time, tsamples)
         else:
             t_grid = None
-        pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins']).do(update=global_args['update'])
+        cf = pp.CollectiveOverlap(th, t_grid, norigins=global_args['norigins'])
+        _filter(cf, global_args).do(update=global_args['update'])
         ids = distinct_species(th[0].particle)
         if len(ids) > 1 and not global_args['no_partial']:
             Partial(pp.CollectiveOverlap, ids, th, t_grid,
-- 
2.43.0


From a8afcf85ad961f6bf93d901a41f1ee8b7bad4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:13 +0000
Subject: [PATCH 49/49] fix: pairs beyond the maximum distance were missing
 from the last bin of g(r) with linked cells

---
 atooms/postprocessing/gr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atooms/postprocessing/gr.py b/atooms/postprocessing/gr.py
index beb77c5..680d7bd 100644
--- a/atooms/postprocessing/gr.py
+++ b/atooms/postprocessing/gr.py
@@ -240,7 +240,8 @@ class RadialDistributionFunctionFast(RadialDistributionFunctionLegacy):
             rho = n_1 / system.cell.volume
             nmax = self.rmax**ndims * rho
             if int(min(system.cell.side / self.rmax)) > 3 and nmax * n_0 < 1e6:
-                linkedcells = LinkedCells(rcut=self.rmax)
+                # The last bin may extend beyond rmax by up to half a bin
+                linkedcells = LinkedCells(rcut=self.rmax + dr / 2)
             else:
                 linkedcells = None
 
-- 
2.43.0

