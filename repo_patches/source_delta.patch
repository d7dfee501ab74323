From 80e3f70a6cdf8fdfbc1fa42a8d788365d3b57818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 01/26] fix: give each Kohnsham energy record its own arrays
 (package could not be imported on Python >= 3.11)

---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From ef1563f349517445ded731d0f0981d382ac31a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 02/26] fix: weigh every ensemble member of fragment B with its
 own energy (KSB was counted twice, KSb never)

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From f06ad9c7eb0146af312bc1002c119751a3d5e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:37 +0000
Subject: [PATCH 03/26] fix: von Weizsaecker partition energy is a number, and
 the molecular term has the sign of a kinetic energy

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..57eb874 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From 7910b06756c363bfb755559e2e351c8f611f2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 04/26] fix: a failed density evaluation leaves the solvers
 untouched and no worker running

---
 CADMium/kohnsham/kohnsham.py | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..da591fc 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -208,28 +208,34 @@ class Kohnsham():
         manager     = Manager()
         eig_results = manager.dict() 
 
-        for j in range(self.Nmo.shape[1]):
-            for i in range(self.Nmo.shape[0]):
-                if ITERATIVE is True and dif < starttol:
-                    process = Process(target=self.solver[i,j].iter_orbitals,
-                                       args=((i,j), eig_results))  
-                    processes.append(process)
+        try:
+            for j in range(self.Nmo.shape[1]):
+                for i in range(self.Nmo.shape[0]):
+                    if ITERATIVE is True and dif < starttol:
+                        process = Process(target=self.solver[i,j].iter_orbitals,
+                                           args=((i,j), eig_results))  
+                    else:
+                        process = Process(target=self.solver[i,j].calc_orbitals,
+                                          args=((i,j), eig_results)) 
                     process.start()
-                else:
-                    process = Process(target=self.solver[i,j].calc_orbitals,
-                                      args=((i,j), eig_results)) 
                     processes.append(process)
-                    process.start()
-
-        #Wait for all processes to end
-        for process in processes:
-            process.join()
+        finally:
+            #Wait for all processes to end, also if one of them could not be started
+            for process in processes:
+                process.join()
+
+        #Collect all results before any solver is updated:
+        #If one is missing, all solvers keep the orbitals they had
+        results = {}
+        for j in range(self.Nmo.shape[1]):
+            for i in range(self.Nmo.shape[0]):
+                results[i,j] = eig_results[(i,j)]
 
         # #Give each solvers their results
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].eig = eig_results[(i,j)][0]
-                self.solver[i,j].phi = eig_results[(i,j)][1]
+                self.solver[i,j].eig = results[i,j][0]
+                self.solver[i,j].phi = results[i,j][1]
 
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):     
-- 
2.43.0


From eed3f7d791b478bf68f176e39907916adf6c3fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:42 +0000
Subject: [PATCH 05/26] fix: leave orbitals that are already converged in place
 when refining (correction was unbound or another orbital's)

---
 CADMium/pssolver/iter_orbitals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..39a640d 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,8 +54,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+
             self.normalize_orbitals()
         
     else:
-- 
2.43.0


From e74f7b8d1fe9dd072aa069c86100b71dd72572dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 06/26] fix: each inversion has its own report, and a residual
 that is not a number is not convergence

---
 CADMium/inverter/orbitalinvert.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..dc44d26 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -466,13 +466,14 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
         isolver[it].calc_density()
         isolver[it].setveff(self.vs[:, ispin])
 
-    if res > self.optInv.tol_invert:
-        flag = False
-    else:
+    #A residual that is not a number is not a converged one
+    if res <= self.optInv.tol_invert:
         flag = True
+    else:
+        flag = False
 
 
-    inv_info = inversion_info
+    inv_info = inversion_info()
     inv_info.nfev       = iter 
     inv_info.optimality = res
     output = np.empty((1,1), dtype=object)
-- 
2.43.0


From 8e4a1e66bf1a09d526d3256d7df19458511e5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 07/26] fix: calc_Q no longer changes floating-point error
 handling for the whole process

---
 CADMium/partition/partition.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..3103b0d 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -382,15 +382,14 @@ class Partition():
         """
         Calculate Q functions
         """ 
-        np.seterr(divide='ignore', invalid='ignore')
-
         if not self.ens:
             iks = [self.KSa, self.KSb]
         else:
             iks = [self.KSa, self.KSA, self.KSb, self.KSB]
 
         for i in iks:
-            i.Q = i.scale * i.n / self.nf
+            with np.errstate(divide='ignore', invalid='ignore'):
+                i.Q = i.scale * i.n / self.nf
             i.Q = np.nan_to_num(i.Q, nan=0.0, posinf=0.0, neginf=0.0)
 
 
-- 
2.43.0


From 85a46338f9dfba6f3f2b65a5b0d481b321d9b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:51 +0000
Subject: [PATCH 08/26] fix: auto_tol in the Kohn-Sham SCF raised NameError

---
 CADMium/kohnsham/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..a0ecb1e 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
-- 
2.43.0


From 929626e79ee0673dc64b755294146c11f01f3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:54 +0000
Subject: [PATCH 09/26] fix: auto_tol in the partition SCF raised TypeError

---
 CADMium/partition/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 45c1c7c449e838cd30bc91654965b3303e125452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 10/26] fix: package version survives a git that fails, or
 prints garbage, late in the query

---
 CADMium/_version.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/CADMium/_version.py b/CADMium/_version.py
index d1366b4..9eab532 100644
--- a/CADMium/_version.py
+++ b/CADMium/_version.py
@@ -95,7 +95,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        stdout = stdout.decode(errors="replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -295,11 +295,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From b1c83c59aff28f1c787f4a638784e6a6c6a0668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:53 +0000
Subject: [PATCH 11/26] fix: density convergence is also required when one spin
 has no electrons (0/0 switched the criterion off)

---
 CADMium/kohnsham/scf.py  | 2 +-
 CADMium/partition/scf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index a0ecb1e..010ab2b 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -96,7 +96,7 @@ def scf(self, optKS):
 
         #Convergence check
         dif_E = np.abs( (self.E.E - old_E) / self.E.E )
-        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
+        dif_n = np.nanmax(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
 
 
         diff = max(dif_E, dif_n)
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1caa474..42545f6 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -198,7 +198,7 @@ def scf(self, optSCF={}):
 
     #-----> Convergence Check
         dif_E  = np.abs( np.sum(self.E.E - old_E) / self.E.E )
-        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
+        dif_nf = np.nanmax(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
         dif    = max(dif_E, dif_nf)
         old_E  = self.E.E
         old_nf = self.nf
-- 
2.43.0


From e91b09aa1ec84907393d6f52866e135ca3f66f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:55 +0000
Subject: [PATCH 12/26] fix: an SCF run whose energy is not a number is not
 converged

---
 CADMium/kohnsham/scf.py  | 2 +-
 CADMium/partition/scf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 010ab2b..7d7a761 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
+    while (not diff <= optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 42545f6..5398671 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -138,7 +138,7 @@ def scf(self, optSCF={}):
         num_iter_not_min = 0
 
     #-----> SCF Procedure Begins
-    while (dif > optSCF.e_tol 
+    while (not dif <= optSCF.e_tol 
            or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
-- 
2.43.0


From f38ca5b6a1722e721b1fd58f16277daf4b21599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 13/26] fix: quadrature weights follow the point order of the
 grid (wrong unless it has as many angular as radial points)

---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From 93866121236babdf3defb16cb69fa4a85bbba446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:17 +0000
Subject: [PATCH 14/26] fix: cross gradient of a polarised density is taken
 pointwise (operator precedence made it one number for the whole grid)

---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..4b13982 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:,1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:,1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From 1074615718eb34efc0bfe123e432198f78a2bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 15/26] fix: a continued Kohn-Sham run refines its orbitals
 only once the density has settled (it converged to excited states when
 continued early)

---
 CADMium/kohnsham/scf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 7d7a761..6a18ed6 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -77,10 +77,7 @@ def scf(self, optKS):
             self.veff = (self.veff + self.grid.mirror(self.grid.spinflip(self.veff))) / 2
 
         #Calculate new density
-        if optKS.iterative is True and optKS.continuing is True:
-            nout = self.calc_density(ITERATIVE=optKS.iterative)
-        else:
-            nout = self.calc_density(ITERATIVE=optKS.iterative, dif=diff)
+        nout = self.calc_density(ITERATIVE=optKS.iterative, dif=diff)
 
 
         #Set new density with linear mixing
-- 
2.43.0


From b2d0cdbec87169f7e096baf7ced0b82760c06553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:43 +0000
Subject: [PATCH 16/26] fix: a partition can be continued from input densities
 alone (potentials of a new object are None)

---
 CADMium/partition/scf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 5398671..fb79ff5 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -107,7 +107,12 @@ def scf(self, optSCF={}):
     for i_KS in KSab:
         if optSCF.continuing is True:
             assert i_KS.n is not None, "optSCF.continuing is True set but there is no input density"
-        
+            if i_KS.veff is None or i_KS.vext is None or i_KS.vhxc is None:
+                #There is an input density but no calculation before
+                i_KS.vext = np.zeros_like(i_KS.vnuc)
+                i_KS.vhxc = np.zeros_like(i_KS.vnuc)
+                i_KS.set_effective_potential()
+
         else:
             #We need initial guesses
             i_KS.vext = np.zeros_like(i_KS.vnuc)
-- 
2.43.0


From e7da9c799d00c82c8b7887deb6c0325cef4ccec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 17/26] fix: a git that prints something other than a commit or
 description is an unknown version, not version 0+untagged

---
 CADMium/_version.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CADMium/_version.py b/CADMium/_version.py
index 9eab532..94e2d22 100644
--- a/CADMium/_version.py
+++ b/CADMium/_version.py
@@ -246,6 +246,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
     if full_out is None:
         raise NotThisMethod("'git rev-parse' failed")
     full_out = full_out.strip()
+    if not re.match(r'^[0-9a-f]{40,}$', full_out):
+        raise NotThisMethod("'git rev-parse' did not print a commit id")
 
     pieces = {}
     pieces["long"] = full_out
@@ -292,6 +294,11 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
 
     else:
         # HEX: no tags
+        if not git_describe or not full_out.startswith(git_describe):
+            # not an abbreviated commit id. Maybe git-describe is misbehaving?
+            pieces["error"] = ("unable to parse git-describe output: '%s'"
+                               % describe_out)
+            return pieces
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-- 
2.43.0


From 4230cf4f636482b378d3da3a02ad106906e2ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:03 +0000
Subject: [PATCH 18/26] fix: environment helper reads its file with any PyYAML
 (load() without a Loader is a TypeError since PyYAML 6)

---
 devtools/scripts/create_conda_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/scripts/create_conda_env.py b/devtools/scripts/create_conda_env.py
index b51adc8..9ece84a 100644
--- a/devtools/scripts/create_conda_env.py
+++ b/devtools/scripts/create_conda_env.py
@@ -9,7 +9,7 @@ from contextlib import contextmanager
 # YAML imports
 try:
     import yaml  # PyYAML
-    loader = yaml.load
+    loader = yaml.safe_load
 except ImportError:
     try:
         import ruamel_yaml as yaml  # Ruamel YAML
-- 
2.43.0


From 2a2382cbd09fdd73f00ff08f4be03984599156f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:15 +0000
Subject: [PATCH 19/26] fix: environment helper keeps the dependencies of a
 file whose pip section comes before, or without, a python entry

---
 devtools/scripts/create_conda_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/scripts/create_conda_env.py b/devtools/scripts/create_conda_env.py
index 9ece84a..accb145 100644
--- a/devtools/scripts/create_conda_env.py
+++ b/devtools/scripts/create_conda_env.py
@@ -64,7 +64,7 @@ python_replacement_string = "python {}*".format(args.python)
 
 try:
     for dep_index, dep_value in enumerate(yaml_script['dependencies']):
-        if re.match('python([ ><=*]+[0-9.*]*)?$', dep_value):  # Match explicitly 'python' and its formats
+        if isinstance(dep_value, str) and re.match('python([ ><=*]+[0-9.*]*)?$', dep_value):  # Match explicitly 'python' and its formats
             yaml_script['dependencies'].pop(dep_index)
             break  # Making the assumption there is only one Python entry, also avoids need to enumerate in reverse
 except (KeyError, TypeError):
-- 
2.43.0


From 85b97e2c019f68fba17815f146db7064920745e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 20/26] fix: environment helper replaces any python entry (a
 range such as 'python >=3.6,<3.9' stayed beside the requested version)

---
 devtools/scripts/create_conda_env.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/devtools/scripts/create_conda_env.py b/devtools/scripts/create_conda_env.py
index accb145..45b7b54 100644
--- a/devtools/scripts/create_conda_env.py
+++ b/devtools/scripts/create_conda_env.py
@@ -64,7 +64,7 @@ python_replacement_string = "python {}*".format(args.python)
 
 try:
     for dep_index, dep_value in enumerate(yaml_script['dependencies']):
-        if isinstance(dep_value, str) and re.match('python([ ><=*]+[0-9.*]*)?$', dep_value):  # Match explicitly 'python' and its formats
+        if isinstance(dep_value, str) and re.match('python([ ><=!~*].*)?$', dep_value):  # Match explicitly 'python' and its formats
             yaml_script['dependencies'].pop(dep_index)
             break  # Making the assumption there is only one Python entry, also avoids need to enumerate in reverse
 except (KeyError, TypeError):
-- 
2.43.0


From a912aba086dc7bfe27580851f6485ea5d8da1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 21/26] fix: an orbital inversion whose target density is not a
 number does not converge (max() dropped the NaN residual)

---
 CADMium/inverter/orbitalinvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index dc44d26..25037f6 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -324,7 +324,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                     eqn[ np.array(range( Nelem )) + np.sum(Nmo) * Nelem + np.sum(Nmo) - 1 + North  ]
                     ))
         # res_Ncon = np.max(np.abs( eqn[ subset ] ))
-        res = max(res_ks, res_ncon)
+        res = np.max((res_ks, res_ncon))
 
         if self.optInv.avoid_loop is True and iter > 2:
             if res      < 1e-6 and \
-- 
2.43.0


From 1fdea500bb41ba152c152436d8b974a86e744361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 22/26] fix: a Wu-Yang inversion leaves its solvers with the
 potential it publishes (not a rejected trial, nor an unsymmetrised one)

---
 CADMium/inverter/linresponse.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..05535fb 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -8,6 +8,19 @@ from scipy.optimize import least_squares
 from scipy.sparse import spdiags
 
 
+def solution(self, res_lsq, spin):
+    """
+    Potential of the minimiser's solution. The solvers are left with it, not
+    with the last trial, which the minimiser may have rejected.
+    """
+    vs = res_lsq.x
+    if self.optInv.ab_sym is True:
+        vs = 0.5 * (vs + self.grid.mirror(vs))
+    if not np.array_equal(np.ravel(self.solver[0,spin].veff), vs):
+        self.Ws(res_lsq.x, spin)
+    return vs
+
+
 def linresponse(self, n0, vs0=None):
     """
     wuyang like inversion of the density with response
@@ -55,7 +68,7 @@ def linresponse(self, n0, vs0=None):
                                 gtol   = self.optInv.tol_invert)
 
         #Get solution from least squares object
-        self.vs[:,0] = res_lsq.x
+        self.vs[:,0] = solution(self, res_lsq, 0)
         self.us[0] = self.solver[0,0].get_homo()
         flag[0,0] = res_lsq.status
         output[0,0] = res_lsq
@@ -90,7 +103,7 @@ def linresponse(self, n0, vs0=None):
                 flag[j,i] = res_lsq.status
                 output[j,i] = res_lsq
 
-            self.vs[:,i] = res_lsq.x
+            self.vs[:,i] = solution(self, res_lsq, i)
             self.us[i]   = self.solver[0,i].get_homo()
 
 
-- 
2.43.0


From c36b2fed8202acd5a8d20de9b3cc244de0d787e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 23/26] fix: a Wu-Yang inversion that ends away from the target
 density is not reported as converged

---
 CADMium/inverter/linresponse.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 05535fb..fa04d73 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -8,6 +8,17 @@ from scipy.optimize import least_squares
 from scipy.sparse import spdiags
 
 
+def inversion_status(self, res_lsq):
+    """
+    Status of the minimiser, or 0 (not converged) if it stopped
+    somewhere else than at the target density
+    """
+    miss = np.max(np.abs(res_lsq.fun))
+    if not miss <= max(10 * self.optInv.tol_invert, 1e-6):
+        return 0
+    return res_lsq.status
+
+
 def solution(self, res_lsq, spin):
     """
     Potential of the minimiser's solution. The solvers are left with it, not
@@ -70,14 +81,14 @@ def linresponse(self, n0, vs0=None):
         #Get solution from least squares object
         self.vs[:,0] = solution(self, res_lsq, 0)
         self.us[0] = self.solver[0,0].get_homo()
-        flag[0,0] = res_lsq.status
+        flag[0,0] = inversion_status(self, res_lsq)
         output[0,0] = res_lsq
 
         #Copy information
         self.vs = np.hstack((self.vs, self.vs))
         self.us = np.hstack((self.us, self.us))
         self.solver[0,1].setveff(self.vs[:,0])
-        flag[0,1] = res_lsq.status
+        flag[0,1] = flag[0,0]
         output[0,1] = res_lsq
 
     else:
@@ -100,7 +111,7 @@ def linresponse(self, n0, vs0=None):
                                     gtol   = self.optInv.tol_invert)
 
             for j in range(self.solver.shape[0]):
-                flag[j,i] = res_lsq.status
+                flag[j,i] = inversion_status(self, res_lsq)
                 output[j,i] = res_lsq
 
             self.vs[:,i] = solution(self, res_lsq, i)
-- 
2.43.0


From 9db623c2ba5af9fc88280f4fb234eed14b95f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 24/26] fix: orbitals come out in order also when the
 diagonalisation had to be repeated after NaN

---
 CADMium/pssolver/calc_orbitals.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..583b7a5 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -47,9 +47,13 @@ def calc_orbitals(self, solver_id, return_dict):
 
         while np.isnan(self.phi).all() != np.zeros_like(self.phi).all():
             e0 = e0 - 0.1
-            self.eig, self.phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
-            self.eig = self.eig.real
-            self.phi = self.phi.real
+            eig, phi = eigs(spsolve(W, H), k=self.Nmo, sigma=e0, v0=self.opt["v0"])
+            eig = eig.real
+            phi = phi.real
+
+            indx = eig.argsort()
+            self.eig = eig[indx]
+            self.phi = phi[:,indx]
 
         #Check for degenerate and nearly degenerate orbitals
         for i in range(self.Nmo-1):
-- 
2.43.0


From 93dd9fe77f3bd56972171a5db2ab27281b111e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:53 +0000
Subject: [PATCH 25/26] fix: two-orbital kinetic potential of fragment A is the
 derivative of the energy

phi1 was missing under one of the integrals, so fragments A and B of a
symmetric molecule felt different potentials and the run gave other energies
than with ab_sym.
---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..45cb871 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -142,7 +142,7 @@ def vp_kinetic(self):
         dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
-        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (       dTO_dphi1)[:,0] ))
+        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
         dTO1_dn2 = -(1/2) * (C * n2)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
 
         dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
-- 
2.43.0


From 4814ccb4bd2b433e38d0f19a3537269242a2c3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:23 +0000
Subject: [PATCH 26/26] fix: options of a Kohn-Sham run are accepted in any
 letter case and take effect (they were ignored unless in lower case)

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 6a18ed6..0bfbf21 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS =  {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0

