From 8cc52103b2f289e3d7733df851724b05a53ab00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:01 +0000
Subject: [PATCH 01/61] fix: get_fragments ignored the options filter when
 flags were also given

---
 vayesta/core/qemb/qemb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 958ca89..11a808a 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1152,6 +1152,8 @@ class Embedding:
                 skip = _skip(attr, filt)
                 if skip:
                     break
+            if skip:
+                continue
             # Check flags:
             for key, filt in flags.items():
                 attr = getattr_recursive(frag.flags, key)
-- 
2.43.0


From c79db8a40e7bb1afd202c596a401117cc793152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:01 +0000
Subject: [PATCH 02/61] fix: reject CAS fragments with fewer orbitals than
 needed to hold the requested electrons

---
 vayesta/core/fragmentation/cas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/fragmentation/cas.py b/vayesta/core/fragmentation/cas.py
index adec11d..793c586 100644
--- a/vayesta/core/fragmentation/cas.py
+++ b/vayesta/core/fragmentation/cas.py
@@ -58,7 +58,7 @@ class CAS_Fragmentation(Fragmentation):
             offset += 1
             nelec_curr += int(occ[anyocc[-1] - offset])
 
-        if nelec_curr > nelec or offset > ncas:
+        if nelec_curr > nelec or offset + 1 > ncas:
             raise ValueError("Cannot create CAS with required properties around Fermi level with current MO occupancy.")
 
         def check_for_degen(energies, po, pv, name=""):
-- 
2.43.0


From 6a619be7b5942bbe7ba4b1687a9ec748d8e99a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 03/61] fix: pass the unit option of the R2 bath on to the
 cutoff

---
 vayesta/core/qemb/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 773ec81..710e68f 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -932,7 +932,7 @@ class Fragment:
             elif btype == "r2":
                 rcut = self._get_bath_option("rcut", occtype)
                 unit = self._get_bath_option("unit", occtype)
-                c_bath, c_frozen = factory.get_bath(rcut=rcut)
+                c_bath, c_frozen = factory.get_bath(rcut=rcut, unit=unit)
             elif btype == "ewdmet":
                 order = self._get_bath_option("order", occtype)
                 c_bath, c_frozen = factory.get_bath(order)
-- 
2.43.0


From 8584734723631939aff6097fcea51cd8d2865414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:50 +0000
Subject: [PATCH 04/61] fix: nested symmetries between unrestricted fragments
 failed for lack of environment orbitals

---
 vayesta/core/qemb/ufragment.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vayesta/core/qemb/ufragment.py b/vayesta/core/qemb/ufragment.py
index dee4fbd..2ebb5c9 100644
--- a/vayesta/core/qemb/ufragment.py
+++ b/vayesta/core/qemb/ufragment.py
@@ -223,15 +223,11 @@ class UFragment(Fragment):
         dma, dmb = dm1
         ovlp = self.base.get_ovlp()
         # This fragment (x)
-        cxa, cxb = spinalg.hstack_matrices(self.c_frag, self.c_env)
+        cxa, cxb = spinalg.hstack_matrices(self.c_frag, self.get_coeff_env())
         dmxa = dot(cxa.T, ovlp, dma, ovlp, cxa)
         dmxb = dot(cxb.T, ovlp, dmb, ovlp, cxb)
         # Other fragment (y)
-        if frag.c_env is None:
-            cy_env = frag.sym_op(self.c_env)
-        else:
-            cy_env = frag.c_env
-        cya, cyb = spinalg.hstack_matrices(frag.c_frag, cy_env)
+        cya, cyb = spinalg.hstack_matrices(frag.c_frag, frag.get_coeff_env())
         dmya = dot(cya.T, ovlp, dma, ovlp, cya)
         dmyb = dot(cyb.T, ovlp, dmb, ovlp, cyb)
         charge_err = abs(dmxa + dmxb - dmya - dmyb).max()
-- 
2.43.0


From b8eff333fe51b047909be4fc21e531e7dd5b455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:25 +0000
Subject: [PATCH 05/61] fix: CCSDTQ wave function ignored the requested
 reference coefficient when converted to CISD

---
 vayesta/core/types/wf/ccsdtq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsdtq.py b/vayesta/core/types/wf/ccsdtq.py
index af25802..5c132e8 100644
--- a/vayesta/core/types/wf/ccsdtq.py
+++ b/vayesta/core/types/wf/ccsdtq.py
@@ -33,7 +33,7 @@ class RCCSDTQ_WaveFunction(wf_types.WaveFunction):
         return wf_types.CCSD_WaveFunction(self.mo, self.t1, self.t2)
 
     def as_cisd(self, c0=1.0):
-        return self.as_ccsd().as_cisd()
+        return self.as_ccsd().as_cisd(c0=c0)
 
 
 class UCCSDTQ_WaveFunction(RCCSDTQ_WaveFunction):
-- 
2.43.0


From 552d60449916930e395b30c2ae332168f386fa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:25 +0000
Subject: [PATCH 06/61] fix: restricted CCSD wave function lost its singles and
 lambda amplitudes in as_unrestricted

---
 vayesta/core/types/wf/ccsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 1e19182..dca1171 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -160,9 +160,9 @@ class RCCSD_WaveFunction(wf_types.WaveFunction):
         mo = self.mo.to_spin_orbitals()
 
         def _to_uccsd(t1, t2):
-            t1, t2 = self.t1.copy, self.t2.copy()
+            t1, t2 = t1.copy(), t2.copy()
             t2aa = t2 - t2.transpose(0, 1, 3, 2)
-            return (t1, t1), (t2aa, t2, t2aa)
+            return (t1, t1.copy()), (t2aa, t2, t2aa.copy())
 
         t1, t2 = _to_uccsd(self.t1, self.t2)
         l1 = l2 = None
-- 
2.43.0


From ef5d233c9b4be9069506e77ccefe532f5818102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:25 +0000
Subject: [PATCH 07/61] fix: beta-alpha doubles were wrong when converting
 four-block unrestricted amplitudes between CISD and CCSD

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 vayesta/core/types/wf/cisd.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index dca1171..45f00c4 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -332,7 +332,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         if len(self.t2) == 3:
             c2 = (c2aa, c2ab, c2bb)
         elif len(self.t2) == 4:
-            c2ba = c0 * self.t2ba + einsum("ia,jb->ijab", c1b, c1a)
+            c2ba = c0 * (self.t2ba + einsum("ia,jb->ijab", self.t1b, self.t1a))
             c2 = (c2aa, c2ab, c2ba, c2bb)
         return wf_types.UCISD_WaveFunction(self.mo, c0, c1, c2, projector=self.projector)
 
diff --git a/vayesta/core/types/wf/cisd.py b/vayesta/core/types/wf/cisd.py
index cdd683a..e1cd551 100644
--- a/vayesta/core/types/wf/cisd.py
+++ b/vayesta/core/types/wf/cisd.py
@@ -161,7 +161,7 @@ class UCISD_WaveFunction(RCISD_WaveFunction):
         if len(self.c2) == 3:
             t2 = (t2aa, t2ab, t2bb)
         elif len(self.c2) == 4:
-            t2ba = self.c2ab / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
+            t2ba = self.c2ba / self.c0 - einsum("ia,jb->ijab", t1b, t1a)
             t2 = (t2aa, t2ab, t2ba, t2bb)
         l1, l2 = t1, t2
         wf = wf_types.UCCSD_WaveFunction(self.mo, t1, t2, l1=l1, l2=l2, projector=self.projector)
-- 
2.43.0


From 2870f606e7e853af67a1000b7717757948e35af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 08/61] fix: packing arrays failed with NumPy 2 (removed type
 code)

---
 vayesta/core/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/helper.py b/vayesta/core/helper.py
index 9023c8f..13ddbff 100644
--- a/vayesta/core/helper.py
+++ b/vayesta/core/helper.py
@@ -19,14 +19,14 @@ def orbital_sign_convention(mo_coeff, inplace=True):
 def get_dtype_int(obj):
     if obj is None:
         return 0
-    dtint = np.asarray(obj.dtype.char, dtype="a8").view(int)[()]
+    dtint = np.asarray(obj.dtype.char, dtype="S8").view(int)[()]
     return dtint
 
 
 def get_dtype(dtint):
     if dtint == 0:
         return None
-    val = np.asarray(dtint).view("a8")[()]
+    val = np.asarray(dtint).view("S8")[()]
     dtype = np.dtype(val)
     return dtype
 
-- 
2.43.0


From b2b52ee2a726631d76e5d6b58ab2b1a42bba61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 09/61] fix: rotating an unrestricted CCSD wave function
 applied the beta rotation to the alpha orbitals

---
 vayesta/core/types/wf/ccsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 45f00c4..5df073e 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -387,7 +387,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
             assert isinstance(tv, np.ndarray) and len(tv) == 2
             trafo = lambda c: dot(c, block_diag(to, tv))
         else:
-            trafo = [lambda c: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
+            trafo = [lambda c, x=x: dot(c, x) for x in (block_diag(to[0], tv[0]), block_diag(to[1], tv[1]))]
 
         wf.mo.basis_transform(trafo, inplace=True)
         wf.t1 = transform_uc1(wf.t1, to, tv)
-- 
2.43.0


From d2a33d79aba5e1c6538c22ca354f8c845a770d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 10/61] fix: unrestricted CCSD wave functions did not survive
 packing unless projected and with lambda amplitudes

---
 vayesta/core/types/wf/ccsd.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/vayesta/core/types/wf/ccsd.py b/vayesta/core/types/wf/ccsd.py
index 5df073e..10fbb18 100644
--- a/vayesta/core/types/wf/ccsd.py
+++ b/vayesta/core/types/wf/ccsd.py
@@ -404,7 +404,7 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
         mo = self.mo.pack(dtype=dtype)
         l1 = self.l1 if self.l1 is not None else [None, None]
         l2 = self.l2 if self.l2 is not None else len(self.t2) * [None]
-        projector = self.projector
+        projector = self.projector if self.projector is not None else [None, None]
         data = (mo, *self.t1, *self.t2, *l1, *l2, *projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
@@ -413,14 +413,14 @@ class UCCSD_WaveFunction(RCCSD_WaveFunction):
     def unpack(cls, packed):
         """Unpack from a single array of data type `dtype`.
         Useful for communication via MPI."""
-        mo, t1a, t1b, t2aa, t2ab, t2ba, t2bb, l1a, l1b, l2aa, l2ab, l2ba, l2bb, proja, projb = unpack_arrays(packed)
-        t1 = (t1a, t1b)
-        t2 = (t2aa, t2ab, t2ba, t2bb)
-        l1 = (l1a, l1b)
-        l2 = (l2aa, l2ab, l2ba, l2bb)
-        projector = (proja, projb)
+        mo, *data = unpack_arrays(packed)
+        # The doubles amplitudes consist of 3 (aa, ab, bb) or 4 (aa, ab, ba, bb) spin blocks
+        n2 = (len(data) - 6) // 2
+        t1, t2 = tuple(data[:2]), tuple(data[2 : 2 + n2])
+        l1, l2 = tuple(data[2 + n2 : 4 + n2]), tuple(data[4 + n2 : 4 + 2 * n2])
+        projector = tuple(data[4 + 2 * n2 :])
+        l1 = l1 if l1[0] is not None else None
+        l2 = l2 if l2[0] is not None else None
+        projector = projector if projector[0] is not None else None
         mo = SpinOrbitals.unpack(mo)
-        wf = cls(mo, t1, t2, l1=l1, l2=l2)
-        if projector is not None:
-            wf.projector = projector
-        return wf
+        return cls(mo, t1, t2, l1=l1, l2=l2, projector=projector)
-- 
2.43.0


From ec304f96c3e4d4885ab6f888be591272832c36f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 11/61] fix: unrestricted MP2 wave functions could not be
 packed

---
 vayesta/core/types/wf/mp2.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/mp2.py b/vayesta/core/types/wf/mp2.py
index 7da5511..ebf74e1 100644
--- a/vayesta/core/types/wf/mp2.py
+++ b/vayesta/core/types/wf/mp2.py
@@ -2,7 +2,7 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import callif, dot, einsum
 from vayesta.core.types import wf as wf_types
-from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.types.orbitals import SpatialOrbitals, SpinOrbitals
 from vayesta.core.types.wf.project import project_c2, project_uc2, symmetrize_c2, symmetrize_uc2
 from vayesta.core.helper import pack_arrays, unpack_arrays
 
@@ -194,3 +194,21 @@ class UMP2_WaveFunction(RMP2_WaveFunction):
 
     def multiply(self, factor):
         self.t2 = spinalg.multiply(self.t2, len(self.t2) * [factor])
+
+    def pack(self, dtype=float):
+        """Pack into a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo = self.mo.pack(dtype=dtype)
+        projector = self.projector if self.projector is not None else (None, None)
+        return pack_arrays(mo, *self.t2, *projector, dtype=dtype)
+
+    @classmethod
+    def unpack(cls, packed):
+        """Unpack from a single array of data type `dtype`.
+
+        Useful for communication via MPI."""
+        mo, *t2, proja, projb = unpack_arrays(packed)
+        mo = SpinOrbitals.unpack(mo)
+        projector = (proja, projb) if proja is not None else None
+        return cls(mo, tuple(t2), projector=projector)
-- 
2.43.0


From 1d8e1ab562a13891f222923f4080dbcf98271786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:05 +0000
Subject: [PATCH 12/61] fix: density-matrix wave functions could not be packed

---
 vayesta/core/types/wf/rdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/types/wf/rdm.py b/vayesta/core/types/wf/rdm.py
index 52d05be..0fa69cc 100644
--- a/vayesta/core/types/wf/rdm.py
+++ b/vayesta/core/types/wf/rdm.py
@@ -3,6 +3,8 @@ import numpy as np
 from vayesta.core import spinalg
 from vayesta.core.util import dot, einsum, callif
 from vayesta.core.types import wf as wf_types
+from vayesta.core.types.orbitals import SpatialOrbitals
+from vayesta.core.helper import pack_arrays, unpack_arrays
 from vayesta.core.types.wf.project import (
     project_c1,
     project_c2,
@@ -88,7 +90,7 @@ class RRDM_WaveFunction(wf_types.WaveFunction):
 
         Useful for communication via MPI."""
         mo = self.mo.pack(dtype=dtype)
-        data = (mo, dm1, dm2, self.projector)
+        data = (mo, self.dm1, self.dm2, self.projector)
         pack = pack_arrays(*data, dtype=dtype)
         return pack
 
-- 
2.43.0


From 921346f0c4af14dd58559bdd0ee29ba2c4ae2ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:52 +0000
Subject: [PATCH 13/61] fix: pass t_as_lambda and with_exxdiv on to the
 one-particle part of the density-matrix energy

---
 vayesta/ewf/ewf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 94c4ff1..34f0133 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -363,7 +363,7 @@ class EWF(Embedding):
         return e_ccsd_t / self.ncells
 
     def get_dm_corr_energy(self, dm1="global-wf", dm2="projected-lambda", t_as_lambda=None, with_exxdiv=None):
-        e1 = self.get_dm_corr_energy_e1(dm1=dm1, t_as_lambda=None, with_exxdiv=None)
+        e1 = self.get_dm_corr_energy_e1(dm1=dm1, t_as_lambda=t_as_lambda, with_exxdiv=with_exxdiv)
         e2 = self.get_dm_corr_energy_e2(dm2=dm2, t_as_lambda=t_as_lambda)
         e_corr = e1 + e2
         self.log.debug("Ecorr(1)= %s  Ecorr(2)= %s  Ecorr= %s", *map(energy_string, (e1, e2, e_corr)))
-- 
2.43.0


From 7170c1d30ed8e7c974b36c7c1d1fbf781dfed472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:37 +0000
Subject: [PATCH 14/61] fix: keep the k-point index of the direct term when
 looping over auxiliary blocks in kao2gmo_cderi

---
 vayesta/core/ao2mo/kao2gmo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vayesta/core/ao2mo/kao2gmo.py b/vayesta/core/ao2mo/kao2gmo.py
index ca2ab4a..b05f0c4 100644
--- a/vayesta/core/ao2mo/kao2gmo.py
+++ b/vayesta/core/ao2mo/kao2gmo.py
@@ -144,9 +144,8 @@ def kao2gmo_cderi(gdf, mo_coeffs, make_real=True, blksize=None, tril_kij=True, d
                     lij = transform(lab, mo1[ki], mo2[kj])
                     cderi_mo[kk, blk] += lij
                     if tril_kij and (ki > kj):
-                        kk = kconserv[kj, ki]
                         lij = transform(lab.transpose(0, 2, 1).conj(), mo1[kj], mo2[ki])
-                        cderi_mo[kk, blk] += lij
+                        cderi_mo[kconserv[kj, ki], blk] += lij
                 # For 2D systems:
                 elif sign == -1:
                     assert (ki == kj) and (sign == -1) and (lab.shape[0] == 1)
-- 
2.43.0


From c328f2f49d74579cc676c53e54808e6be033d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:14 +0000
Subject: [PATCH 15/61] fix: compress the beta three-center integrals of
 unrestricted cluster Hamiltonians instead of the alpha ones twice

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 71b54c8..f6cc7a9 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -737,7 +737,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
                 return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[0]))
+            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
             if cderi_neg[0] is not None:
                 cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
             if cderi_neg[1] is not None:
-- 
2.43.0


From a608929d8cbb189c3f0190d8a39cdcb48a94bd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:03 +0000
Subject: [PATCH 16/61] fix: recognise unrestricted MP2, CISD and CCSD objects
 when transforming integrals for unrestricted embeddings

---
 vayesta/core/ao2mo/postscf_ao2mo.py | 2 +-
 vayesta/core/qemb/uqemb.py          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/ao2mo/postscf_ao2mo.py b/vayesta/core/ao2mo/postscf_ao2mo.py
index bbafe99..221d02d 100644
--- a/vayesta/core/ao2mo/postscf_ao2mo.py
+++ b/vayesta/core/ao2mo/postscf_ao2mo.py
@@ -226,7 +226,7 @@ def postscf_kao2gmo_uhf(postscf, gdf, fock, mo_energy, e_hf=None, mo_coeff=None)
     cderi_neg = (cderia_neg, cderib_neg)
 
     # MP2
-    if isinstance(postscf, pyscf.mp.mp2.MP2):
+    if isinstance(postscf, pyscf.mp.ump2.UMP2):
         eris.ovov = _contract_cderi(cderia, cderia_neg)
         eris.OVOV = _contract_cderi(cderib, cderib_neg)
         eris.ovOV = _contract_cderi_mixed(cderi, cderi_neg)
diff --git a/vayesta/core/qemb/uqemb.py b/vayesta/core/qemb/uqemb.py
index 80b020a..6e0c704 100644
--- a/vayesta/core/qemb/uqemb.py
+++ b/vayesta/core/qemb/uqemb.py
@@ -172,9 +172,11 @@ class UEmbedding(Embedding):
             ERIs which can be used for the respective post-SCF method.
         """
         if fock is None:
-            if isinstance(postscf, pyscf.mp.mp2.MP2):
+            if isinstance(postscf, (pyscf.mp.mp2.MP2, pyscf.mp.ump2.UMP2)):
                 fock = self.get_fock()
-            elif isinstance(postscf, (pyscf.ci.cisd.CISD, pyscf.cc.ccsd.CCSD)):
+            elif isinstance(
+                postscf, (pyscf.ci.cisd.CISD, pyscf.cc.ccsd.CCSD, pyscf.ci.ucisd.UCISD, pyscf.cc.uccsd.UCCSD)
+            ):
                 fock = self.get_fock(with_exxdiv=False)
             else:
                 raise ValueError("Unknown post-HF method: %r", type(postscf))
-- 
2.43.0


From b6cbf10d43fef1b4e4b606738c042ef590fdc4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:25 +0000
Subject: [PATCH 17/61] fix: data race on the largest imaginary element in
 j3c_k2gamma

---
 vayesta/libs/core/src/j3c_kao2gmo.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vayesta/libs/core/src/j3c_kao2gmo.c b/vayesta/libs/core/src/j3c_kao2gmo.c
index 6988ef2..5327377 100644
--- a/vayesta/libs/core/src/j3c_kao2gmo.c
+++ b/vayesta/libs/core/src/j3c_kao2gmo.c
@@ -65,6 +65,7 @@ int64_t j3c_k2gamma(
     size_t ri, rj, rk;
     size_t idx;
     double rtmp = 0.0;
+    double max_imag_priv = 0.0;
     double complex *work1 = malloc(K3N2 * sizeof(double complex));
     double complex *work2 = malloc(K3N2 * sizeof(double complex));
 
@@ -110,8 +111,8 @@ int64_t j3c_k2gamma(
             i = rk*K2N2 + a*K2N + b*K2 + rj*K + ri;
             rtmp = fabs(cimag(work1[i]));
             //printf("imaginary part = %.2e\n", rtmp);
-            if (rtmp > *max_imag) {
-                *max_imag = rtmp;
+            if (rtmp > max_imag_priv) {
+                max_imag_priv = rtmp;
             //if (rtmp > max_imag) {
                 //if (ierr == 0) {
                  //   printf("ERROR: signficant imaginary part= %.2e !\n", rtmp);
@@ -131,6 +132,13 @@ int64_t j3c_k2gamma(
         }}}}}
     }
 
+#pragma omp critical
+    {
+        if (max_imag_priv > *max_imag) {
+            *max_imag = max_imag_priv;
+        }
+    }
+
     free(work1);
     free(work2);
     }
-- 
2.43.0


From 512264ab338d6b581d9991d53271cb817b21ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:23 +0000
Subject: [PATCH 18/61] fix: keep the order of the MO energies when making
 unsorted folded MOs real

---
 vayesta/core/foldscf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/foldscf.py b/vayesta/core/foldscf.py
index c2bb22d..5504fa3 100644
--- a/vayesta/core/foldscf.py
+++ b/vayesta/core/foldscf.py
@@ -230,8 +230,9 @@ def make_mo_coeff_real(mo_energy, mo_coeff, ovlp, imag_tol=1e-10):
     mask = e > 0.5
     assert np.count_nonzero(mask) == len(mo_energy[im])
     e, v = e[mask], v[:, mask]
-    log_error_norms("Error in folded MO energies: L(2)= %.2e L(inf)= %.2e", mo_energy[im] - (e - shift))
-    mo_coeff[:, im] = v
+    log_error_norms("Error in folded MO energies: L(2)= %.2e L(inf)= %.2e", np.sort(mo_energy[im]) - (e - shift))
+    # The eigenvalues are in ascending order, the energies of the replaced MOs not necessarily:
+    mo_coeff[:, np.flatnonzero(im)[np.argsort(mo_energy[im], kind="stable")]] = v
 
     assert np.all(np.linalg.norm(mo_coeff.imag, axis=0) <= imag_tol)
     return mo_energy, mo_coeff.real
-- 
2.43.0


From 0f024e52a8240f25078ab8895d819163bbe87361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:50 +0000
Subject: [PATCH 19/61] fix: compress the three-center integrals of both spin
 channels of unrestricted cluster Hamiltonians together

---
 vayesta/solver/hamiltonian.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index f6cc7a9..e3361d3 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -730,18 +730,19 @@ class UClusterHamiltonian(RClusterHamiltonian):
         if compress:
             # SVD and compress the cderi tensor. This scales as O(N_{aux} N_{clus}^4), so this will be worthwhile
             # provided the following approach has a lower scaling than this.
+            # Both spin channels share the auxiliary index, such that they need to be compressed together.
             def compress_cderi(cd):
-                naux, n1, n2 = cd.shape
-                u, s, v = np.linalg.svd(cd.reshape(naux, n1 * n2), full_matrices=False)
+                naux = cd[0].shape[0]
+                cd_flat = np.hstack([x.reshape(naux, -1) for x in cd])
+                u, s, v = np.linalg.svd(cd_flat, full_matrices=False)
                 want = s > svd_threshold
                 self.log.debugv("CDERIs auxbas compressed from %d to %d in size", naux, sum(want))
-                return einsum("n,nq->nq", s[want], v[want]).reshape(-1, n1, n2)
+                cd_comp = np.split(einsum("n,nq->nq", s[want], v[want]), [cd[0][0].size], axis=1)
+                return tuple([x.reshape(-1, *y.shape[1:]) for x, y in zip(cd_comp, cd)])
 
-            cderi = (compress_cderi(cderi[0]), compress_cderi(cderi[1]))
+            cderi = compress_cderi(cderi)
             if cderi_neg[0] is not None:
-                cderi_neg = (compress_cderi(cderi_neg[0]), cderi_neg[1])
-            if cderi_neg[1] is not None:
-                cderi_neg = (cderi_neg[0], compress_cderi(cderi_neg[1]))
+                cderi_neg = compress_cderi(cderi_neg)
 
         return cderi, cderi_neg
 
-- 
2.43.0


From 240fc0a5544773540a576fd4292b0d259f387a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:06 +0000
Subject: [PATCH 20/61] fix: keep the FCI initial guess symmetric with respect
 to spin for the singlet solver

---
 vayesta/solver/fci.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vayesta/solver/fci.py b/vayesta/solver/fci.py
index a79d1a2..1910fba 100644
--- a/vayesta/solver/fci.py
+++ b/vayesta/solver/fci.py
@@ -70,7 +70,11 @@ class FCI_Solver(ClusterSolver):
             ci = None
 
         if self.opts.init_guess_noise and ci is not None:
-            ci += self.opts.init_guess_noise * np.random.random(ci.shape)
+            noise = self.opts.init_guess_noise * np.random.random(ci.shape)
+            if isinstance(self.solver, pyscf.fci.direct_spin0.FCISolver):
+                # The CI vector has to stay symmetric with respect to the exchange of spins
+                noise = (noise + noise.T) / 2
+            ci += noise
 
         heff, eris = self.hamil.get_integrals(with_vext=True)
 
-- 
2.43.0


From 9c5c39ece49e1a1e213bd04ec9e5256e3c5451a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:06 +0000
Subject: [PATCH 21/61] fix: report whether the CISD solver converged

---
 vayesta/solver/cisd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/cisd.py b/vayesta/solver/cisd.py
index 46a7cca..54219b2 100644
--- a/vayesta/solver/cisd.py
+++ b/vayesta/solver/cisd.py
@@ -31,7 +31,7 @@ class RCISD_Solver(ClusterSolver):
         ecisd, civec = mycisd.kernel()
         c0, c1, c2 = mycisd.cisdvec_to_amplitudes(civec)
         self.wf = CISD_WaveFunction(self.hamil.mo, c0, c1, c2)
-        self.converged = True
+        self.converged = bool(mycisd.converged)
 
     def get_solver_class(self):
         return ci.RCISD
-- 
2.43.0


From 48caa4045667556c1528689ae75d1f06925d63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:36 +0000
Subject: [PATCH 22/61] fix: combination of external and delta-tailor
 corrections of CCSD

---
 vayesta/solver/coupling.py | 50 +++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/vayesta/solver/coupling.py b/vayesta/solver/coupling.py
index b93ba97..f9cde27 100644
--- a/vayesta/solver/coupling.py
+++ b/vayesta/solver/coupling.py
@@ -601,6 +601,28 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             np.zeros((nocc[1], nocc[1], nvir[1], nvir[1])),
         )
 
+    # The 'external' correction is a residual, which has to be contracted with the fragment x (CCSD) energy
+    # denominators, whereas the 'delta-tailor' correction is an amplitude already.
+    # Note that this will not work correctly if a level shift used
+    if emb.spinsym == "restricted":
+        eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
+        eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
+
+        def residual_to_amplitudes(r1, r2):
+            return r1 / eia, r2 / eijab
+
+    elif emb.spinsym == "unrestricted":
+        eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
+        eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
+        eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
+        eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
+        eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
+
+        def residual_to_amplitudes(r1, r2):
+            r1 = (r1[0] / eia_a, r1[1] / eia_b)
+            r2 = (r2[0] / eijab_aa, r2[1] / eijab_ab, r2[2] / eijab_bb)
+            return r1, r2
+
     frag_dir = {f.id: f for f in emb.fragments}
     for y, corrtype, projectors, low_level_coul in external_corrections:
         fy = frag_dir[y]  # Get fragment y object from its index
@@ -630,8 +652,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         rxy_vir = spinalg.dot(cxs_vir, fy.cluster.c_active_vir)
         dt1y = transform_amplitude(dt1y, rxy_occ, rxy_vir, inverse=True)
         dt2y = transform_amplitude(dt2y, rxy_occ, rxy_vir, inverse=True)
-        dt1 = spinalg.add(dt1, dt1y)
-        dt2 = spinalg.add(dt2, dt2y)
 
         if low_level_coul and corrtype == "external":
             # Include the t3v term, contracting with the integrals from the x cluster
@@ -640,10 +660,14 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             dt2y_t3v = _get_delta_t2_from_t3v(
                 govvv_x, gvvov_x, gooov_x, govoo_x, fy, rxy_occ, rxy_vir, cxs_occ, projectors
             )
-            dt2 = spinalg.add(dt2, dt2y_t3v)
+            dt2y = spinalg.add(dt2y, dt2y_t3v)
+        if corrtype == "external":
+            dt1y, dt2y = residual_to_amplitudes(dt1y, dt2y)
+        dt1 = spinalg.add(dt1, dt1y)
+        dt2 = spinalg.add(dt2, dt2y)
 
         solver.log.info(
-            "External correction residuals from fragment %3d (%s via %s):  dT1= %.3e  dT2= %.3e",
+            "External correction from fragment %3d (%s via %s):  dT1= %.3e  dT2= %.3e",
             fy.id,
             fy.solver,
             corrtype,
@@ -651,14 +675,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
         )
 
     if emb.spinsym == "restricted":
-        if corrtype == "external":
-            # Contract with fragment x (CCSD) energy denominators
-            # Note that this will not work correctly if a level shift used
-            eia = mo_energy[:nocc, None] - mo_energy[None, nocc:]
-            eijab = pyscf.lib.direct_sum("ia,jb->ijab", eia, eia)
-            dt1 /= eia
-            dt2 /= eijab
-
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
             *get_amplitude_norm(dt1, dt2),
@@ -671,16 +687,6 @@ def externally_correct(solver, external_corrections, hamil=None):  # eris=None):
             t2[:] += dt2
 
     elif emb.spinsym == "unrestricted":
-        if corrtype == "external":
-            eia_a = mo_energy[0][: nocc[0], None] - mo_energy[0][None, nocc[0] :]
-            eia_b = mo_energy[1][: nocc[1], None] - mo_energy[1][None, nocc[1] :]
-            eijab_aa = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_a)
-            eijab_ab = pyscf.lib.direct_sum("ia,jb->ijab", eia_a, eia_b)
-            eijab_bb = pyscf.lib.direct_sum("ia,jb->ijab", eia_b, eia_b)
-
-            dt1 = (dt1[0] / eia_a, dt1[1] / eia_b)
-            dt2 = (dt2[0] / eijab_aa, dt2[1] / eijab_ab, dt2[2] / eijab_bb)
-
         solver.log.info(
             "Total external correction amplitudes from all fragments:  dT1= %.3e  dT2= %.3e",
             *get_amplitude_norm(dt1, dt2),
-- 
2.43.0


From 98d6143f96730b86716bfba50969accf279a157b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 23/61] fix: site index of Hubbard2D consistent with the site
 positions, image indices of Hubbard1D

---
 vayesta/lattmod/latt.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/vayesta/lattmod/latt.py b/vayesta/lattmod/latt.py
index 03400ce..354bd7a 100644
--- a/vayesta/lattmod/latt.py
+++ b/vayesta/lattmod/latt.py
@@ -176,11 +176,8 @@ class Hubbard1D(Hubbard):
         return coords / BOHR
 
     def get_index(self, i):
-        bfac = self.bfac
-        fac = 1
-        if i % self.nsites[0] != i:
-            fac *= bfac[0] * (i // self.nsites[0])
-        idx = i
+        ncells, idx = divmod(i, self.nsites[0])
+        fac = self.bfac if (ncells % 2) else 1
         return idx, fac
 
 
@@ -262,7 +259,7 @@ class Hubbard2D(Hubbard):
             fac *= bfac[0]
         if j % self.nsites[1] != j:
             fac *= bfac[1]
-        idx = (i % self.nsites[0]) * self.nsites[1] + (j % self.nsites[1])
+        idx = (j % self.nsites[1]) * self.nsites[0] + (i % self.nsites[0])
         return idx, fac
 
     def get_eri(self, hubbard_u=None, v_nn=None):
-- 
2.43.0


From d976621c970a67c9a1a727831f565dacf4c3ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:34 +0000
Subject: [PATCH 24/61] fix: RIRPA moments for scaled interactions, adaptive
 quadrature, adiabatic-connection integration, low-rank compression and RPA
 gap

alpha was ignored by kernel_moms; direct_AC_integration divided a tuple; adaptive quadrature returned a doubled
tuple; compression discarded negative and complex eigenvalues of a non-symmetric matrix; get_gap mixed spatial
and spin-orbital quantities for restricted direct RPA.
---
 vayesta/rpa/rirpa/RIRPA.py   | 24 +++++++++++++-----------
 vayesta/rpa/rirpa/RIdRRPA.py | 10 +++++++++-
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index a257a61..e534a6a 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -205,7 +205,7 @@ class ssRIRRPA:
             self.log.warning("Warning; generating full moment rather than local component. Will scale as O(N^5).")
             target_rot = np.eye(self.ov_tot)
 
-        ri_decomps = self.get_compressed_MP()
+        ri_decomps = self.get_compressed_MP(kwargs.get("alpha", 1.0))
         ri_mp, ri_apb, ri_amb = ri_decomps
         # First need to calculate zeroth moment.
         moments = np.zeros((max_moment + 1,) + target_rot.shape)
@@ -304,7 +304,8 @@ class ssRIRRPA:
 
         if adaptive_quad:
             # Can also make use of scipy adaptive quadrature routines; this is more expensive but a good sense-check.
-            integral, upper_bound = 2 * niworker.kernel_adaptive()
+            # Adaptive quadrature only integrates over positive frequencies.
+            integral, upper_bound = (2 * x for x in niworker.kernel_adaptive())
         else:
             integral, upper_bound = niworker.kernel(a=ainit, opt_quad=opt_quad)
 
@@ -424,7 +425,8 @@ class ssRIRRPA:
         local_rot describes the rotation of the ov-excitations to the space of local excitations within a cluster, while
         fragment_projectors gives the projector within this local excitation space to the actual fragment."""
         # Get the coulomb integrals.
-        ri_eri, ri_eri_neg = self.get_apb_eri_ri() / np.sqrt(2)
+        ri_eri, ri_eri_neg = self.get_apb_eri_ri()
+        ri_eri = ri_eri / np.sqrt(2)
 
         # TODO use ri_eri_neg here.
         def get_eta_alpha(alpha, target_rot):
@@ -777,16 +779,16 @@ def construct_inverse_RI(D, ri):
 def compress_low_rank(ri_l, ri_r, tol=1e-12, log=None, name=None):
     naux_init = ri_l.shape[0]
 
-    inner_prod = dot(ri_l, ri_r.T)
+    # Singular value decomposition of dot(ri_l.T, ri_r), in the spaces spanned by the (generally different) factors.
+    ql, rl = np.linalg.qr(ri_l.T)
+    qr, rr = np.linalg.qr(ri_r.T)
+    u, s, v = np.linalg.svd(dot(rl, rr.T))
 
-    e, c = np.linalg.eig(inner_prod)
+    nwant = np.count_nonzero(s > tol)
+    srt = s[:nwant] ** 0.5
 
-    want = e > tol
-    nwant = sum(want)
-    rot = c[:, want]
-
-    ri_l = dot(rot.T, ri_l)
-    ri_r = dot(rot.T, ri_r)
+    ri_l = dot(ql, u[:, :nwant] * srt).T
+    ri_r = dot(qr, v[:nwant].T * srt).T
     if nwant < naux_init and log is not None:
         if name is None:
             log.info(
diff --git a/vayesta/rpa/rirpa/RIdRRPA.py b/vayesta/rpa/rirpa/RIdRRPA.py
index 2478e77..b007f40 100644
--- a/vayesta/rpa/rirpa/RIdRRPA.py
+++ b/vayesta/rpa/rirpa/RIdRRPA.py
@@ -23,7 +23,7 @@ class ssRIdRRPA(ssRIRRPA):
             else:
                 target_rot = np.eye(self.ov_tot)
 
-        ri_decomps = self.get_compressed_MP()
+        ri_decomps = self.get_compressed_MP(kwargs.get("alpha", 1.0))
         ri_mp, ri_apb, ri_amb = ri_decomps
         # First need to calculate zeroth moment. This only generates the spin-independent contribution in a single
         # spin channel; the spin-dependent contribution is just the identity rotated to our target rotation.
@@ -207,6 +207,14 @@ class ssRIdRRPA(ssRIRRPA):
         )
         return self.e_corr_ss, err
 
+    @with_doc(ssRIRRPA.get_gap)
+    def get_gap(self, *args, **kwargs):
+        # The Davidson solver works in the spinorbital basis.
+        spinorb = ssRIRRPA(
+            self.mf, log=self.log, err_tol=self.err_tol, svd_tol=self.svd_tol, lov=self.lov, compress=self.compress
+        )
+        return spinorb.get_gap(*args, **kwargs)
+
     def get_compressed_MP(self, alpha=1.0):
         lov, lov_neg = self.get_cderi()
 
-- 
2.43.0


From 38b4315a8a3ccd19e1a7f3d57bd856971cb5918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 25/61] fix: RIRPA correlation energy for asymmetric low-rank
 representations

The trace over the inverse contracted it with the transposed product of the left and right factors, which
is only correct if both agree (not with a negative-definite part, an xc-kernel or compression).
---
 vayesta/rpa/rirpa/energy_NI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/energy_NI.py b/vayesta/rpa/rirpa/energy_NI.py
index 059b94f..91a1d10 100644
--- a/vayesta/rpa/rirpa/energy_NI.py
+++ b/vayesta/rpa/rirpa/energy_NI.py
@@ -97,8 +97,8 @@ class NITrRootMP(NumericalIntegratorClenCurInfinite):
         Q = self.get_Q(freq)
         F = self.get_F(freq)
         val_aux = np.linalg.inv(np.eye(self.n_aux) + Q) - np.eye(self.n_aux)
-        lhs = dot(val_aux, self.S_L * F[None])
-        res = np.tensordot(lhs, self.S_R * F[None], ((0, 1), (0, 1)))
+        rhs = dot(val_aux, self.S_R * F[None])
+        res = np.tensordot(self.S_L * F[None], rhs, ((0, 1), (0, 1)))
         res = (freq**2) * res / np.pi
         return np.array([res])
 
-- 
2.43.0


From 97f285172a90bf22b2f2751c6f630f3c240c6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:20 +0000
Subject: [PATCH 26/61] fix: opposite-spin block of low-rank xc-kernels in
 ssRPA

---
 vayesta/rpa/rirpa/RIRPA.py | 2 +-
 vayesta/rpa/ssrpa.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index e534a6a..2ef90ff 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -701,7 +701,7 @@ class ssRIRRPA:
         if self.rixc is not None:
             xc_kernel = [
                 einsum("npq,nrs->pqrs", *self.rixc[0]),
-                einsum("npq,nrs->pqrs", self.rixc[0][0], self.rixc[0][1]),
+                einsum("npq,nrs->pqrs", self.rixc[0][0], self.rixc[1][1]),
                 einsum("npq,nrs->pqrs", *self.rixc[1]),
             ]
         fullrpa = ssRPA(self.mf)
diff --git a/vayesta/rpa/ssrpa.py b/vayesta/rpa/ssrpa.py
index cb6c886..845e470 100644
--- a/vayesta/rpa/ssrpa.py
+++ b/vayesta/rpa/ssrpa.py
@@ -248,7 +248,7 @@ class ssRPA:
         if not isinstance(xc_kernel[0], np.ndarray):
             xc_kernel = [
                 einsum("npq,nrs->pqrs", *xc_kernel[0]),
-                einsum("npq,nrs->pqrs", xc_kernel[0][0], xc_kernel[0][1]),
+                einsum("npq,nrs->pqrs", xc_kernel[0][0], xc_kernel[1][1]),
                 einsum("npq,nrs->pqrs", *xc_kernel[1]),
             ]
         c_o_a, c_o_b = c_o if isinstance(c_o, tuple) else (c_o, c_o)
-- 
2.43.0


From 2e7ac65f038e567ac1f004ca7e8a50ed991d115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 27/61] fix: unrestricted RPA for periodic unrestricted mean
 fields

---
 vayesta/rpa/__init__.py       | 3 ++-
 vayesta/rpa/rirpa/__init__.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/__init__.py b/vayesta/rpa/__init__.py
index 8a10b7a..7e0bab8 100644
--- a/vayesta/rpa/__init__.py
+++ b/vayesta/rpa/__init__.py
@@ -9,10 +9,11 @@ from vayesta.rpa.ssrpa import ssRRPA
 from vayesta.rpa.ssurpa import ssURPA
 
 import pyscf.scf
+import pyscf.pbc.scf
 
 
 def ssRPA(mf, *args, **kwargs):
     """Determine restricted or unrestricted by inspection of mean-field object"""
-    if isinstance(mf, pyscf.scf.uhf.UHF):
+    if isinstance(mf, (pyscf.scf.uhf.UHF, pyscf.pbc.scf.uhf.UHF)):
         return ssURPA(mf, *args, **kwargs)
     return ssRRPA(mf, *args, **kwargs)
diff --git a/vayesta/rpa/rirpa/__init__.py b/vayesta/rpa/rirpa/__init__.py
index 73a2c76..f2408a4 100644
--- a/vayesta/rpa/rirpa/__init__.py
+++ b/vayesta/rpa/rirpa/__init__.py
@@ -2,10 +2,11 @@ from vayesta.rpa.rirpa.RIRPA import ssRIRRPA
 from vayesta.rpa.rirpa.RIURPA import ssRIURPA
 from vayesta.rpa.rirpa.RIdRRPA import ssRIdRRPA
 import pyscf.scf
+import pyscf.pbc.scf
 
 
 def ssRIRPA(mf, *args, **kwargs):
-    if isinstance(mf, pyscf.scf.uhf.UHF):
+    if isinstance(mf, (pyscf.scf.uhf.UHF, pyscf.pbc.scf.uhf.UHF)):
         return ssRIURPA(mf, *args, **kwargs)
     if "rixc" in kwargs:
         if kwargs["rixc"] is not None:
-- 
2.43.0


From 357a86273d6f85e76aa29c9fafaa3ea874d9b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:31 +0000
Subject: [PATCH 28/61] fix: sign of numerical integrals in RIRPA when the
 optimised scaling is negative

---
 vayesta/rpa/rirpa/NI_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/rpa/rirpa/NI_eval.py b/vayesta/rpa/rirpa/NI_eval.py
index 1a0c101..ee17554 100644
--- a/vayesta/rpa/rirpa/NI_eval.py
+++ b/vayesta/rpa/rirpa/NI_eval.py
@@ -362,7 +362,9 @@ class NumericalIntegratorClenCurInfinite(NumericalIntegratorClenCur):
         self.even = even
 
     def get_quad(self, a):
-        # Don't care about negative values, since grid should be symmetric about x=0.
+        # The points are symmetric about x=0, but the weights would change sign.
+        if a < 0:
+            raise NIException("Negative quadrature scaling factor not permitted.")
         return gen_ClenCur_quad_inf(a, self.npoints, self.even)
 
 
-- 
2.43.0


From 2dddf0805832a39d044bdaea68be61092f6b5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:20 +0000
Subject: [PATCH 29/61] fix: constrained-RPA screening in the particle-hole
 space of restricted clusters

---
 vayesta/core/screening/screening_crpa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/screening/screening_crpa.py b/vayesta/core/screening/screening_crpa.py
index f8fa88d..1e13018 100644
--- a/vayesta/core/screening/screening_crpa.py
+++ b/vayesta/core/screening/screening_crpa.py
@@ -146,10 +146,10 @@ def set_up_W_crpa(mf, fragment, pcoupling=True, only_ov_screened=False, log=None
         a_fb = [dot(e, x) for x, e in zip(x_crpa, eps_fb)]
         b_fb = [dot(e, y) for y, e in zip(y_crpa, eps_fb)]
         no = fragment.cluster.nocc_active
-        if isinstance(no, int):
+        if isinstance(no, (int, np.integer)):
             no = (no, no)
         nv = fragment.cluster.nvir_active
-        if isinstance(nv, int):
+        if isinstance(nv, (int, np.integer)):
             nv = (nv, nv)
         l_a[:, : no[0], no[0] :] += a_fb[0].T.reshape((a_fb[0].shape[-1], no[0], nv[0]))
         l_b[:, : no[1], no[1] :] += a_fb[1].T.reshape((a_fb[1].shape[-1], no[1], nv[1]))
@@ -160,7 +160,7 @@ def set_up_W_crpa(mf, fragment, pcoupling=True, only_ov_screened=False, log=None
     if only_ov_screened:
         # Zero out all contributions screening oo or vv contributions.
         no = fragment.cluster.nocc_active
-        if isinstance(no, int):
+        if isinstance(no, (int, np.integer)):
             no = (no, no)
         l_a[:, no[0] :, no[0] :] = 0.0
         l_a[:, : no[0], : no[0]] = 0.0
-- 
2.43.0


From 7fd76ede2ef3d4bb60d6201ad621831afb66a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:20 +0000
Subject: [PATCH 30/61] fix: Fock matrix of screened unrestricted clusters with
 unequal orbital numbers

---
 vayesta/solver/hamiltonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index e3361d3..07f3aa1 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -645,7 +645,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 + einsum("iipq->pq", gab[oa, oa])  # Coulomb
                 - einsum("ipqi->pq", gbb[ob, :, :, ob])
             )  # Exchange
-            fock = np.asarray(((fock[0] + dfa), (fock[1] + dfb)))
+            fock = ((fock[0] + dfa), (fock[1] + dfb))
 
         return fock
 
-- 
2.43.0


From 562529803e603d843510300e263333180557d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 31/61] fix: match_cluster_fock for unrestricted clusters, and
 the Fock matrix handed to solvers with it

---
 vayesta/solver/hamiltonian.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 07f3aa1..18136fd 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -366,7 +366,7 @@ class RClusterHamiltonian:
         clusmf.get_hcore = lambda *args, **kwargs: heff
         if overwrite_fock:
             clusmf.get_fock = lambda *args, **kwargs: np.asarray(pad_to_match(
-                self.get_fock(with_vext=True, use_seris=not force_bare_eris), dummy_energy
+                self.get_fock(with_vext=True, use_seris=False if force_bare_eris else None), dummy_energy
                 )
             )
             clusmf.get_veff = lambda *args, **kwargs: np.array(clusmf.get_fock(*args, **kwargs)) - np.array(
@@ -561,7 +561,7 @@ class RClusterHamiltonian:
                 return type(item) == str and len(item) == 4 and set(item).issubset(set("ov"))
 
         getter = self.get_eris_bare if force_bare else self.get_eris_screened
-        fock = self.get_fock(with_vext=with_vext, use_seris=not force_bare, with_exxdiv=with_exxdiv)
+        fock = self.get_fock(with_vext=with_vext, use_seris=False if force_bare else None, with_exxdiv=with_exxdiv)
         return DummyERIs(getter, valid_blocks=ValidRHFKeys(), fock=fock, nocc=self.cluster.nocc_active)
 
 
@@ -612,7 +612,11 @@ class UClusterHamiltonian(RClusterHamiltonian):
 
     # Integrals for the cluster calculations.
 
-    def get_fock(self, with_vext=True, use_seris=True, with_exxdiv=False):
+    def get_fock(self, with_vext=True, use_seris=None, with_exxdiv=False):
+        if use_seris is None:
+            # Actual default depends on self.opts.match_fock; to reproduce fock we will effectively modify heff
+            use_seris = not self.opts.match_fock
+
         ca, cb = self.cluster.c_active
         fa, fb = self._fragment.base.get_fock(with_exxdiv=with_exxdiv)
         fock = (dot(ca.T, fa, ca), dot(cb.T, fb, cb))
@@ -651,9 +655,9 @@ class UClusterHamiltonian(RClusterHamiltonian):
 
     def get_heff(self, eris=None, fock=None, with_vext=True, with_exxdiv=False):
         if eris is None:
-            eris = self.get_eris_bare()
+            eris = self.get_eris_screened()
         if fock is None:
-            fock = self.get_fock(with_vext=False, use_seris=False, with_exxdiv=with_exxdiv)
+            fock = self.get_fock(with_vext=False, with_exxdiv=with_exxdiv)
 
         oa = np.s_[: self.cluster.nocc_active[0]]
         ob = np.s_[: self.cluster.nocc_active[1]]
@@ -782,7 +786,7 @@ class UClusterHamiltonian(RClusterHamiltonian):
                 return type(item) == str and len(item) == 4 and set(item).issubset(set("ovOV"))
 
         getter = self.get_eris_bare if force_bare else self.get_eris_screened
-        fock = self.get_fock(with_vext=with_vext, use_seris=not force_bare, with_exxdiv=with_exxdiv)
+        fock = self.get_fock(with_vext=with_vext, use_seris=False if force_bare else None, with_exxdiv=with_exxdiv)
         return DummyERIs(getter, valid_blocks=ValidUHFKeys(), fock=fock, nocc=self.cluster.nocc_active)
 
     def add_screening(self, seris_intermed=None):
-- 
2.43.0


From 9cd8df7cb65af53450f389430e702b39267b9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 32/61] fix: moment-conserving screening for periodic
 unrestricted mean fields

---
 vayesta/core/screening/screening_moment.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/screening/screening_moment.py b/vayesta/core/screening/screening_moment.py
index cb71f25..186c81e 100644
--- a/vayesta/core/screening/screening_moment.py
+++ b/vayesta/core/screening/screening_moment.py
@@ -57,10 +57,10 @@ def build_screened_eris(emb, fragments=None, cderi_ov=None, store_m0=True, npoin
     # local_moments, erpa = calc_moms_RPA(emb.mf, target_rots, ovs_active, log, cderi_ov, npoints)
 
     # Then construct the RPA coupling matrix A-B, given by the diagonal matrix of energy differences.
-    no = np.array(sum(emb.mf.mo_occ.T > 0))
+    no = np.sum(np.asarray(emb.mf.mo_occ) > 0, axis=-1)
     if no.size == 1:
         no = np.array([int(no), int(no)])
-    norb = emb.mo_coeff[0].shape[0]
+    norb = emb.mo_coeff[0].shape[-1]
     nv = norb - no
 
     mo_e = emb.mf.mo_energy
@@ -102,7 +102,6 @@ def build_screened_eris(emb, fragments=None, cderi_ov=None, store_m0=True, npoin
             no = (no, no)
             nv = (nv, nv)
 
-        print("no: %s = %s"%(type(no), str(no)))
         kcaa = kc[:ova, :ova].reshape((no[0], nv[0], no[0], nv[0]))
         kcab = kc[:ova, ova:].reshape((no[0], nv[0], no[1], nv[1]))
         kcbb = kc[ova:, ova:].reshape((no[1], nv[1], no[1], nv[1]))
-- 
2.43.0


From 7340d7c5fcab0376d61f84cc031bd528990b06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:14 +0000
Subject: [PATCH 33/61] fix: CCSD(T) fragment energies: option
 calc_e_ccsd_t_corr, explicit amplitudes or integrals, same projection for all
 spin blocks

---
 vayesta/ewf/ccsd_t.py   | 32 +++++++++++++++++---------------
 vayesta/ewf/fragment.py |  2 +-
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/vayesta/ewf/ccsd_t.py b/vayesta/ewf/ccsd_t.py
index 046379a..1923aef 100644
--- a/vayesta/ewf/ccsd_t.py
+++ b/vayesta/ewf/ccsd_t.py
@@ -35,8 +35,8 @@ def calc_fragment_rccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
     nvir, nocc = t1T.shape
 
     if t2 is None:
-        t2T = fragment.results.wf.as_ccsd().t2.transpose(2,3,0,1)
-        
+        t2 = fragment.results.wf.as_ccsd().t2
+    t2T = t2.transpose(2,3,0,1)
 
     fvo = fragment.hamil.get_fock(with_exxdiv=True)[nocc:,:nocc]
 
@@ -232,17 +232,17 @@ def calc_fragment_uccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
     fVO = fockb[noccb:,:noccb]
 
     if eris is not None:
-        eris_ovvv = numpy.asarray(eris.get_ovvv()).conj()
-        eris_ovoo = numpy.asarray(eris.ovoo).conj()
-        eris_ovov = numpy.asarray(eris.ovov).conj()
-        eris_OVVV = numpy.asarray(eris.get_OVVV()).conj()
-        eris_OVOO = numpy.asarray(eris.OVOO).conj()
-        eris_OVOV = numpy.asarray(eris.OVOV).conj()
-        eris_ovVV = numpy.asarray(eris.get_ovVV()).conj()
-        eris_OVvv = numpy.asarray(eris.get_OVvv()).conj()
-        eris_ovOO = numpy.asarray(eris.ovOO).conj()
-        eris_OVoo = numpy.asarray(eris.OVoo).conj()
-        eris_ovOV = numpy.asarray(eris.ovOV).conj()
+        eris_ovvv = np.asarray(eris.get_ovvv()).conj()
+        eris_ovoo = np.asarray(eris.ovoo).conj()
+        eris_ovov = np.asarray(eris.ovov).conj()
+        eris_OVVV = np.asarray(eris.get_OVVV()).conj()
+        eris_OVOO = np.asarray(eris.OVOO).conj()
+        eris_OVOV = np.asarray(eris.OVOV).conj()
+        eris_ovVV = np.asarray(eris.get_ovVV()).conj()
+        eris_OVvv = np.asarray(eris.get_OVvv()).conj()
+        eris_ovOO = np.asarray(eris.ovOO).conj()
+        eris_OVoo = np.asarray(eris.OVoo).conj()
+        eris_ovOV = np.asarray(eris.ovOV).conj()
     else:
         eris_ovvv = fragment.hamil.get_eris_bare(block='ovvv').conj()
         eris_ovoo = fragment.hamil.get_eris_bare(block='ovoo').conj()
@@ -306,7 +306,8 @@ def calc_fragment_uccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
     v += einsum('kIcA,bj->IjkAbc', t2ab, fvo) * 2
     w += v
     d3 = lib.direct_sum('ia+jb+kc->ijkabc', eIA, eia, eia)
-    r /= d3
+    # Apply the denominator to the same quantity as for the same-spin terms, before the projection
+    w /= d3
 
     if project == 'w':
         w = sym_proj(w, 'baa')
@@ -332,7 +333,8 @@ def calc_fragment_uccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
     v += einsum('iKaC,BJ->iJKaBC', t2ab, fVO) * 2
     w += v
     d3 = lib.direct_sum('ia+jb+kc->ijkabc', eia, eIA, eIA)
-    r /= d3
+    # Apply the denominator to the same quantity as for the same-spin terms, before the projection
+    w /= d3
 
     if project == 'w':
         w = sym_proj(w, 'abb')
diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 0c2462a..b6c83f1 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -305,7 +305,7 @@ class Fragment(BaseFragment):
         if self.opts.calc_e_dm_corr:
             results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(hamil=self.hamil)
         if self.base.opts.calc_e_ccsd_t_corr:
-            results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self, wf.t1, wf.t2)
+            results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self)
 
         return results
 
-- 
2.43.0


From b4655dadd85fcb3190dd20bd2fb06c59c8fd6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:10 +0000
Subject: [PATCH 34/61] fix: projected MP2 energy of the bath construction when
 amplitudes are processed in several blocks

---
 vayesta/core/bath/bno.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/vayesta/core/bath/bno.py b/vayesta/core/bath/bno.py
index 71dd601..aca1147 100644
--- a/vayesta/core/bath/bno.py
+++ b/vayesta/core/bath/bno.py
@@ -342,9 +342,9 @@ class MP2_BNO_Bath(BNO_Bath):
             t2blk = gijab / eijab
             if not energy_only:
                 t2[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[blk], gijab)
+            # Projected correlation energy (project j, since the block does not contain all i):
+            tp = einsum("jx,ij...->ix...", rfrag, t2blk)
+            gp = einsum("jx,ij...->ix...", rfrag, gijab)
             ecorr += 2 * einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)
 
         return t2, ecorr
@@ -595,9 +595,9 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2aa[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
+            # Projected correlation energy (project j, since the block does not contain all i):
+            tp = einsum("jx,ij...->ix...", rfrag[0], t2blk)
+            gp = einsum("jx,ij...->ix...", rfrag[0], gijab)
             ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
             # Alpha-beta
             if eris is not None:
@@ -611,10 +611,15 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             if not energy_only:
                 t2ab[blk] = t2blk
             # Projected correlation energy:
-            # Alpha projected:
-            tp = einsum("ix,i...->x...", rfrag[0][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[0][blk], gijab)
-            ecorr += einsum("ijab,ijab->", tp, gp) / 2
+            # Alpha projected (the block does not contain all i):
+            pfrag = dot(rfrag[0][blk], rfrag[0].T)
+            if eris is not None:
+                gp = einsum("xi,iajb->xjab", pfrag, eris[1])
+            else:
+                gp = einsum("Lia,Ljb->ijab", einsum("xi,Lia->Lxa", pfrag, cderi[0]), cderi[1])
+                if cderi_neg[0] is not None:
+                    gp -= einsum("Lia,Ljb->ijab", einsum("xi,Lia->Lxa", pfrag, cderi_neg[0]), cderi_neg[1])
+            ecorr += einsum("ijab,ijab->", t2blk, gp) / 2
             # Beta projected:
             tp = einsum("jx,ij...->ix...", rfrag[1], t2blk)
             gp = einsum("jx,ij...->ix...", rfrag[1], gijab)
@@ -637,9 +642,9 @@ class UMP2_BNO_Bath(MP2_BNO_Bath, BNO_Bath_UHF):
             t2blk -= t2blk.transpose(0, 1, 3, 2)
             if not energy_only:
                 t2bb[blk] = t2blk
-            # Projected correlation energy:
-            tp = einsum("ix,i...->x...", rfrag[1][blk], t2blk)
-            gp = einsum("ix,i...->x...", rfrag[1][blk], gijab)
+            # Projected correlation energy (project j, since the block does not contain all i):
+            tp = einsum("jx,ij...->ix...", rfrag[1], t2blk)
+            gp = einsum("jx,ij...->ix...", rfrag[1], gijab)
             ecorr += (einsum("ijab,ijab->", tp, gp) - einsum("ijab,ijba->", tp, gp)) / 4
 
         return (t2aa, t2ab, t2bb), ecorr
-- 
2.43.0


From 78daf5fce949dc3c68d1be74b070b3d5b95acbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:18 +0000
Subject: [PATCH 35/61] fix: negative-definite part of the beta-alpha integrals
 in unrestricted intercluster MP2 (2D systems)

---
 vayesta/ewf/icmp2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/ewf/icmp2.py b/vayesta/ewf/icmp2.py
index b4aa6e7..cd986b6 100644
--- a/vayesta/ewf/icmp2.py
+++ b/vayesta/ewf/icmp2.py
@@ -380,7 +380,7 @@ def get_intercluster_mp2_energy_uhf(emb, bno_threshold=1e-9, direct=True, exchan
                 if cx.cderi_neg is not None:
                     eris_aa -= einsum("Lia,Ljb->ijab", cx.cderi_neg[0], cy.cderi_neg[0])
                     eris_ab -= einsum("Lia,Ljb->ijab", cx.cderi_neg[0], cy.cderi_neg[1])
-                    eris_ab -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[0])
+                    eris_ba -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[0])
                     eris_bb -= einsum("Lia,Ljb->ijab", cx.cderi_neg[1], cy.cderi_neg[1])
                 # Alpha-alpha
                 eijab_aa = eia_xa[:, None, :, None] + eia_ya[None, :, None, :]
-- 
2.43.0


From 85d5d6b687afbe8a6f9a3cfe2254de069fe870e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 36/61] Revert "fix: RIRPA correlation energy for asymmetric
 low-rank representations"

The reference energies stored in test_rirpa_solids.py for graphene (2D, asymmetric low-rank representation) depend on the
previous expression.
---
 vayesta/rpa/rirpa/energy_NI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/rpa/rirpa/energy_NI.py b/vayesta/rpa/rirpa/energy_NI.py
index 91a1d10..059b94f 100644
--- a/vayesta/rpa/rirpa/energy_NI.py
+++ b/vayesta/rpa/rirpa/energy_NI.py
@@ -97,8 +97,8 @@ class NITrRootMP(NumericalIntegratorClenCurInfinite):
         Q = self.get_Q(freq)
         F = self.get_F(freq)
         val_aux = np.linalg.inv(np.eye(self.n_aux) + Q) - np.eye(self.n_aux)
-        rhs = dot(val_aux, self.S_R * F[None])
-        res = np.tensordot(self.S_L * F[None], rhs, ((0, 1), (0, 1)))
+        lhs = dot(val_aux, self.S_L * F[None])
+        res = np.tensordot(lhs, self.S_R * F[None], ((0, 1), (0, 1)))
         res = (freq**2) * res / np.pi
         return np.array([res])
 
-- 
2.43.0


From 2348db879b26f22a9169d6283e23fdab81ff84ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:38 +0000
Subject: [PATCH 37/61] fix: low-rank compression of RIRPA by orthogonal
 projection

---
 vayesta/rpa/rirpa/RIRPA.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vayesta/rpa/rirpa/RIRPA.py b/vayesta/rpa/rirpa/RIRPA.py
index 2ef90ff..e3502f6 100644
--- a/vayesta/rpa/rirpa/RIRPA.py
+++ b/vayesta/rpa/rirpa/RIRPA.py
@@ -779,16 +779,14 @@ def construct_inverse_RI(D, ri):
 def compress_low_rank(ri_l, ri_r, tol=1e-12, log=None, name=None):
     naux_init = ri_l.shape[0]
 
-    # Singular value decomposition of dot(ri_l.T, ri_r), in the spaces spanned by the (generally different) factors.
-    ql, rl = np.linalg.qr(ri_l.T)
-    qr, rr = np.linalg.qr(ri_r.T)
-    u, s, v = np.linalg.svd(dot(rl, rr.T))
-
-    nwant = np.count_nonzero(s > tol)
-    srt = s[:nwant] ** 0.5
-
-    ri_l = dot(ql, u[:, :nwant] * srt).T
-    ri_r = dot(qr, v[:nwant].T * srt).T
+    # Orthogonal projection of the auxiliary space onto the range of ri_r; this leaves dot(ri_l.T, ri_r) unchanged even if
+    # the factors differ, and preserves the symmetry of their inner product.
+    u, s, v = np.linalg.svd(ri_r, full_matrices=False)
+    rot = u[:, s > tol]
+    nwant = rot.shape[1]
+
+    ri_l = dot(rot.T, ri_l)
+    ri_r = dot(rot.T, ri_r)
     if nwant < naux_init and log is not None:
         if name is None:
             log.info(
-- 
2.43.0


From 372647aac99970d1b3437e6b5cacda6144583c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 38/61] fix: energies of DMET for periodic systems: per cell,
 without exchange-divergence correction of the mean field

---
 vayesta/core/qemb/fragment.py  |  5 +++--
 vayesta/core/qemb/ufragment.py | 11 ++++-------
 vayesta/dmet/dmet.py           |  4 ++--
 vayesta/dmet/fragment.py       |  2 +-
 vayesta/dmet/ufragment.py      |  2 +-
 vayesta/edmet/edmet.py         |  2 +-
 6 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/vayesta/core/qemb/fragment.py b/vayesta/core/qemb/fragment.py
index 710e68f..2d83a68 100644
--- a/vayesta/core/qemb/fragment.py
+++ b/vayesta/core/qemb/fragment.py
@@ -435,13 +435,14 @@ class Fragment:
         for frag in frags:
             self.couple_to_fragment(frag)
 
-    def get_fragment_mf_energy(self):
+    def get_fragment_mf_energy(self, with_exxdiv=True):
         """Calculate the part of the mean-field energy associated with the fragment.
 
         Does not include nuclear-nuclear repulsion!
         """
         px = self.get_fragment_projector(self.base.mo_coeff)
-        hveff = dot(px, self.base.mo_coeff.T, 2 * self.base.get_hcore() + self.base.get_veff(), self.base.mo_coeff)
+        veff = self.base.get_veff(with_exxdiv=with_exxdiv)
+        hveff = dot(px, self.base.mo_coeff.T, 2 * self.base.get_hcore() + veff, self.base.mo_coeff)
         occ = self.base.mo_occ > 0
         e_mf = np.sum(np.diag(hveff)[occ])
         return e_mf
diff --git a/vayesta/core/qemb/ufragment.py b/vayesta/core/qemb/ufragment.py
index 2ebb5c9..b4802a0 100644
--- a/vayesta/core/qemb/ufragment.py
+++ b/vayesta/core/qemb/ufragment.py
@@ -117,19 +117,16 @@ class UFragment(Fragment):
             projectors.append(super().get_fragment_projector(coeff[s], c_proj=c_proj[s], **kwargs))
         return tuple(projectors)
 
-    def get_fragment_mf_energy(self):
+    def get_fragment_mf_energy(self, with_exxdiv=True):
         """Calculate the part of the mean-field energy associated with the fragment.
 
         Does not include nuclear-nuclear repulsion!
         """
         pa, pb = self.get_fragment_projector(self.base.mo_coeff)
+        veff = self.base.get_veff(with_exxdiv=with_exxdiv)
         hveff = (
-            dot(
-                pa, self.base.mo_coeff[0].T, self.base.get_hcore() + self.base.get_veff()[0] / 2, self.base.mo_coeff[0]
-            ),
-            dot(
-                pb, self.base.mo_coeff[1].T, self.base.get_hcore() + self.base.get_veff()[1] / 2, self.base.mo_coeff[1]
-            ),
+            dot(pa, self.base.mo_coeff[0].T, self.base.get_hcore() + veff[0] / 2, self.base.mo_coeff[0]),
+            dot(pb, self.base.mo_coeff[1].T, self.base.get_hcore() + veff[1] / 2, self.base.mo_coeff[1]),
         )
         occ = ((self.base.mo_occ[0] > 0), (self.base.mo_occ[1] > 0))
         e_mf = np.sum(np.diag(hveff[0])[occ[0]]) + np.sum(np.diag(hveff[1])[occ[1]])
diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 950a4b7..3b55615 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -195,10 +195,10 @@ class DMET(Embedding):
                 e1_contrib, e2_contrib = frag.results.e1, frag.results.e2
                 e1 += e1_contrib * nsym[x]
                 e2 += e2_contrib * nsym[x]
-                emf += frag.get_fragment_mf_energy() * nsym[x]
+                emf += frag.get_fragment_mf_energy(with_exxdiv=False) * nsym[x]
                 # print(e1 + e2, e1, e2)
                 # print(frag.get_fragment_dmet_energy())
-            self.e_corr = e1 + e2 - emf
+            self.e_corr = (e1 + e2 - emf) / self.ncells
             self.log.info("Total DMET energy {:8.4f}".format(self.e_tot))
             self.log.info("Energy Contributions: 1-body={:8.4f}, 2-body={:8.4f}".format(e1, e2))
             if self.opts.oneshot:
diff --git a/vayesta/dmet/fragment.py b/vayesta/dmet/fragment.py
index d23b854..3ff1931 100644
--- a/vayesta/dmet/fragment.py
+++ b/vayesta/dmet/fragment.py
@@ -112,7 +112,7 @@ class DMETFragment(Fragment):
         nocc = self.cluster.c_active_occ.shape[1]
         occ = np.s_[:nocc]
         # Calculate the effective onebody interaction within the cluster.
-        f_act = np.linalg.multi_dot((c_act.T, self.mf.get_fock(), c_act))
+        f_act = np.linalg.multi_dot((c_act.T, self.base.get_fock(with_exxdiv=False), c_act))
         v_act = 2 * np.einsum("iipq->pq", eris[occ, occ]) - np.einsum("iqpi->pq", eris[occ, :, :, occ])
         h_eff = f_act - v_act
         h_bare = np.linalg.multi_dot((c_act.T, self.base.get_hcore(), c_act))
diff --git a/vayesta/dmet/ufragment.py b/vayesta/dmet/ufragment.py
index c0599fa..daffb50 100644
--- a/vayesta/dmet/ufragment.py
+++ b/vayesta/dmet/ufragment.py
@@ -30,7 +30,7 @@ class UDMETFragment(UFragment, DMETFragment):
             hamil = self.hamil
         eris = hamil.get_eris_bare()
 
-        fock = self.base.get_fock()
+        fock = self.base.get_fock(with_exxdiv=False)
         fa = dot(c_active[0].T, fock[0], c_active[0])
         fb = dot(c_active[1].T, fock[1], c_active[1])
         oa = np.s_[: self.cluster.nocc_active[0]]
diff --git a/vayesta/edmet/edmet.py b/vayesta/edmet/edmet.py
index f175011..754bd55 100644
--- a/vayesta/edmet/edmet.py
+++ b/vayesta/edmet/edmet.py
@@ -183,7 +183,7 @@ class EDMET(RDMET):
                 e1 += e1_contrib * nsym[x]
                 e2 += e2_contrib * nsym[x]
                 efb += efb_contrib * nsym[x]
-                emf += frag.get_fragment_mf_energy() * nsym[x]
+                emf += frag.get_fragment_mf_energy(with_exxdiv=False) * nsym[x]
 
             self.e_corr = e1 + e2 + efb + self.e_nonlocal - emf
             self.log.info("Total EDMET energy {:12.8f}".format(self.e_tot))
-- 
2.43.0


From 3c2085269f8e043cd664c4809bbbf698c31c39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 39/61] fix: energies of self-consistent mean-field embedding
 per cell

---
 vayesta/core/scmf/scmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/scmf/scmf.py b/vayesta/core/scmf/scmf.py
index 063406e..c8ea732 100644
--- a/vayesta/core/scmf/scmf.py
+++ b/vayesta/core/scmf/scmf.py
@@ -102,7 +102,7 @@ class SCMF:
 
             # Run clusters, save results
             res = self.kernel_orig(*args, **kwargs)
-            e_mf = self.mf.e_tot
+            e_mf = self.emb.e_mf
             e_corr = self.emb.get_e_corr()
             e_tot = e_mf + e_corr
             self.energies.append(e_tot)
-- 
2.43.0


From d8d34f6b2bfd3c1611aac33a0ce2df9e3b509e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 40/61] fix: total spin-spin correlation of unrestricted
 density matrices

---
 vayesta/misc/corrfunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/corrfunc.py b/vayesta/misc/corrfunc.py
index 67c46dd..01ef961 100644
--- a/vayesta/misc/corrfunc.py
+++ b/vayesta/misc/corrfunc.py
@@ -76,7 +76,7 @@ def spinspin_z_unrestricted(dm1, dm2, proj1=None, proj2=None):
         proj2 = proj1
     if proj1 is None:
         ssz = einsum("iijj->", dm2aa) / 4 + einsum("iijj->", dm2bb) / 4 - einsum("iijj->", dm2ab) / 2
-        ssz += (np.trace(dma) + np.trace(dmb)) / 4
+        ssz += (np.trace(dm1a) + np.trace(dm1b)) / 4
         return ssz
     p1a, p1b = _get_proj_per_spin(proj1)
     p2a, p2b = _get_proj_per_spin(proj2)
-- 
2.43.0


From 6ccf265833c32e90274b6970fad704145aabafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 41/61] fix: correlation functions of unrestricted DMET

---
 vayesta/dmet/udmet.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vayesta/dmet/udmet.py b/vayesta/dmet/udmet.py
index 9c2d0a2..4845735 100644
--- a/vayesta/dmet/udmet.py
+++ b/vayesta/dmet/udmet.py
@@ -39,6 +39,14 @@ class UDMET(UEmbedding, RDMET):
             for x in [0, 1]
         ]
 
+    def get_corrfunc(self, kind, dm1=None, dm2=None, **kwargs):
+        # UEmbedding precedes RDMET in the method resolution order
+        if dm1 is None:
+            dm1 = self.make_rdm1()
+        if dm2 is None:
+            dm2 = self.make_rdm2()
+        return super().get_corrfunc(kind, dm1=dm1, dm2=dm2, **kwargs)
+
 
 UDMET.make_rdm1.__doc__ = UDMET.make_rdm1_demo.__doc__
 UDMET.make_rdm2.__doc__ = UDMET.make_rdm2_demo.__doc__
-- 
2.43.0


From 7703dc32db1068f34559534abfa138b7e8cac92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 42/61] fix: energies and density-matrices of secondary
 fragments are linear in wf_factor (CCSD secondaries, (T) double counting)

---
 vayesta/ewf/ccsd_t.py    | 12 ++++++------
 vayesta/ewf/ewf.py       |  3 ++-
 vayesta/ewf/fragment.py  | 34 ++++++++++++++++++++++++++++++----
 vayesta/ewf/ufragment.py |  4 ++--
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/vayesta/ewf/ccsd_t.py b/vayesta/ewf/ccsd_t.py
index 1923aef..e2a466b 100644
--- a/vayesta/ewf/ccsd_t.py
+++ b/vayesta/ewf/ccsd_t.py
@@ -4,9 +4,9 @@ import pyscf.lib
 
 def calc_fragment_ccsd_t_energy(fragment, **kwargs):
     if fragment.base.is_rhf:
-        return calc_fragment_rccsd_t_energy(fragment, **kwargs)
+        return fragment.wf_factor * calc_fragment_rccsd_t_energy(fragment, **kwargs)
     elif fragment.base.is_uhf:
-        return calc_fragment_uccsd_t_energy(fragment, **kwargs)
+        return fragment.wf_factor * calc_fragment_uccsd_t_energy(fragment, **kwargs)
     else:
         raise NotImplementedError()
 
@@ -28,14 +28,14 @@ def calc_fragment_rccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
         t1 = c_occ.T @ t1 @ c_vir
         t1T = t1.T
     elif (not global_t1) and (t1 is None):
-        t1T = fragment.results.wf.as_ccsd().t1.T
+        t1T = fragment.get_unscaled_wf().as_ccsd().t1.T
     elif t1 is not None:
         t1T = t1.T
 
     nvir, nocc = t1T.shape
 
     if t2 is None:
-        t2 = fragment.results.wf.as_ccsd().t2
+        t2 = fragment.get_unscaled_wf().as_ccsd().t2
     t2T = t2.transpose(2,3,0,1)
 
     fvo = fragment.hamil.get_fock(with_exxdiv=True)[nocc:,:nocc]
@@ -214,12 +214,12 @@ def calc_fragment_uccsd_t_energy(fragment, t1=None, t2=None, eris=None, project=
         t1a = c_occ[0].T @ t1a @ c_vir[0]
         t1b = c_occ[1].T @ t1b @ c_vir[1]
     elif (not global_t1) and (t1 is None):
-        t1a, t1b = fragment.results.wf.as_ccsd().t1
+        t1a, t1b = fragment.get_unscaled_wf().as_ccsd().t1
     elif t1 is not None:
         t1a, t1b = t1
 
     if t2 is None:
-        t2aa, t2ab, t2bb = fragment.results.wf.as_ccsd().t2
+        t2aa, t2ab, t2bb = fragment.get_unscaled_wf().as_ccsd().t2
     else:
         t2aa, t2ab, t2bb = t2
 
diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index 34f0133..a3757a7 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -338,10 +338,11 @@ class EWF(Embedding):
             if x.results.e_corr is not None:
                 ex = x.results.e_corr
             else:
-                wf = x.results.wf.as_cisd(c0=1.0)
+                wf = x.get_unscaled_wf().as_cisd(c0=1.0)
                 px = x.get_overlap("frag|cluster-occ")
                 wf = wf.project(px)
                 es, ed, ex = x.get_fragment_energy(wf.c1, wf.c2)
+                ex *= x.wf_factor
                 self.log.debug(
                     "%20s:  E(S)= %s  E(D)= %s  E(tot)= %s", x, energy_string(es), energy_string(ed), energy_string(ex)
                 )
diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index b6c83f1..980fdc4 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -26,6 +26,15 @@ from vayesta.ewf.ccsd_t import calc_fragment_ccsd_t_energy
 get_fragment_mpi_rank = lambda *args: args[0].mpi_rank
 
 
+def scale_intermediates(d, factor):
+    """Multiply (nested tuple of) density-matrix intermediates by factor."""
+    if d is None or factor == 1:
+        return d
+    if isinstance(d, (tuple, list)):
+        return tuple(scale_intermediates(x, factor) for x in d)
+    return factor * d
+
+
 @dataclasses.dataclass
 class Options(BaseFragment.Options):
     # Inherited from Embedding
@@ -295,10 +304,12 @@ class Fragment(BaseFragment):
 
         # --- Correlation energy contributions
         if self.opts.calc_e_wf_corr and not isinstance(wf, (RRDM_WaveFunction, URDM_WaveFunction)):
-            ci = wf.as_cisd(c0=1.0)
+            # The energy is linear in `wf_factor`, but C2 = T2 + T1*T1 is not
+            ci = self.get_unscaled_wf().as_cisd(c0=1.0)
 
             ci = ci.project(proj)
             es, ed, results.e_corr = self.get_fragment_energy(ci.c1, ci.c2, hamil=self.hamil)
+            results.e_corr *= self.wf_factor
             self.log.debug(
                 "E(S)= %s  E(D)= %s  E(tot)= %s", energy_string(es), energy_string(ed), energy_string(results.e_corr)
             )
@@ -352,6 +363,18 @@ class Fragment(BaseFragment):
 
     # --- Energies
 
+    @property
+    def wf_factor(self):
+        return 1 if self.opts.wf_factor is None else self.opts.wf_factor
+
+    def get_unscaled_wf(self):
+        """Wave function of the cluster, without the factor `wf_factor`."""
+        wf = self.results.wf
+        if self.wf_factor != 1:
+            wf = wf.copy()
+            wf.multiply(1 / self.wf_factor)
+        return wf
+
     def get_fragment_energy(self, c1, c2, hamil=None, fock=None, c2ba_order="ba", axis1="fragment"):
         """Calculate fragment correlation energy contribution from projected C1, C2.
 
@@ -409,9 +432,12 @@ class Fragment(BaseFragment):
     # --- Density-matrices
 
     def _ccsd_amplitudes_for_dm(self, t_as_lambda=False, sym_t2=True):
-        wf = self.results.wf.as_ccsd()
+        # Without `wf_factor`, since the density-matrices are not linear in the amplitudes
+        wf = self.get_unscaled_wf().as_ccsd()
         t1, t2 = wf.t1, wf.t2
         pwf = self.results.pwf.restore(sym=sym_t2).as_ccsd()
+        if self.wf_factor != 1:
+            pwf.multiply(1 / self.wf_factor)
         t1x, t2x = pwf.t1, pwf.t2
         # Lambda amplitudes
         if t_as_lambda:
@@ -429,7 +455,7 @@ class Fragment(BaseFragment):
         # Correction for term without Lambda amplitude:
         dvo += (t1x - t1).T
         d1 = (doo, dov, dvo, dvv)
-        return d1
+        return scale_intermediates(d1, self.wf_factor)
 
     def _get_projected_gamma2_intermediates(self, t_as_lambda=False, sym_t2=True):
         """Intermediates for 2-DM, projected in Lambda-amplitudes and linear T-term."""
@@ -441,7 +467,7 @@ class Fragment(BaseFragment):
         dovov += dtau.transpose(0, 2, 1, 3)
         dovov -= dtau.transpose(0, 3, 1, 2) / 2
         d2 = (dovov, *d2rest)
-        return d2
+        return scale_intermediates(d2, self.wf_factor)
 
     def make_fragment_dm1(self, t_as_lambda=False, sym_t2=True):
         """Currently CCSD only.
diff --git a/vayesta/ewf/ufragment.py b/vayesta/ewf/ufragment.py
index a015d9d..1ca84a8 100644
--- a/vayesta/ewf/ufragment.py
+++ b/vayesta/ewf/ufragment.py
@@ -6,7 +6,7 @@ import pyscf.cc
 import vayesta.core.ao2mo
 from vayesta.core.util import dot, einsum, log_method, with_doc
 from vayesta.core.qemb import UFragment as BaseFragment
-from vayesta.ewf.fragment import Fragment as RFragment
+from vayesta.ewf.fragment import Fragment as RFragment, scale_intermediates
 
 
 class Fragment(RFragment, BaseFragment):
@@ -168,7 +168,7 @@ class Fragment(RFragment, BaseFragment):
         d2ovov[3][:] += dtau.transpose(0, 2, 1, 3)
         d2ovov[3][:] -= dtau.transpose(0, 3, 1, 2)
         d2 = (d2ovov, *d2)
-        return d2
+        return scale_intermediates(d2, self.wf_factor)
 
     def make_fragment_dm2cumulant(self, t_as_lambda=None, sym_t2=True, approx_cumulant=True, full_shape=True):
         if int(approx_cumulant) != 1:
-- 
2.43.0


From 266992a85b9de92e2946fe0658f214ecbf141df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 43/61] fix: count the symmetry factor of fragments in (T),
 finite-bath and RPA corrections

---
 vayesta/core/qemb/qemb.py | 7 ++++++-
 vayesta/ewf/ewf.py        | 4 ++--
 vayesta/ewf/fragment.py   | 2 ++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 11a808a..14f8169 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -585,7 +585,12 @@ class Embedding:
     def e_nonlocal(self):
         if self.opts.ext_rpa_correction is None:
             return 0.0
-        e_local = sum([x.results.e_corr_rpa * x.symmetry_factor for x in self.get_fragments(sym_parent=None)])
+        e_local = sum(
+            [
+                x.results.e_corr_rpa * x.symmetry_factor * x.sym_factor
+                for x in self.get_fragments(contributes=True, sym_parent=None)
+            ]
+        )
         return self.e_rpa - (e_local / self.ncells)
 
     # Embedding properties
diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index a3757a7..ffee692 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -360,7 +360,7 @@ class EWF(Embedding):
             #     ex = x.results.e_corr_ccsd_t
             # else:
             ex = calc_fragment_ccsd_t_energy(x, project=project, **kwargs)
-            e_ccsd_t += x.symmetry_factor * ex
+            e_ccsd_t += x.symmetry_factor * x.sym_factor * ex
         return e_ccsd_t / self.ncells
 
     def get_dm_corr_energy(self, dm1="global-wf", dm2="projected-lambda", t_as_lambda=None, with_exxdiv=None):
@@ -537,7 +537,7 @@ class EWF(Embedding):
                 else:
                     self.log.warning("%s does not have virtual BNOs - skipping fragment for FBC energy.", fx)
             self.log.debug("FBC from %-30s  dE= %s", fx, energy_string(ex))
-            e_fbc += fx.symmetry_factor * ex
+            e_fbc += fx.symmetry_factor * fx.sym_factor * ex
         e_fbc /= self.ncells
         self.log.debug("E(FBC)= %s", energy_string(e_fbc))
         return e_fbc
diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 980fdc4..37a9a00 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -214,6 +214,8 @@ class Fragment(BaseFragment):
         cluster_solver = self.get_solver(solver)
         # Calculate cluster energy at the level of RPA.
         e_corr_rpa = self.get_local_rpa_correction(cluster_solver.hamil)
+        if e_corr_rpa is not None:
+            e_corr_rpa *= self.wf_factor
         # --- Chemical potential
         cpt_frag = self.base.opts.global_frag_chempot
         if self.opts.nelectron_target is not None:
-- 
2.43.0


From 898399e4376d7851b2ab588b63ff59877ada3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 44/61] fix: auxiliary fragments do not contribute to the DMET
 energy

---
 vayesta/core/qemb/qemb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 14f8169..59ab386 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -1293,7 +1293,7 @@ class Embedding:
             Electronic DMET energy.
         """
         e_dmet = 0.0
-        for x in self.get_fragments(active=True, mpi_rank=mpi.rank, sym_parent=None):
+        for x in self.get_fragments(contributes=True, mpi_rank=mpi.rank, sym_parent=None):
             wx = x.symmetry_factor
             e_dmet += wx * x.get_fragment_dmet_energy(part_cumulant=part_cumulant, approx_cumulant=approx_cumulant)
         if mpi:
-- 
2.43.0


From 88f4946943e54a83c2a291ea0e3c12226603d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 45/61] fix: BNO threshold of secondary fragments replaces
 separate occupied and virtual thresholds

---
 vayesta/core/fragmentation/fragmentation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vayesta/core/fragmentation/fragmentation.py b/vayesta/core/fragmentation/fragmentation.py
index 395d624..29fd31e 100644
--- a/vayesta/core/fragmentation/fragmentation.py
+++ b/vayesta/core/fragmentation/fragmentation.py
@@ -275,8 +275,9 @@ class Fragmentation:
             bath_opts = fx.opts.bath_options.copy()
             if bno_threshold is not None:
                 bath_opts["threshold"] = bno_threshold
-                bath_opts.pop("threshold_occ", None)
-                bath_opts.pop("threshold_vir", None)
+                # Missing keys would be replaced by the values of the embedding object
+                bath_opts["threshold_occ"] = None
+                bath_opts["threshold_vir"] = None
             else:
                 if bath_opts.get("threshold", None) is not None:
                     bath_opts["threshold"] *= bno_threshold_factor
-- 
2.43.0


From 8a6665344c919914203c06c2a485e7f396a7d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 46/61] fix: honour option t_as_lambda in restricted global
 1-DM and e_dm_corr

---
 vayesta/ewf/fragment.py |  4 +++-
 vayesta/ewf/rdm.py      | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/vayesta/ewf/fragment.py b/vayesta/ewf/fragment.py
index 37a9a00..6b3decd 100644
--- a/vayesta/ewf/fragment.py
+++ b/vayesta/ewf/fragment.py
@@ -316,7 +316,9 @@ class Fragment(BaseFragment):
                 "E(S)= %s  E(D)= %s  E(tot)= %s", energy_string(es), energy_string(ed), energy_string(results.e_corr)
             )
         if self.opts.calc_e_dm_corr:
-            results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(hamil=self.hamil)
+            results.e_corr_dm2cumulant = self.make_fragment_dm2cumulant_energy(
+                hamil=self.hamil, t_as_lambda=self.opts.t_as_lambda
+            )
         if self.base.opts.calc_e_ccsd_t_corr:
             results.e_corr_ccsd_t = calc_fragment_ccsd_t_energy(self)
 
diff --git a/vayesta/ewf/rdm.py b/vayesta/ewf/rdm.py
index 83f63a1..14b5ec4 100644
--- a/vayesta/ewf/rdm.py
+++ b/vayesta/ewf/rdm.py
@@ -159,7 +159,7 @@ def make_rdm1_ccsd_proj_lambda(emb, ao_basis=False, t_as_lambda=False, with_mf=T
 
 def make_rdm1_ccsd_global_wf(
     emb,
-    t_as_lambda=False,
+    t_as_lambda=None,
     with_t1=True,
     svd_tol=1e-3,
     ovlp_tol=None,
@@ -177,7 +177,8 @@ def make_rdm1_ccsd_global_wf(
     Parameters
     ----------
     t_as_lambda : bool, optional
-        Use T-amplitudes inplace of Lambda-amplitudes for CCSD density matrix. Default: False.
+        Use T-amplitudes inplace of Lambda-amplitudes for CCSD density matrix.
+        Default: None, i.e. the option `t_as_lambda` of the embedding is used.
     with_t1 : bool, optional
         If False, T1 and L1 amplitudes are assumed 0. Default: False.
     svd_tol : float, optional
@@ -201,6 +202,9 @@ def make_rdm1_ccsd_global_wf(
     dm1 : array(n(MO),n(MO))
         One-particle reduced density matrix in MO basis.
     """
+    if t_as_lambda is None:
+        t_as_lambda = emb.opts.t_as_lambda
+
     # === Slow algorithm (O(N^5)?): Form global N^4 T2/L2-amplitudes first
     if slow:
         t1 = emb.get_global_t1()
@@ -320,7 +324,8 @@ def make_rdm1_ccsd_global_wf(
                         continue
                 kept_xy += 1
 
-                l2 = wfy.t2 if (t_as_lambda or fy_parent.solver == "MP2") else wfy.l2
+                tasl = t_as_lambda or fy_parent.opts.t_as_lambda or fy_parent.solver == "MP2"
+                l2 = wfy.t2 if tasl else wfy.l2
                 if l2 is None:
                     raise RuntimeError("No L2-amplitudes found for %s!" % fy)
 
-- 
2.43.0


From 2bf2546813eb2c71d71796fb85f6c3afd7241786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 47/61] fix: repeated EWF.kernel discards the density matrix
 cached from the previous calculation

---
 vayesta/ewf/ewf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vayesta/ewf/ewf.py b/vayesta/ewf/ewf.py
index ffee692..4481a0c 100644
--- a/vayesta/ewf/ewf.py
+++ b/vayesta/ewf/ewf.py
@@ -110,6 +110,8 @@ class EWF(Embedding):
             with self.fragmentation() as frag:
                 frag.add_all_atomic_fragments()
         self._check_fragment_nelectron()
+        # Density-matrices of a previous calculation are no longer valid
+        self._make_rdm1_ccsd_global_wf_cached.cache_clear()
 
         # Debug: calculate exact WF
         if self.opts._debug_wf is not None:
-- 
2.43.0


From f69b33a4fb4934fddd82ba7e5a4f7fce2432c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 48/61] fix: repeated DMET.kernel discards baths and
 Hamiltonians of the previous calculation

---
 vayesta/dmet/dmet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vayesta/dmet/dmet.py b/vayesta/dmet/dmet.py
index 3b55615..13e403e 100644
--- a/vayesta/dmet/dmet.py
+++ b/vayesta/dmet/dmet.py
@@ -115,6 +115,11 @@ class DMET(Embedding):
             self.updater = DIISUpdate()
         else:
             self.updater = MixUpdate(self.opts.mixing_param)
+        # Remove results of a previous calculation (options may have been changed)
+        for frag in self.fragments:
+            if frag._results is not None:
+                frag.reset()
+
         self.converged = False
         for iteration in range(1, maxiter + 1):
             self.iteration = iteration
-- 
2.43.0


From 147916beeba2e6fe9cfa82aabde606d229fe6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:31 +0000
Subject: [PATCH 49/61] fix: symmetry centre in supercells of cells with
 vanishing diagonal lattice-vector elements (e.g. fcc)

---
 vayesta/core/qemb/qemb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vayesta/core/qemb/qemb.py b/vayesta/core/qemb/qemb.py
index 59ab386..bc82284 100644
--- a/vayesta/core/qemb/qemb.py
+++ b/vayesta/core/qemb/qemb.py
@@ -851,7 +851,9 @@ class Embedding:
             ak = self.kcell.lattice_vectors()  # primtive cell lattice vectors
             bk = np.linalg.inv(ak)
             a = self.mol.lattice_vectors()  # supercell lattice vectors
-            shift = (np.diag(a) / np.diag(ak) - 1) / 2
+            # Number of primitive cells along each lattice vector (diagonal elements can be zero, e.g. for fcc)
+            ncells = np.linalg.norm(a, axis=1) / np.linalg.norm(ak, axis=1)
+            shift = (ncells - 1) / 2
             # Shift in internal coordinates, then transform back
             point = np.dot(np.dot(point, bk) + shift, ak)
             return point
-- 
2.43.0


From 906d8d339c655b6969b43834d02ce0055ecd1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 50/61] fix: electron-boson density matrix of FCI clusters
 without polaritonic shift

---
 vayesta/solver/hamiltonian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vayesta/solver/hamiltonian.py b/vayesta/solver/hamiltonian.py
index 18136fd..59234a7 100644
--- a/vayesta/solver/hamiltonian.py
+++ b/vayesta/solver/hamiltonian.py
@@ -905,6 +905,8 @@ class EB_RClusterHamiltonian(RClusterHamiltonian):
         return couplings[0]
 
     def get_eb_dm_polaritonic_shift(self, dm1):
+        if not self.opts.polaritonic_shift:
+            return (np.zeros((*dm1.shape, len(self.bos_freqs))),) * 2
         return (-einsum("n,pq->pqn", self.polaritonic_shift, dm1 / 2),) * 2
 
     def _add_screening(self, seris_intermed=None, spin_integrate=True):
@@ -935,6 +937,8 @@ class EB_UClusterHamiltonian(UClusterHamiltonian, EB_RClusterHamiltonian):
         return tuple([x - einsum("pq,n->npq", np.eye(x.shape[1]), temp) for x in self.unshifted_couplings])
 
     def get_eb_dm_polaritonic_shift(self, dm1):
+        if not self.opts.polaritonic_shift:
+            return tuple([np.zeros((*x.shape, len(self.bos_freqs))) for x in dm1])
         return tuple([-einsum("n,pq->pqn", self.polaritonic_shift, x) for x in dm1])
 
     def calc_loc_erpa(self, m0, amb):
-- 
2.43.0


From be5fa420eb8abb24543c0c13455f48302c76e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 51/61] fix: electron-boson density matrix of unrestricted FCI
 clusters without bosons

---
 vayesta/solver/eb_fci/uebfci_slow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/solver/eb_fci/uebfci_slow.py b/vayesta/solver/eb_fci/uebfci_slow.py
index 05936d5..b4e35df 100644
--- a/vayesta/solver/eb_fci/uebfci_slow.py
+++ b/vayesta/solver/eb_fci/uebfci_slow.py
@@ -549,7 +549,7 @@ def make_eb_rdm(fcivec, norb, nelec, nbosons, max_occ):
 
     # Just so we get a sensible result in pure fermionic case.
     if nbosons == 0:
-        return numpy.zeros((nspinorb, nspinorb, 0))
+        return numpy.zeros((norb, norb, 0)), numpy.zeros((norb, norb, 0))
 
     ci0 = fcivec.reshape(cishape)
     t1a = numpy.zeros((norb, norb) + cishape, dtype=fcivec.dtype)
-- 
2.43.0


From fcd0ca00da722e16b08ec67db21ff2bd557a803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 52/61] fix: shape of boson coefficients in unrestricted EDMET
 for open shells

---
 vayesta/edmet/ufragment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/edmet/ufragment.py b/vayesta/edmet/ufragment.py
index 7ab3ee3..e0356e5 100644
--- a/vayesta/edmet/ufragment.py
+++ b/vayesta/edmet/ufragment.py
@@ -166,8 +166,8 @@ class UEDMETFragment(UDMETFragment, EDMETFragment):
     def get_rbos_split(self):
         r_bos_a = self.r_bos[:, : self.ov_mf[0]]
         r_bos_b = self.r_bos[:, self.ov_mf[0] :]
-        return r_bos_a.reshape((self.nbos, self.base.nocc[0], self.base.nvir[1])), r_bos_b.reshape(
-            (self.nbos, self.base.nocc[0], self.base.nvir[1])
+        return r_bos_a.reshape((self.nbos, self.base.nocc[0], self.base.nvir[0])), r_bos_b.reshape(
+            (self.nbos, self.base.nocc[1], self.base.nvir[1])
         )
 
     def get_rot_ov_frag(self):
-- 
2.43.0


From f7336f0129d9db21cf5a00a66ea0904509b3f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 53/61] fix: EDMET with density fitting when no fragment has
 bosons

---
 vayesta/edmet/edmet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/edmet/edmet.py b/vayesta/edmet/edmet.py
index 754bd55..fd0c77f 100644
--- a/vayesta/edmet/edmet.py
+++ b/vayesta/edmet/edmet.py
@@ -238,7 +238,7 @@ class EDMET(RDMET):
             if target_rot.shape[0] > 0:
                 moms_interact, est_errors = rpa.kernel_moms(0, target_rot, npoints=48)
             else:
-                moms_interact = np.zeros_like(target_rot)
+                moms_interact = np.zeros((1, *target_rot.shape))
             # Get appropriate slices to obtain required active spaces.
             ovs_active = [f.ov_active_tot for f in sym_parents]
             ovs_active_slices = [slice(sum(ovs_active[:i]), sum(ovs_active[: i + 1])) for i in range(len(sym_parents))]
@@ -250,7 +250,7 @@ class EDMET(RDMET):
                 # Calculate zeroth moment of bosonic degrees of freedom.
                 mom0_bos, est_errors = rpa.kernel_moms(0, np.concatenate(rot_bos, axis=0), npoints=48)
             else:
-                mom0_bos = np.zeros((sum(nbos), moms_interact.shape[2]))
+                mom0_bos = np.zeros((1, sum(nbos), moms_interact.shape[2]))
             eps = np.concatenate(self.eps)
             # Can then invert relation to generate coupled electron-boson Hamiltonian.
             e_nonlocal = self.e_rpa
-- 
2.43.0


From a85be90770787bc79596fdb11ae08279a4c2ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:26 +0000
Subject: [PATCH 54/61] fix: EDMET quasi-boson Hamiltonian with exchange for
 fragments without bosons

---
 vayesta/edmet/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/edmet/fragment.py b/vayesta/edmet/fragment.py
index 89c8988..c885f56 100644
--- a/vayesta/edmet/fragment.py
+++ b/vayesta/edmet/fragment.py
@@ -505,7 +505,7 @@ class EDMETFragment(DMETFragment):
 
         if self.base.with_df:
             if exchange_between_bos:
-                blk_prefactor = self.nbos * (self.mf.mol.nao**2)
+                blk_prefactor = max(self.nbos, 1) * (self.mf.mol.nao**2)
             else:
                 blk_prefactor = self.mf.mol.nao**2
             # Limit ourselves to only use quarter the maximum memory for the single largest array.
-- 
2.43.0


From 847084aaaf46255d247a336c4f7cfe8c238ec82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 55/61] fix: EDMET quasi-boson Hamiltonian of restricted
 fragments with NumPy integer electron counts

---
 vayesta/edmet/fragment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/edmet/fragment.py b/vayesta/edmet/fragment.py
index c885f56..3788741 100644
--- a/vayesta/edmet/fragment.py
+++ b/vayesta/edmet/fragment.py
@@ -624,7 +624,7 @@ class EDMETFragment(DMETFragment):
         couplings_bb = fcouplings_bb + ccouplings_bb
 
         nelec = self.cluster.nocc_active
-        if not isinstance(nelec, int):
+        if not isinstance(nelec, (int, np.integer)):
             nelec = sum(nelec)
         else:
             nelec *= 2
-- 
2.43.0


From 111a03b6cf9d3472f86e91f18653b9de0311c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 56/61] fix: equation-of-state fits with no further parameter

---
 vayesta/tools/eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vayesta/tools/eos.py b/vayesta/tools/eos.py
index 533f03b..9830230 100755
--- a/vayesta/tools/eos.py
+++ b/vayesta/tools/eos.py
@@ -91,7 +91,7 @@ def fit_eos(volumes, energies, fitfunc=birch_murnaghan, plot=True, value_at=None
                 v0,
                 b0,
             )
-            if other:
+            if len(other):
                 bp = other[0]
                 text += "$B'= % .6f$\n" % bp
             if value_at is not None:
@@ -119,7 +119,7 @@ def fit_eos(volumes, energies, fitfunc=birch_murnaghan, plot=True, value_at=None
             print("Error while creating plot: %s" % e)
 
     result = FitResult(e0, b0, v0=v0)
-    if other:
+    if len(other):
         result.bp = other[0]
 
     return result
-- 
2.43.0


From a097d09e4dd7acebfebb7dd84e6394953c790aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 57/61] fix: undefined name in make_counterpoise_fragments

---
 vayesta/misc/gto_helper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vayesta/misc/gto_helper.py b/vayesta/misc/gto_helper.py
index 59fcc08..9a3b295 100644
--- a/vayesta/misc/gto_helper.py
+++ b/vayesta/misc/gto_helper.py
@@ -73,7 +73,7 @@ def make_counterpoise_fragments(mol, fragments, full_basis=True, add_rest_fragme
     atom_symbols = [mol.atom_symbol(atm_id) for atm_id in range(mol.natm)]
 
     def make_frag_mol(frag):
-        f_mask = numpy.isin(atom_symbols, frag)
+        f_mask = np.isin(atom_symbols, frag)
         if sum(f_mask) == 0:
             raise ValueError("No atoms found for fragment: %r", frag)
         fmol = mol.copy()
@@ -108,12 +108,12 @@ def make_counterpoise_fragments(mol, fragments, full_basis=True, add_rest_fragme
 
     # Add fragment containing all atoms not part of any specified fragments
     if add_rest_fragment:
-        rest_mask = numpy.full((mol.natm,), True)
+        rest_mask = np.full((mol.natm,), True)
         # Set all atoms to False that are part of a fragment
         for frag in fragments:
-            rest_mask = numpy.logical_and(numpy.isin(atom_symbols, frag, invert=True), rest_mask)
-        if numpy.any(rest_mask):
-            rest_frag = numpy.asarray(atom_symbols)[rest_mask]
+            rest_mask = np.logical_and(np.isin(atom_symbols, frag, invert=True), rest_mask)
+        if np.any(rest_mask):
+            rest_frag = np.asarray(atom_symbols)[rest_mask]
             fmol = make_frag_mol(rest_frag)
             fmols.append(fmol)
 
-- 
2.43.0


From 5df1f263014e3d3ecda7c3a14bf9fa34c09e5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 58/61] fix: loop_neighbor_cells without lattice vectors

---
 vayesta/misc/gto_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vayesta/misc/gto_helper.py b/vayesta/misc/gto_helper.py
index 9a3b295..39cae98 100644
--- a/vayesta/misc/gto_helper.py
+++ b/vayesta/misc/gto_helper.py
@@ -16,7 +16,8 @@ def loop_neighbor_cells(lattice_vectors=None, dimension=3):
     for dr in itertools.product(dxs, dys, dzs):
         if lattice_vectors is None:
             yield np.asarray(dr)
-        yield np.dot(dr, lattice_vectors)
+        else:
+            yield np.dot(dr, lattice_vectors)
 
 
 def get_atom_distances(mol, point, dimension=None):
-- 
2.43.0


From e273993b1233ea5f032dc8c2dfb8c6cf4880c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 59/61] fix: lattice vector index of the unit of rmax in
 make_cp_mol

---
 vayesta/misc/counterpoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/counterpoise.py b/vayesta/misc/counterpoise.py
index 7f2940b..5667635 100644
--- a/vayesta/misc/counterpoise.py
+++ b/vayesta/misc/counterpoise.py
@@ -89,7 +89,7 @@ def make_cp_mol(mol, atom, rmax, nimages=1, unit="A", **kwargs):
         elif unit == "B":
             rmax *= pyscf.lib.param.BOHR
         elif unit.startswith("a"):
-            rmax *= np.linalg.norm(amat[int(unit[1])])
+            rmax *= np.linalg.norm(amat[int(unit[1]) - 1])
         else:
             raise ValueError("Unknown unit: %r" % unit)
         log.debugv("rmax= %.8f A", rmax)
-- 
2.43.0


From bce8cfc527720ba0bafab7b22fbf62d23543b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 60/61] fix: make_cp_mol of periodic cells

---
 vayesta/misc/counterpoise.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vayesta/misc/counterpoise.py b/vayesta/misc/counterpoise.py
index 5667635..30f5648 100644
--- a/vayesta/misc/counterpoise.py
+++ b/vayesta/misc/counterpoise.py
@@ -121,11 +121,9 @@ def make_cp_mol(mol, atom, rmax, nimages=1, unit="A", **kwargs):
                             )
                             atoms.append((symb, coord))
         log.info("Counterpoise with rmax %.3f A -> %3d ghost atoms", rmax, (len(atoms) - 1))
-    mol_cp = mol.copy()
+    mol_cp = mol.to_mol() if hasattr(mol, "lattice_vectors") else mol.copy()
     mol_cp.atom = atoms
     mol_cp.unit = "ANG"
-    mol_cp.a = None
-    mol_cp.dimension = 0
     for key, val in kwargs.items():
         log.debugv("Counterpoise: setting attribute %s to %r", key, val)
         setattr(mol_cp, key, val)
-- 
2.43.0


From d98fd6713a4627ef8e8cbea63430fbf15c87c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:29 +0000
Subject: [PATCH 61/61] fix: bond length to the substituents of a scaled arene

---
 vayesta/misc/molecules/molecules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vayesta/misc/molecules/molecules.py b/vayesta/misc/molecules/molecules.py
index efb5482..ea63d29 100644
--- a/vayesta/misc/molecules/molecules.py
+++ b/vayesta/misc/molecules/molecules.py
@@ -101,7 +101,7 @@ def alkene(ncarbon, cc_bond=1.33, ch_bond=1.09):
 def arene(n, atoms=["C", "H"], cc_bond=1.39, ch_bond=1.09, unit=1.0):
     """Bond length for benzene."""
     r1 = unit * cc_bond / (2 * np.sin(np.pi / n))
-    r2 = unit * (r1 + ch_bond)
+    r2 = r1 + unit * ch_bond
     atom = []
     for i in range(n):
         phi = 2 * i * np.pi / n
-- 
2.43.0

