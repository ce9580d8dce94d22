From c96fadf78e8ef0d924b88d5b5b570fc97550444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:25 +0000
Subject: [PATCH 01/12] fix: excite(i, i) on an occupied orbital returns the
 string itself

The branch for i == a could never be reached because the target
orbital was required to be empty first.
---
 cqcpy/ci_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index e0b233a..59f7a5e 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -10,12 +10,12 @@ class Dstring(object):
     def excite(self, i, a):
         if self.occ[i] != 1:
             return (None, None)
+        if i == a:
+            return (1.0, Dstring(self.n, self.occ))
         if self.occ[a] != 0:
             return (None, None)
 
-        if i == a:
-            return (1.0, Dstring(self.n, self.occ))
-        elif i < a:
+        if i < a:
             occnew = self.occ.copy()
             occnew[i] = 0
             occnew[a] = 1
-- 
2.43.0


From 3ac5bbceffa0dc5ec596ddfbbd5707a5f645d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:25 +0000
Subject: [PATCH 02/12] fix: loop over occupied indices in q_strings

The two outer loops ran over the occupation numbers instead of the
occupied orbital indices, giving duplicates or a crash.
---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 59f7a5e..26722b3 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -140,9 +140,9 @@ def q_strings(n, nocc, occ=None):
     ivir = [i for i, x in enumerate(vir) if x > 0]
     ref = Dstring(n, occ)
     dlist = []
-    for i in occ:
+    for i in iocc:
         for a in ivir:
-            for j in occ:
+            for j in iocc:
                 if j <= i:
                     continue
                 for b in ivir:
-- 
2.43.0


From 9939750091264026dacd988b5c7d05948a89429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:26 +0000
Subject: [PATCH 03/12] fix: add the constant to diagonal elements in
 gci_matrixel

---
 cqcpy/ci_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 26722b3..b26df0e 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1279,7 +1279,7 @@ def gci_matrixel(bra, ket, h, I, const):
         Hel = numpy.einsum('ii,i->', h, p)
         Hel += 0.5*numpy.einsum('ijij,i,j->', I, p, p)
         Hel -= 0.5*numpy.einsum('ijji,i,j->', I, p, p)
-        return Hel
+        return Hel + const
     elif ddd == 1:
         o = numpy.nonzero(ao)[0][0]
         v = numpy.nonzero(av)[0][0]
-- 
2.43.0


From 9ee3c7840c9c2e76303383d31798beed1af2c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:14 +0000
Subject: [PATCH 04/12] fix: phase of double excitations in gci_matrixel

The sign was wrong when the two moves are disjoint in orbital order;
ci_matrixel already handles this case.
---
 cqcpy/ci_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index b26df0e..4d0e685 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1303,9 +1303,10 @@ def gci_matrixel(bra, ket, h, I, const):
         j1, j2 = min(o2, v2), max(o2, v2)
         sign1 = 1.0 if b[i1 + 1:i2].sum() % 2 == 0 else -1.0
         sign2 = 1.0 if b[j1 + 1:j2].sum() % 2 == 0 else -1.0
+        sign = -sign1*sign2 if (v2 < o1 or o2 < v1) else sign1*sign2
         # from Ha
         Hel = I[v1, v2, o1, o2] - I[v1, v2, o2, o1]
-        return sign1*sign2*Hel
+        return sign*Hel
     else:
         return 0.0
 
-- 
2.43.0


From b1c2a78ab0042cb453d03ed6ce6039f26806c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:37 +0000
Subject: [PATCH 05/12] fix: keep the imaginary part when acting on complex CI
 vectors

The output was always a real array, so complex vectors or integrals
silently lost their imaginary part.
---
 cqcpy/ci_utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 4d0e685..ef8b6a7 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1427,7 +1427,7 @@ def ci_matrixel(braa, brab, keta, ketb, ha, hb, Ia, Ib, Iabab, const):
 
 
 def s_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s, new = dd.excite(i, a)
@@ -1442,7 +1442,7 @@ def s_on_vec(basis, vec, i, a):
 
 
 def sa_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1457,7 +1457,7 @@ def sa_on_vec(basis, vec, i, a):
 
 
 def sb_on_vec(basis, vec, i, a):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sb, bnew = bb.excite(i, a)
@@ -1472,7 +1472,7 @@ def sb_on_vec(basis, vec, i, a):
 
 
 def d_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         dd = basis[ix]
         s1, temp = dd.excite(i, a)
@@ -1490,7 +1490,7 @@ def d_on_vec(basis, vec, i, j, a, b):
 
 
 def da_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, atemp = ab.excite(i, a)
@@ -1508,7 +1508,7 @@ def da_on_vec(basis, vec, i, j, a, b):
 
 
 def db_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         s1, btemp = bb.excite(i, a)
@@ -1526,7 +1526,7 @@ def db_on_vec(basis, vec, i, j, a, b):
 
 
 def sasb_on_vec(basis, vec, i, j, a, b):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, float))
     for ix, x in enumerate(vec):
         ab, bb = basis[ix]
         sa, anew = ab.excite(i, a)
@@ -1544,7 +1544,8 @@ def sasb_on_vec(basis, vec, i, j, a, b):
 
 
 def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
-    out = numpy.zeros(vec.shape)
+    dtype = numpy.result_type(vec, ha, hb, Ia, Ib, Iabab, float)
+    out = numpy.zeros(vec.shape, dtype=dtype)
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*ci_matrixel(
@@ -1553,7 +1554,7 @@ def H_on_vec(basis, vec, ha, hb, Ia, Ib, Iabab):
 
 
 def gH_on_vec(basis, vec, h, I,):
-    out = numpy.zeros(vec.shape)
+    out = numpy.zeros(vec.shape, dtype=numpy.result_type(vec, h, I, float))
     for i, b in enumerate(basis):
         for j, k in enumerate(basis):
             out[i] += vec[j]*gci_matrixel(b, k, h, I, 0.0)
-- 
2.43.0


From 9b388f5a89b86057ea9901e4b7716d8fd452ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:09 +0000
Subject: [PATCH 06/12] fix: default reference in gmakeCfromT

Without an explicit occupation the function built a string of half
the needed length and failed. Use the reference of the g* bases.
---
 cqcpy/ci_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index ef8b6a7..70b8b47 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -431,7 +431,11 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
         raise Exception("Higher than 4th order is not supported")
 
     if occ is None:
-        occ = [1 if i < no else 0 for i in range(nmo//2)]
+        nb = no//2
+        na = no - nb
+        occa = [1 if i < na else 0 for i in range(nmo//2)]
+        occb = [1 if i < nb else 0 for i in range(nmo//2)]
+        occ = occa + occb
     vir = [1 if x == 0 else 0 for x in occ]
     iocc = [i for i, x in enumerate(occ) if x > 0]
     ivir = [i for i, x in enumerate(vir) if x > 0]
-- 
2.43.0


From e9bf817de000f309ec1ec7197c1b6727f557fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:09 +0000
Subject: [PATCH 07/12] fix: keep the imaginary part of amplitudes in CI
 expansions

---
 cqcpy/ci_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 70b8b47..327124b 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -442,7 +442,7 @@ def gmakeCfromT(no, nv, T1, T2, order=2, occ=None):
     ref = Dstring(nmo, occ)
 
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=numpy.result_type(T1, T2, float))
     C[0] = 1.0
     # loop over T1
     for ii, i in enumerate(iocc):
@@ -623,7 +623,7 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
     refa = Dstring(na, occa)
     refb = Dstring(nb, occb)
     nd = len(basis)
-    C = numpy.zeros(nd)
+    C = numpy.zeros(nd, dtype=numpy.result_type(T1a, T1b, T2aa, T2ab, T2bb, float))
     C[0] = 1.0
 
     # loop over T1a
-- 
2.43.0


From dd0d13d6c3de417e1dbdafcf4913853cc93eb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:29 +0000
Subject: [PATCH 08/12] fix: add the missing T1b^2*T2aa term to makeCfromT at
 fourth order

---
 cqcpy/ci_utils.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/cqcpy/ci_utils.py b/cqcpy/ci_utils.py
index 327124b..90b06cc 100644
--- a/cqcpy/ci_utils.py
+++ b/cqcpy/ci_utils.py
@@ -1121,6 +1121,28 @@ def makeCfromT(noa, nva, nob, nvb, T1a, T1b, T2aa, T2ab, T2bb, order=2):
                                         if bstr is not None and astr is not None:
                                             idx = basis.index((astr, bstr))
                                             C[idx] += sa*s1*s2*s3*T1a[a, i]*T1b[b, j]*T2bb[c, d, k, l]
+        # loop over T1b^2*T2aa
+        for i in range(nob):
+            for j in range(nob):
+                for k in range(noa):
+                    for l in range(k+1, noa):
+                        for a in range(nvb):
+                            for b in range(nvb):
+                                for c in range(nva):
+                                    for d in range(c+1, nva):
+                                        sb1, bstr = refb.excite(i, a + nob)
+                                        if bstr is None:
+                                            continue
+                                        sb2, bstr = bstr.excite(j, b + nob)
+                                        if bstr is None:
+                                            continue
+                                        sa1, astr = refa.excite(k, c + noa)
+                                        if astr is None:
+                                            continue
+                                        sa2, astr = astr.excite(l, d + noa)
+                                        if bstr is not None and astr is not None:
+                                            idx = basis.index((astr, bstr))
+                                            C[idx] += sa1*sa2*sb1*sb2*T1b[a, i]*T1b[b, j]*T2aa[c, d, k, l]/2.0
         # loop over T1b^2*T2ab
         for i in range(nob):
             for j in range(nob):
-- 
2.43.0


From a9808e0416814b61d077f2d7e179f9bb11d21fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:28 +0000
Subject: [PATCH 09/12] fix: keep the imaginary part when converting spin
 blocks to spin orbitals

The *_to_spin functions and int_to_spin_block always allocated real arrays,
so complex Fock matrices, amplitudes and integrals lost their imaginary part.
---
 cqcpy/spin_utils.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cqcpy/spin_utils.py b/cqcpy/spin_utils.py
index 1fe7504..86840ff 100644
--- a/cqcpy/spin_utils.py
+++ b/cqcpy/spin_utils.py
@@ -4,22 +4,26 @@ from cqcpy.ov_blocks import two_e_blocks
 from cqcpy.ov_blocks import two_e_blocks_full
 
 
+def _dtype(*blocks):
+    return numpy.result_type(float, *blocks)
+
+
 def F_to_spin(Faa, Fbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    Foo = numpy.zeros((no, no))
+    Foo = numpy.zeros((no, no), dtype=_dtype(Faa.oo, Fbb.oo))
     Foo[:noa, :noa] = Faa.oo
     Foo[noa:, noa:] = Fbb.oo
 
-    Fov = numpy.zeros((no, nv))
+    Fov = numpy.zeros((no, nv), dtype=_dtype(Faa.ov, Fbb.ov))
     Fov[:noa, :nva] = Faa.ov
     Fov[noa:, nva:] = Fbb.ov
 
-    Fvo = numpy.zeros((nv, no))
+    Fvo = numpy.zeros((nv, no), dtype=_dtype(Faa.vo, Fbb.vo))
     Fvo[:nva, :noa] = Faa.vo
     Fvo[nva:, noa:] = Fbb.vo
 
-    Fvv = numpy.zeros((nv, nv))
+    Fvv = numpy.zeros((nv, nv), dtype=_dtype(Faa.vv, Fbb.vv))
     Fvv[:nva, :nva] = Faa.vv
     Fvv[nva:, nva:] = Fbb.vv
 
@@ -48,7 +52,7 @@ def F_to_spatial(F, noa, nva, nob, nvb):
 def T1_to_spin(Ta, Tb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, no))
+    T = numpy.zeros((nv, no), dtype=_dtype(Ta, Tb))
     T[:nva, :noa] = Ta.copy()
     T[nva:, noa:] = Tb.copy()
     return T
@@ -87,7 +91,7 @@ def T1_to_spatial(T, noa, nva, nob, nvb):
 def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    T = numpy.zeros((nv, nv, no, no))
+    T = numpy.zeros((nv, nv, no, no), dtype=_dtype(Taa, Tab, Tbb))
     T[:nva, :nva, :noa, :noa] = Taa.copy()  # aaaa
     T[nva:, nva:, noa:, noa:] = Tbb.copy()  # bbbb
     T[:nva, nva:, :noa, noa:] = Tab.copy()  # abab
@@ -100,7 +104,7 @@ def T2_to_spin(Taa, Tab, Tbb, noa, nva, nob, nvb):
 def D2_to_spin(Daa, Dab, Dbb, noa, nva, nob, nvb):
     no = noa + nob
     nv = nva + nvb
-    D = numpy.zeros((nv, nv, no, no))
+    D = numpy.zeros((nv, nv, no, no), dtype=_dtype(Daa, Dab, Dbb))
     D[:nva, :nva, :noa, :noa] = Daa.copy()  # aaaa
     D[nva:, nva:, noa:, noa:] = Dbb.copy()  # bbbb
     D[:nva, nva:, :noa, noa:] = Dab.copy()  # abab
@@ -123,7 +127,8 @@ def int_to_spin_block(aaaa, bbbb, abab, baba, abba, baab,
     n2 = na2 + nb2
     n3 = na3 + nb3
     n4 = na4 + nb4
-    I = numpy.zeros((n1, n2, n3, n4))
+    dtype = _dtype(aaaa, bbbb, abab, baba, abba, baab)
+    I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:na1, :na2, :na3, :na4] = aaaa  # aaaa
     I[na1:, na2:, na3:, na4:] = bbbb  # bbbb
     I[:na1, na2:, :na3, na4:] = abab  # abab
-- 
2.43.0


From 8e4038c84d6f656edd06a666d90f201ff19f9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:58 +0000
Subject: [PATCH 10/12] fix: use the second orbital set in get_chem_anti

The second coefficient array was ignored and the first one used twice.
---
 cqcpy/integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c115f61..c2b7918 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -22,7 +22,7 @@ def get_chem(mol, o1, o2, o3, o4, anti=False):
 def get_chem_anti(mol, o1, o2, o3, o4):
     """Get antisymmetrized ERIs in chemist's notation for given
     orbital Coeffs."""
-    return get_chem(mol, o1, o1, o3, o4, anti=True)
+    return get_chem(mol, o1, o2, o3, o4, anti=True)
 
 
 def get_phys(mol, o1, o2, o3, o4, anti=False):
-- 
2.43.0


From c9ae1bd71bc33248c019d1d7577a529f0dd1c039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:14 +0000
Subject: [PATCH 11/12] fix: take the dtype of spin-orbital integrals from the
 integrals themselves

The arrays were allocated with the dtype of the first coefficient array, so
complex integrals (nonzero k-points or complex beta orbitals) lost their
imaginary part and integer coefficients truncated the result.
---
 cqcpy/integrals.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cqcpy/integrals.py b/cqcpy/integrals.py
index c2b7918..9bec001 100644
--- a/cqcpy/integrals.py
+++ b/cqcpy/integrals.py
@@ -40,7 +40,6 @@ def get_chemu(mol, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     """Get unrestricted, ERIs in chemist's
     notation for given alphd and beta orbital Coeffs.
     """
-    dtype = o1.dtype
     Ia = get_chem(mol, o1, o2, o3, o4, anti=anti)
     Ib = get_chem(mol, p1, p2, p3, p4, anti=anti)
     Iaabb = get_chem(mol, o1, o2, p3, p4)
@@ -57,6 +56,7 @@ def get_chemu(mol, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
+    dtype = numpy.result_type(Ia, Ib, Iaabb, Ibbaa)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -90,7 +90,7 @@ def get_chemu_all(mol, oa, ob, anti=False):
         mol, (ob, ob, ob, ob), compact=False).reshape(nb, nb, nb, nb)
     Iab = mol_ao2mo.general(
         mol, (oa, oa, ob, ob), compact=False).reshape(na, na, nb, nb)
-    dtype = oa.dtype
+    dtype = numpy.result_type(Ia, Ib, Iab)
     Id = numpy.zeros((n, n, n, n), dtype=dtype)
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
@@ -249,7 +249,7 @@ def get_chemu_sol(mf, o1, o2, o3, o4, p1, p2, p3, p4, anti=False):
     n2 = a2 + b2
     n3 = a3 + b3
     n4 = a4 + b4
-    dtype = o1.dtype
+    dtype = numpy.result_type(Ia, Ib, Iaabb, Ibbaa)
     I = numpy.zeros((n1, n2, n3, n4), dtype=dtype)
     I[:a1, :a2, :a3, :a4] = Ia
     I[a1:, a2:, a3:, a4:] = Ib
@@ -288,7 +288,8 @@ def get_chemu_all_sol(mf, oa, ob, anti=False):
         (ob, ob, ob, ob), mf.kpt, compact=False).reshape(nb, nb, nb, nb)
     Iab = mf.with_df.ao2mo(
         (oa, oa, ob, ob), mf.kpt, compact=False).reshape(na, na, nb, nb)
-    Id = numpy.zeros((n, n, n, n), dtype=oa.dtype)
+    dtype = numpy.result_type(Ia, Ib, Iab)
+    Id = numpy.zeros((n, n, n, n), dtype=dtype)
     Id[:na, :na, :na, :na] = Ia
     Id[na:, na:, na:, na:] = Ib
     Id[:na, :na, na:, na:] = Iab
-- 
2.43.0


From 27fccc58aae376a3a6f5850ae36f73974464ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:02 +0000
Subject: [PATCH 12/12] fix: ccd_stanton discarded the imaginary part of the
 Fock matrix with real integrals

---
 cqcpy/cc_equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cqcpy/cc_equations.py b/cqcpy/cc_equations.py
index 5d6ed1e..6a38266 100644
--- a/cqcpy/cc_equations.py
+++ b/cqcpy/cc_equations.py
@@ -768,7 +768,7 @@ def ccd_stanton(F, I, T2old):
     """Coupled cluster singles and doubles (CCSD) iteration
     using Stanton-Gauss intermediates.
     """
-    T2 = I.vvoo.copy()
+    T2 = I.vvoo.astype(numpy.result_type(F.vv, I.vvoo, T2old))
 
     _Stanton_ccd(T2, F, I, T2old)
 
-- 
2.43.0

