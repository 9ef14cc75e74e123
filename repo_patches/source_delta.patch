From 8e3a40b7da8417834e80e6f8436e5f2ef9e113ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:39 +0000
Subject: [PATCH 01/46] fix: utfc derivative rule handles zero and traced
 tangents

---
 src/tfc/utfc.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b00afda..b82ee65 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -361,21 +361,15 @@ class utfc:
         def H_jvp(arg_vals, arg_tans, d: uint = 0, full: bool = False):
             x = arg_vals[0]
             dx = arg_tans[0]
-            if not (dx is ad.Zero):
-                flag = onp.any(dx != 0)
-                if flag:
-                    if len(dx.shape) == 1:
-                        out_tans = Hjax(x, d=d + 1, full=full) * onp.expand_dims(dx, 1)
-                    else:
-                        out_tans = Hjax(x, d=d + 1, full=full) * dx
+            out = Hjax(x, d=d, full=full)
+            if type(dx) is ad.Zero or not (isinstance(dx, core.Tracer) or onp.any(dx != 0)):
+                # The tangent is known to be zero, so there is no need for the next derivative.
+                out_tans = np.zeros_like(out)
+            elif len(dx.shape) == 1:
+                out_tans = Hjax(x, d=d + 1, full=full) * np.expand_dims(dx, 1)
             else:
-                dim0 = x.shape[0]
-                if full:
-                    dim1 = self.basisClass.m
-                else:
-                    dim1 = self.basisClass.m - self.basisClass.numC
-                out_tans = np.zeros((dim0, dim1))
-            return (Hjax(x, d=d, full=full), out_tans)
+                out_tans = Hjax(x, d=d + 1, full=full) * dx
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From feace9b19e359987edf2fe7b1bf2fcfa8ebc70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:10 +0000
Subject: [PATCH 02/46] fix: mtfc derivative rule handles traced tangents and
 scalar points

---
 src/tfc/mtfc.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 910dbe3..9be0716 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -615,15 +615,11 @@ class mtfc:
         def H_jvp(arg_vals, arg_tans, d: tuple[int, ...] = d0, full: bool = False):
             n = len(arg_vals)
             flat = len(arg_vals[0].shape) == 1
-            dim0 = arg_vals[0].shape[0]
-            if full:
-                dim1 = self.basisClass.numBasisFuncFull
-            else:
-                dim1 = self.basisClass.numBasisFunc
-            out_tans = np.zeros((dim0, dim1))
+            out = Hjax(*arg_vals, d=d, full=full)
+            out_tans = np.zeros_like(out)
             for k in range(n):
                 if not (type(arg_tans[k]) is ad.Zero):
-                    flag = onp.any(arg_tans[k] != 0)
+                    flag = isinstance(arg_tans[k], core.Tracer) or onp.any(arg_tans[k] != 0)
                     if flag:
                         dark = tuple(d[j] + 1 if k == j else d[j] for j in range(len(d)))
                         if flat:
@@ -632,7 +628,7 @@ class mtfc:
                             )
                         else:
                             out_tans += Hjax(*arg_vals, d=dark, full=full) * arg_tans[k]
-            return (Hjax(*arg_vals, d=d, full=full), out_tans)
+            return (out, out_tans)
 
         ad.primitive_jvps[H_p] = H_jvp
 
-- 
2.43.0


From 371cb4f047aa4da1e0051f54725f0e9da92508b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:10 +0000
Subject: [PATCH 03/46] fix: accept NumPy arrays, NumPy integers and tuples for
 nC

---
 src/tfc/mtfc.py | 6 +++---
 src/tfc/utfc.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 9be0716..f99fae6 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -199,11 +199,11 @@ class mtfc:
 
         # Create nC matrix based on user input
         if basis in self._elm_classes:
-            if isinstance(nC, int):
+            if isinstance(nC, (int, onp.integer)):
                 self.nC = onp.arange(nC, dtype=onp.int32)
-            elif isinstance(nC, np.ndarray):
+            elif isinstance(nC, (np.ndarray, onp.ndarray)):
                 self.nC = cast(onp.ndarray, nC.astype(onp.int32))
-            elif isinstance(nC, list):
+            elif isinstance(nC, (list, tuple)):
                 self.nC = onp.array(nC, dtype=np.int32)
             if self.nC.shape[0] > self.deg:
                 TFCPrint.Error("Number of basis functions is less than number of constraints!")
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index b82ee65..dae9d64 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -95,11 +95,11 @@ class utfc:
         self.deg = deg
         self._backend = backend
 
-        if isinstance(nC, int):
+        if isinstance(nC, (int, onp.integer)):
             self.nC: npt.NDArray = onp.arange(nC, dtype=onp.int32)
-        elif isinstance(nC, np.ndarray):
+        elif isinstance(nC, (np.ndarray, onp.ndarray)):
             self.nC: npt.NDArray = cast(npt.NDArray, nC.astype(onp.int32))
-        elif isinstance(nC, list):
+        elif isinstance(nC, (list, tuple)):
             self.nC: npt.NDArray = np.array(nC, dtype=np.int32)
         if self.nC.shape[0] > self.deg:
             TFCPrint.Error("Number of basis functions is less than number of constraints!")
-- 
2.43.0


From daf37f3166e11e444965db4ee5ffc84093e3bc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 04/46] fix: mtfc treats a one-element list in nC as a list of
 indices

---
 src/tfc/mtfc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index f99fae6..a5d03e9 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -244,7 +244,7 @@ class mtfc:
                         nCk = np.array(cast(IntListOrArray, nC)[k]).flatten()
                     else:
                         nCk = np.array([cast(IntListOrArray, nC)[k]]).flatten()
-                    if nCk.shape[0] == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         maxk = nCk[0]
                     else:
                         maxk = nCk.shape[0]
@@ -263,7 +263,7 @@ class mtfc:
                     else:
                         nCk = onp.array([cast(IntListOrArray, nC)[k]]).flatten()
                     j = nCk.shape[0]
-                    if j == 1:
+                    if onp.ndim(cast(IntListOrArray, nC)[k]) == 0:
                         nCk = onp.arange(nCk[0])
                         j = nCk.shape[0]
                     if j < nCmax:
-- 
2.43.0


From 1195f3a16d6ce3eeafb9acd67387f86436bfe9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 05/46] fix: Python ELMReLU higher derivatives have one row per
 point

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 8556a15..cf94d3b 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -711,7 +711,7 @@ class ELMReLU(ELM):
         elif d == 1:
             return self._w * np.where(self._w * z + self._b > 0.0, 1.0, 0.0)
         else:
-            return np.zeros((self._m, z.size))
+            return np.zeros((z.size, self._m))
 
 
 class ELMSigmoid(ELM):
-- 
2.43.0


From 824cf8c63ce3293bbc6e9e2fe38a8bbe2a966587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 06/46] fix: Python nELMReLU accepts any sequence for the
 derivative order

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index cf94d3b..25ce066 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1421,7 +1421,7 @@ class nELMReLU(nELM):
         if dorder > 1:
             zeroFlag = True
         elif dorder == 1:
-            ind = np.where(d == 1)[0][0]
+            ind = np.where(np.asarray(d) == 1)[0][0]
 
         if zeroFlag:
             # Derivative order is high enough that everything is zeros
-- 
2.43.0


From 0208929dbdff8d91b1e7a6c455c7233c254f4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 07/46] fix: Python FS keeps the number type of its input

---
 src/tfc/utils/BF_Py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 25ce066..fcffd2c 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -547,7 +547,7 @@ class FS(BasisFunc):
             Basis function values.
         """
         N = np.size(z)
-        F = np.zeros((N, self._m))
+        F = np.zeros((N, self._m), dtype=z.dtype)
         if d == 0:
             F[:, 0] = 1.0
             for k in range(1, self._m):
-- 
2.43.0


From d357146ea3cce1ea20e9e8e11fe60a730a4e3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:28 +0000
Subject: [PATCH 08/46] fix: Python n-dimensional bases report a wrong number
 of inputs

---
 src/tfc/utils/BF_Py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index fcffd2c..e345d9a 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1028,7 +1028,7 @@ class nBasisFunc(BasisFunc):
         N = x.shape[1]
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
@@ -1357,7 +1357,7 @@ class nELM(nBasisFunc):
         # Check dimensions
         if x.shape[0] != self._dim:
             raise ValueError(
-                f"Incorrect dimension for x. Expected {self._dim} but got {z.shape[1]}."
+                f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
             )
 
         # Convert to basis function domain
-- 
2.43.0


From 8062901ac2a94b8692f022e2720e07c1bb9d940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:41 +0000
Subject: [PATCH 09/46] fix: Python bases expose m and numC, which tracing
 needs

---
 src/tfc/utils/BF_Py.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index e345d9a..4a04de6 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -119,6 +119,33 @@ class BasisFunc(ABC):
 
         return self._c
 
+    @property
+    def m(self) -> int:
+        """
+        Return the number of basis functions before the user-specified
+        functions have been removed.
+
+        Returns
+        -------
+        int
+            The number of basis functions.
+        """
+
+        return self._m
+
+    @property
+    def numC(self) -> int:
+        """
+        Return the number of basis functions to be removed.
+
+        Returns
+        -------
+        int
+            The number of basis functions to be removed.
+        """
+
+        return self._numC
+
 
 class CP(BasisFunc):
     """
-- 
2.43.0


From e9719cb3ff47550cd38d1db9bf33c3004461d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:40 +0000
Subject: [PATCH 10/46] fix: the C++ bindings read strided and non-native
 arrays correctly

---
 src/tfc/utils/BF_Py.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index de1a403..e1ecc54 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -6,7 +6,7 @@
 namespace py = pybind11;
 
 template <typename T> void add1DInit(auto &c) {
-    c.def(py::init([](double x0, double xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](double x0, double xf, py::array_t<int, py::array::c_style | py::array::forcecast> nC, int min) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
@@ -28,7 +28,10 @@ template <typename T> void add1DInit(auto &c) {
 }
 
 template <typename T> void addNdInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0,
+                     py::array_t<double, py::array::c_style | py::array::forcecast> xf,
+                     py::array_t<int, py::array::c_style | py::array::forcecast> nC,
+                     int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -57,7 +60,10 @@ template <typename T> void addNdInit(auto &c) {
 }
 
 template <typename T> void addNdElmInit(auto &c) {
-    c.def(py::init([](py::array_t<double> x0, py::array_t<double> xf, py::array_t<int> nC, int min) {
+    c.def(py::init([](py::array_t<double, py::array::c_style | py::array::forcecast> x0,
+                     py::array_t<double, py::array::c_style | py::array::forcecast> xf,
+                     py::array_t<int, py::array::c_style | py::array::forcecast> nC,
+                     int min) {
               if (x0.ndim() != 1) {
                   throw py::value_error("The \"x0\" input array must be 1-dimensional.");
               }
@@ -175,7 +181,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](ELM &self) {
@@ -189,7 +195,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](ELM &self, py::array_t<double> w) { self.setW(w.data(), w.size()); });
+            [](ELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> w) { self.setW(w.data(), w.size()); });
 
     auto PyELMSigmoid = py::class_<ELMSigmoid, ELM>(m, "ELMSigmoid");
     add1DInit<ELMSigmoid>(PyELMSigmoid);
@@ -293,7 +299,7 @@ PYBIND11_MODULE(BF, m) {
                 });
                 return py::array_t<double>(self.m, data, capsule);
             },
-            [](nELM &self, py::array_t<double> b) { self.setB(b.data(), b.size()); })
+            [](nELM &self, py::array_t<double, py::array::c_style | py::array::forcecast> b) { self.setB(b.data(), b.size()); })
         .def_property(
             "w",
             [](nELM &self) {
-- 
2.43.0


From 23b8e0a23c0be89cd8bcafd9a0d33ab7c8f788cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 11/46] fix: nC counts a repeated basis function once and
 rejects unknown ones

---
 src/tfc/utils/BF.cc    | 45 +++++++++++++++++++++++++-----------------
 src/tfc/utils/BF_Py.py |  4 ++--
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 82504d0..45b57b9 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1,9 +1,28 @@
 #include "BF.h"
+#include <algorithm>
+#include <memory>
+#include <stdexcept>
+#include <string>
 
 // Initialize static BasisFunc variables
 int BasisFunc::nIdentifier = 0;
 std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
 
+// Copies the basis function indices in nCin to nC without repetitions, and returns how many there are. An index that
+// is not one of the m basis functions is rejected.
+static int CopyNc(const int *nCin, int n, int m, int *nC) {
+    int num = 0;
+    for (int k = 0; k < n; k++) {
+        if (nCin[k] < 0 || nCin[k] >= m) {
+            throw std::invalid_argument("nC contains " + std::to_string(nCin[k]) + ", but there are only " +
+                                        std::to_string(m) + " basis functions.");
+        }
+        if (std::find(nC, nC + num, nCin[k]) == nC + num)
+            nC[num++] = nCin[k];
+    }
+    return num;
+}
+
 // xlaWrapper function
 void xlaWrapper(void *out, void **in) {
     int N = (reinterpret_cast<int *>(in[0]))[0];
@@ -25,9 +44,9 @@ void xlaGpuWrapper(CUstream stream, void **buffers, const char *opaque, size_t o
 BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int min, double z0in, double zf) {
 
     // Initialize internal variables based on user givens
-    nC = new int[ncDim0];
-    memcpy(nC, nCin, ncDim0 * sizeof(int));
-    numC = ncDim0;
+    auto indices = std::make_unique<int[]>(ncDim0);
+    numC = CopyNc(nCin, ncDim0, min, indices.get());
+    nC = indices.release();
 
     z0 = z0in;
 
@@ -1274,35 +1293,25 @@ nELM::nELM(const double *x0in,
            double zfin) {
 
     int k;
-    bool flag = true;
 
     // Initialize internal variables based on user givens
+    // An nC that only has -1 means that nothing is removed
+    bool flag = std::all_of(nCin, nCin + ncDim0, [](int j) { return j == -1; });
+    auto indices = std::make_unique<int[]>(ncDim0);
+    numC = flag ? 0 : CopyNc(nCin, ncDim0, min, indices.get());
+    nC = indices.release();
     dim = x0Dim0;
     m = min;
-    numC = ncDim0;
     z0 = z0in;
     zf = zfin;
 
     x0 = new double[dim];
     memcpy(x0, x0in, dim * sizeof(double));
 
-    nC = new int[dim * numC];
-    memcpy(nC, nCin, ncDim0 * sizeof(int));
-
     c = new double[dim];
     for (k = 0; k < dim; k++)
         c[k] = (zf - z0) / (xf[k] - x0[k]);
 
-    for (k = 0; k < ncDim0; k++) {
-        if (nC[k] != -1) {
-            flag = false;
-        }
-    }
-    if (flag)
-        numC = 0;
-
-    m = min;
-
     // Calculate the number of basis functions
     numBasisFunc = m - numC;
     numBasisFuncFull = m;
diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 4a04de6..21a0a24 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -46,7 +46,7 @@ class BasisFunc(ABC):
 
         self._m = m
         self._nC = nC
-        self._numC = len(nC)
+        self._numC = np.unique(nC).size
 
         self._z0 = z0
         if zf == float("inf"):
@@ -1276,7 +1276,7 @@ class nELM(nBasisFunc):
         self._dim = x0.size
 
         if np.any(self._nC != -1):
-            self._numC = nC.size
+            self._numC = np.unique(nC).size
         else:
             self._numC = 0
 
-- 
2.43.0


From d913c8b6c12bec45e33649d2af48dbbfea249045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:10 +0000
Subject: [PATCH 12/46] fix: the C++ n-dimensional bases reject arrays of the
 wrong size instead of reading past them

---
 src/tfc/utils/BF_Py.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tfc/utils/BF_Py.cc b/src/tfc/utils/BF_Py.cc
index e1ecc54..7f7f2fc 100644
--- a/src/tfc/utils/BF_Py.cc
+++ b/src/tfc/utils/BF_Py.cc
@@ -41,6 +41,9 @@ template <typename T> void addNdInit(auto &c) {
               if (nC.ndim() != 2) {
                   throw py::value_error("The \"nC\" input array must be 2-dimensional.");
               }
+              if (xf.size() != x0.size() || nC.shape()[0] != x0.size()) {
+                  throw py::value_error("The \"x0\", \"xf\" and \"nC\" input arrays must have the same length.");
+              }
               return std::make_unique<T>(
                   x0.data(), x0.size(), xf.data(), xf.size(), nC.data(), nC.shape()[0], nC.shape()[1], min);
           }),
@@ -73,6 +76,9 @@ template <typename T> void addNdElmInit(auto &c) {
               if (nC.ndim() != 1) {
                   throw py::value_error("The \"nC\" input array must be 1-dimensional.");
               }
+              if (xf.size() != x0.size()) {
+                  throw py::value_error("The \"x0\" and \"xf\" input arrays must have the same length.");
+              }
               return std::make_unique<T>(x0.data(), x0.size(), xf.data(), xf.size(), nC.data(), nC.size(), min);
           }),
           py::arg("x0"),
@@ -248,6 +254,12 @@ PYBIND11_MODULE(BF, m) {
                 if (d.ndim() != 1) {
                     throw py::value_error("The \"d\" input array must be 1-dimensional.");
                 }
+                if (x.shape()[0] != self.dim) {
+                    throw py::value_error("The \"x\" input array must have one row per dimension.");
+                }
+                if (d.size() > self.dim) {
+                    throw py::value_error("The \"d\" input array has more entries than there are dimensions.");
+                }
                 int nOut = 0;
                 int mOut = 0;
                 double *F = nullptr;
-- 
2.43.0


From b16a83a1997b3959f53467786a86deadb4f170f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 13/46] fix: setting ELM weights of the wrong size raises
 instead of ending the process

---
 src/tfc/utils/BF.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 45b57b9..71fd113 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -630,8 +630,7 @@ ELM::~ELM() {
 
 void ELM::setW(const double *arrIn, int nIn) {
     if (nIn != m) {
-        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
     }
     for (int k = 0; k < m; k++)
         w[k] = arrIn[k];
@@ -639,8 +638,7 @@ void ELM::setW(const double *arrIn, int nIn) {
 
 void ELM::setB(const double *arrIn, int nIn) {
     if (nIn != m) {
-        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
     }
     for (int k = 0; k < m; k++)
         b[k] = arrIn[k];
@@ -1342,8 +1340,7 @@ nELM::~nELM() {
 
 void nELM::setW(const double *arrIn, int dimIn, int nIn) {
     if ((nIn != m) || (dimIn != dim)) {
-        printf("Failure in setW function. Weight vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setW function. Weight vector is the wrong size.");
     }
     for (int k = 0; k < m * dim; k++)
         w[k] = arrIn[k];
@@ -1351,8 +1348,7 @@ void nELM::setW(const double *arrIn, int dimIn, int nIn) {
 
 void nELM::setB(const double *arrIn, int nIn) {
     if (nIn != m) {
-        printf("Failure in setB function. Bias vector is the wrong size. Exiting program.\n");
-        exit(EXIT_FAILURE);
+        throw std::invalid_argument("Failure in setB function. Bias vector is the wrong size.");
     }
     for (int k = 0; k < m; k++)
         b[k] = arrIn[k];
-- 
2.43.0


From 42d638043f633d8537a7cf4d949d9993d5b76d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 14/46] fix: n-dimensional bases free their copy of x0

---
 src/tfc/utils/BF.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 71fd113..4c2903d 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1078,7 +1078,10 @@ nBasisFunc::nBasisFunc(const double *x0in,
 #endif
 }
 
-nBasisFunc::~nBasisFunc() { delete[] c; }
+nBasisFunc::~nBasisFunc() {
+    delete[] c;
+    delete[] x0;
+}
 
 void nBasisFunc::getC(double **arrOut, int *nOut) {
     *nOut = dim;
-- 
2.43.0


From 1bebcce17695b0272d7d9644b9acd0a52ffd1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 15/46] fix: creating a basis while another is evaluated by XLA
 no longer races

---
 src/tfc/utils/BF.cc | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/tfc/utils/BF.cc b/src/tfc/utils/BF.cc
index 4c2903d..f97a662 100644
--- a/src/tfc/utils/BF.cc
+++ b/src/tfc/utils/BF.cc
@@ -1,6 +1,7 @@
 #include "BF.h"
 #include <algorithm>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -8,6 +9,9 @@
 int BasisFunc::nIdentifier = 0;
 std::vector<BasisFunc *> BasisFunc::BasisFuncContainer;
 
+// Guards BasisFuncContainer: XLA calls xlaWrapper on its own threads while new instances are being created
+static std::mutex containerMutex;
+
 // Copies the basis function indices in nCin to nC without repetitions, and returns how many there are. An index that
 // is not one of the m basis functions is rejected.
 static int CopyNc(const int *nCin, int n, int m, int *nC) {
@@ -26,7 +30,12 @@ static int CopyNc(const int *nCin, int n, int m, int *nC) {
 // xlaWrapper function
 void xlaWrapper(void *out, void **in) {
     int N = (reinterpret_cast<int *>(in[0]))[0];
-    BasisFunc::BasisFuncContainer[N]->xla(out, in);
+    BasisFunc *basis;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        basis = BasisFunc::BasisFuncContainer[N];
+    }
+    basis->xla(out, in);
 }
 
 #ifdef HAS_CUDA
@@ -60,9 +69,12 @@ BasisFunc::BasisFunc(double x0in, double xf, const int *nCin, int ncDim0, int mi
     }
 
     // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        BasisFuncContainer.push_back(this);
+        identifier = nIdentifier;
+        nIdentifier++;
+    }
 
     // Create a PyCapsule with xla function for XLA compilation
     xlaCapsule = GetXlaCapsule();
@@ -1067,9 +1079,12 @@ nBasisFunc::nBasisFunc(const double *x0in,
     delete[] vec;
 
     // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        BasisFuncContainer.push_back(this);
+        identifier = nIdentifier;
+        nIdentifier++;
+    }
 
     // Create a PyCapsule with xla function for XLA compilation
     xlaCapsule = GetXlaCapsule();
@@ -1318,9 +1333,12 @@ nELM::nELM(const double *x0in,
     numBasisFuncFull = m;
 
     // Track this instance of BasisFunc
-    BasisFuncContainer.push_back(this);
-    identifier = nIdentifier;
-    nIdentifier++;
+    {
+        std::lock_guard<std::mutex> lock(containerMutex);
+        BasisFuncContainer.push_back(this);
+        identifier = nIdentifier;
+        nIdentifier++;
+    }
 
     // Create a PyCapsule with xla function for XLA compilation
     xlaCapsule = GetXlaCapsule();
-- 
2.43.0


From afcde7637793325a600222bf0de829d334c170d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:21 +0000
Subject: [PATCH 16/46] fix: LsClass.run works without the timer and leaves its
 argument alone

---
 src/tfc/utils/TFCUtils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index d445595..7dc118e 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1031,12 +1031,12 @@ class LsClass:
             start = timer()
             xi = self._ls(zXi, *args).block_until_ready()
             stop = timer()
-            zXi += xi
+            zXi = zXi + xi
 
             return zXi, stop - start
 
         else:
-            zXi += ls(zXi, *args)
+            zXi = zXi + self._ls(zXi, *args)
 
             self._compiled = True
 
-- 
2.43.0


From b3e81863446cab5d8ef75ee2ecd130af5447790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:28 +0000
Subject: [PATCH 17/46] fix: NLLS and NllsClass use the termination condition
 the caller gives

---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 7dc118e..2674cae 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1183,16 +1183,18 @@ def NLLS(
     else:
         dictFlag = False
 
-    def cond(val):
-        return np.all(
-            np.array(
-                [
-                    np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                    val["it"] < maxIter,
-                    np.max(np.abs(val["dxi"])) > tol,
-                ]
+    if cond is None:
+
+        def cond(val):
+            return np.all(
+                np.array(
+                    [
+                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                        val["it"] < maxIter,
+                        np.max(np.abs(val["dxi"])) > tol,
+                    ]
+                )
             )
-        )
 
     if J is None:
         if dictFlag:
@@ -1380,16 +1382,18 @@ class NllsClass:
         else:
             self._dictFlag = False
 
-        def cond(val):
-            return np.all(
-                np.array(
-                    [
-                        np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
-                        val["it"] < maxIter,
-                        np.max(np.abs(val["dxi"])) > tol,
-                    ]
+        if cond is None:
+
+            def cond(val):
+                return np.all(
+                    np.array(
+                        [
+                            np.max(np.abs(res(val["xi"], *val["args"]))) > tol,
+                            val["it"] < maxIter,
+                            np.max(np.abs(val["dxi"])) > tol,
+                        ]
+                    )
                 )
-            )
 
         if J is None:
             if self._dictFlag:
-- 
2.43.0


From a2d54adae083336089064dc1a25bcf87e8596df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:28 +0000
Subject: [PATCH 18/46] fix: constant_arg_nums may be in any order and is not
 modified

---
 src/tfc/utils/TFCUtils.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 2674cae..e8ceb72 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -233,14 +233,13 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
     """
 
     # Reorder to put knowns first, then unknowns
-    order = [k for k in range(len(args))]
-    for k in constant_arg_nums:
-        order.insert(0, order.pop(k))
+    const_args = list(dict.fromkeys(range(len(args))[k] for k in constant_arg_nums))
+    order = const_args + [k for k in range(len(args)) if k not in const_args]
     reorder = np.argsort(np.array(order))
     dark = tuple(args[k] for k in order)
 
     # Store the removed args for later
-    num_args_remove = len(constant_arg_nums)
+    num_args_remove = len(const_args)
 
     def wrapper(f_orig):
         if len(constant_arg_nums) > 0:
@@ -861,9 +860,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -988,9 +985,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1231,9 +1226,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        constant_arg_nums.sort()
-        constant_arg_nums.reverse()
-        for k in constant_arg_nums:
+        for k in sorted(constant_arg_nums, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1432,9 +1425,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            constant_arg_nums.sort()
-            constant_arg_nums.reverse()
-            for k in constant_arg_nums:
+            for k in sorted(constant_arg_nums, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From 18ce6c8ae8ccaed94777ebc32a9089543f28546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:28 +0000
Subject: [PATCH 19/46] fix: pe handles container constants, integer arguments
 and constant outputs

---
 src/tfc/utils/TFCUtils.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index e8ceb72..1d2e3a1 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -253,29 +253,20 @@ def pe(*args: Any, constant_arg_nums: list[int] = []) -> Any:
             # Create the partial args needed by trace_to_jaxpr_nounits
             def get_arg(a, unknown):
                 if unknown:
-                    return tree_flatten(
-                        (
-                            tree_map(lambda x: PartialVal.unknown(typeof(x).at_least_vspace()), a),
-                            {},
-                        )
-                    )[0]
+                    return [PartialVal.unknown(typeof(x)) for x in tree_flatten(a)[0]]
                 else:
-                    return PartialVal.known(a)
+                    return [PartialVal.known(x) for x in tree_flatten(a)[0]]
 
             part_args = []
             for k, a in enumerate(dark):
-                temp = get_arg(a, k >= num_args_remove)
-                if isinstance(temp, list):
-                    part_args += temp
-                else:
-                    part_args.append(temp)
+                part_args += get_arg(a, k >= num_args_remove)
             part_args = tuple(part_args)
 
             # Create jaxpr
             wrap = lu.wrap_init(f, debug_info=debug_info(f.__name__, f, [], {}))
             _, in_tree = tree_flatten((dark, {}))
             wrap_flat, out_tree = flatten_fun(wrap, in_tree)
-            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args)
+            jaxpr, _, const = trace_to_jaxpr_nounits(wrap_flat, part_args, instantiate=True)
 
             # Create new, partially evaluated function
             if out_tree().num_leaves == 1 and out_tree().num_nodes == 1:
-- 
2.43.0


From 72b93d7050d990afac0bed78cbc22eff4d4600c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:14 +0000
Subject: [PATCH 20/46] fix: TFCDict and TFCDictRobust add and subtract NumPy
 arrays

---
 src/tfc/utils/TFCUtils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 1d2e3a1..b789ede 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -436,7 +436,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]]
@@ -459,7 +459,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]]
@@ -483,7 +483,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]]
@@ -507,7 +507,7 @@ class TFCDict(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]]
@@ -643,7 +643,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -666,7 +666,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 self[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -690,7 +690,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] += o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
@@ -714,7 +714,7 @@ class TFCDictRobust(OrderedDict):
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
                 out[key] -= o[key]
-        elif isinstance(o, np.ndarray):
+        elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
                 out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
-- 
2.43.0


From 1ec4666dccf40a397e70e6ee26896b5b7a1bf796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:14 +0000
Subject: [PATCH 21/46] fix: TFCDict and TFCDictRobust arithmetic leaves the
 operands' arrays alone

---
 src/tfc/utils/TFCUtils.py | 40 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index b789ede..b02bf75 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -435,11 +435,12 @@ class TFCDict(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] += o[key]
+                self[key] = self[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] += o[self._slices[k]]
+                key = self._keys[k]
+                self[key] = self[key] + o[self._slices[k]]
         return self
 
     def __isub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -458,11 +459,12 @@ class TFCDict(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] -= o[key]
+                self[key] = self[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] -= o[self._slices[k]]
+                key = self._keys[k]
+                self[key] = self[key] - o[self._slices[k]]
         return self
 
     def __add__(self, o: TFCDictAddable) -> "TFCDict":
@@ -482,11 +484,12 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]]
+                key = self._keys[k]
+                out[key] = out[key] + o[self._slices[k]]
         return out
 
     def __sub__(self, o: TFCDictAddable) -> "TFCDict":
@@ -506,11 +509,12 @@ class TFCDict(OrderedDict):
         out = TFCDict(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]]
+                key = self._keys[k]
+                out[key] = out[key] - o[self._slices[k]]
         return out
 
 
@@ -642,11 +646,12 @@ class TFCDictRobust(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] += o[key]
+                self[key] = self[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                key = self._keys[k]
+                self[key] = self[key] + o[self._slices[k]].reshape(self[key].shape)
         return self
 
     def __isub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -665,11 +670,12 @@ class TFCDictRobust(OrderedDict):
         """
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                self[key] -= o[key]
+                self[key] = self[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                self[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                key = self._keys[k]
+                self[key] = self[key] - o[self._slices[k]].reshape(self[key].shape)
         return self
 
     def __add__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -689,11 +695,12 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] += o[key]
+                out[key] = out[key] + o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] += o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                key = self._keys[k]
+                out[key] = out[key] + o[self._slices[k]].reshape(self[key].shape)
         return out
 
     def __sub__(self, o: TFCDictRobustAddable) -> "TFCDictRobust":
@@ -713,11 +720,12 @@ class TFCDictRobust(OrderedDict):
         out = TFCDictRobust(self)
         if isinstance(o, dict) or (type(o) is type(self)):
             for key in self._keys:
-                out[key] -= o[key]
+                out[key] = out[key] - o[key]
         elif isinstance(o, (np.ndarray, onp.ndarray)):
             o = o.flatten()
             for k in range(self._nKeys):
-                out[self._keys[k]] -= o[self._slices[k]].reshape(self[self._keys[k]].shape)
+                key = self._keys[k]
+                out[key] = out[key] - o[self._slices[k]].reshape(self[key].shape)
         return out
 
 
-- 
2.43.0


From 2aefa470b0bfe1430b349680522276662d56e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:14 +0000
Subject: [PATCH 22/46] fix: TFCDict and TFCDictRobust follow changes of their
 keys and values

---
 src/tfc/utils/TFCUtils.py | 129 ++++++++++++++++++++++----------------
 1 file changed, 74 insertions(+), 55 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index b02bf75..43a5b4a 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -333,40 +333,51 @@ class TFCDict(OrderedDict):
             Arguments to pass to the OrderedDict
         """
 
-        # Store dictionary and keep a record of the keys. Keys will stay in same
-        # order, so that adding and subtracting is repeatable.
+        # Store dictionary. Keys will stay in same order, so that adding and
+        # subtracting is repeatable.
         super().__init__(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
 
-    def getSlices(self) -> None:
+    @property
+    def _keys(self) -> list[Any]:
+        """
+        The current keys, in order.
+        """
+        return list(self.keys())
+
+    @property
+    def _nKeys(self) -> int:
+        """
+        The current number of keys.
+        """
+        return len(self)
+
+    @property
+    def _slices(self) -> list[slice]:
+        """
+        The slice of the flat array that belongs to each of the current keys.
+        """
+        return self.getSlices()
+
+    def getSlices(self) -> list[slice]:
         """
         Function that creates slices for each of the keys in the dictionary.
+
+        Returns
+        -------
+        list[slice]
+            The slice of the flat array that belongs to each of the keys.
         """
-        if all(
-            isinstance(value, np.ndarray) or isinstance(value, onp.ndarray)
-            for value in self.values()
-        ):
-            arrLen = 0
-            self._slices = [
-                slice(0, 0, 1),
-            ] * self._nKeys
-            start = 0
-            stop = 0
-            for k in range(self._nKeys):
-                start = stop
-                arrLen = self[self._keys[k]].shape[0]
-                stop = start + arrLen
-                self._slices[k] = slice(start, stop, 1)
-        else:
-            self._slices = [
-                None,
-            ] * self._nKeys
+        slices = []
+        stop = 0
+        for value in self.values():
+            start = stop
+            stop = start + onp.size(value)
+            slices.append(slice(start, stop, 1))
+        return slices
 
     def update(self, *args: Any) -> None:
         """
-        Overload the update method to update the _keys variable as well.
+        Overload the update method so that it only takes positional arguments.
 
         Parameters
         ----------
@@ -374,9 +385,6 @@ class TFCDict(OrderedDict):
             Same as *args for the update method of ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
 
     def toArray(self) -> np.ndarray:
         """
@@ -539,37 +547,51 @@ class TFCDictRobust(OrderedDict):
             Arguments to pass to the OrderedDict
         """
 
-        # Store dictionary and keep a record of the keys. Keys will stay in same
-        # order, so that adding and subtracting is repeatable.
+        # Store dictionary. Keys will stay in same order, so that adding and
+        # subtracting is repeatable.
         super().__init__(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
 
-    def getSlices(self) -> None:
+    @property
+    def _keys(self) -> list[Any]:
+        """
+        The current keys, in order.
+        """
+        return list(self.keys())
+
+    @property
+    def _nKeys(self) -> int:
+        """
+        The current number of keys.
+        """
+        return len(self)
+
+    @property
+    def _slices(self) -> list[slice]:
+        """
+        The slice of the flat array that belongs to each of the current keys.
+        """
+        return self.getSlices()
+
+    def getSlices(self) -> list[slice]:
         """
         Function that creates slices for each of the keys in the dictionary.
+
+        Returns
+        -------
+        list[slice]
+            The slice of the flat array that belongs to each of the keys.
         """
-        if all(isinstance(value, np.ndarray) for value in self.values()):
-            arrLen = 0
-            self._slices = [
-                slice(0, 0, 1),
-            ] * self._nKeys
-            start = 0
-            stop = 0
-            for k in range(self._nKeys):
-                start = stop
-                arrLen = self[self._keys[k]].flatten().shape[0]
-                stop = start + arrLen
-                self._slices[k] = slice(start, stop, 1)
-        else:
-            self._slices = [
-                None,
-            ] * self._nKeys
+        slices = []
+        stop = 0
+        for value in self.values():
+            start = stop
+            stop = start + onp.size(value)
+            slices.append(slice(start, stop, 1))
+        return slices
 
     def update(self, *args: Any) -> None:
         """
-        Overload the update method to update the _keys variable as well.
+        Overload the update method so that it only takes positional arguments.
 
         Parameters
         ----------
@@ -577,9 +599,6 @@ class TFCDictRobust(OrderedDict):
             Same as *args for the update method on ordered dict.
         """
         super().update(*args)
-        self._keys = list(self.keys())
-        self._nKeys = len(self._keys)
-        self.getSlices()
 
     def toArray(self) -> np.ndarray:
         """
-- 
2.43.0


From b0b0cb1c9ba2645a2c5d500a3312d3e82d98cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:15 +0000
Subject: [PATCH 23/46] fix: CeSolver recomputes the constrained expression
 when phi is set

---
 src/tfc/utils/CeSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 015c523..a58f957 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -154,6 +154,7 @@ class CeSolver:
         """
         self._phi = phi
         self._phi_stale = False
+        self._ce_stale = True
 
     @property
     def alpha(self) -> sp.Matrix:
-- 
2.43.0


From 8a55746c8d33db29ebcf25a267041bb27aef866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:15 +0000
Subject: [PATCH 24/46] fix: TfcPrinter does not alter sympy's own Python
 printer

---
 src/tfc/utils/CeSolver.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index a58f957..39b5cc8 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -372,13 +372,9 @@ class CeSolver:
 
 class TfcPrinter(PythonCodePrinter):
     def __init__(self, settings=None):
-        # Switch math to numpy
-        for k, v in self._kf.items():
-            if "math" in v:
-                self._kf[k] = v.replace("math", "np")
-        for k, v in self._kc.items():
-            if "math" in v:
-                self._kc[k] = v.replace("math", "np")
+        # Switch math to numpy. These are copies, as the originals belong to sympy's own printer.
+        self._kf = {k: v.replace("math", "np") for k, v in self._kf.items()}
+        self._kc = {k: v.replace("math", "np") for k, v in self._kc.items()}
 
         super().__init__(settings=settings)
 
-- 
2.43.0


From acf1590155f541818911f97d042878dd364ba5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:15 +0000
Subject: [PATCH 25/46] fix: TfcPrinter prints nested derivatives, all
 arguments and substitutions correctly

---
 src/tfc/utils/CeSolver.py | 46 ++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 39b5cc8..42b0c14 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -376,6 +376,9 @@ class TfcPrinter(PythonCodePrinter):
         self._kf = {k: v.replace("math", "np") for k, v in self._kf.items()}
         self._kc = {k: v.replace("math", "np") for k, v in self._kc.items()}
 
+        # Values of the symbols substituted by the Subs being printed
+        self._subs = {}
+
         super().__init__(settings=settings)
 
     def _hprint_Pow(self, expr: Expr, rational: bool = False, sqrt: str = "np.sqrt"):
@@ -413,8 +416,29 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
+        if expr in self._subs:
+            value = self._subs[expr]
+            return value if value.isidentifier() or value.isdigit() else "(" + value + ")"
         return self._print(str(expr))
 
+    _print_Dummy = _print_Symbol
+
+    def _print_args(self, args: tuple[Any, ...]) -> str:
+        """
+        Print the arguments of a function.
+
+        Parameters
+        ----------
+        args : tuple[Any, ...]
+            Arguments to print.
+
+        Returns
+        -------
+        str
+            String to print.
+        """
+        return ", ".join(self._subs[k] if k in self._subs else self._print(k) for k in args)
+
     def _print_Function(self, expr: Expr) -> str:
         """
         Add in Function printing function.
@@ -429,7 +453,7 @@ class TfcPrinter(PythonCodePrinter):
         str
             String to print.
         """
-        return self._print(str(expr))
+        return expr.func.__name__ + "(" + self._print_args(expr.args) + ")"
 
     def _print_Subs(self, subs: Expr) -> str:
         """
@@ -446,10 +470,11 @@ class TfcPrinter(PythonCodePrinter):
             String to print.
         """
         expr, old, new = subs.args
-        expr = self._print(expr)
-        for k in range(len(old)):
-            expr = expr.replace(self._print(old[k]), self._print(new[k]))
-        return expr
+        outer = self._subs
+        self._subs = {**outer, **{o: self._print_args((n,)) for o, n in zip(old, new)}}
+        ret = self._print(expr)
+        self._subs = outer
+        return ret
 
     def _print_Derivative(self, expr: Expr) -> str:
         """
@@ -481,15 +506,10 @@ class TfcPrinter(PythonCodePrinter):
         # expressions then use self._print() instead of str() or latex().
         # See the example of nested modulo below in the custom printing
         # method section.
-        name = function.func.__name__
-        parenthesis_counter = 0
-        ret = ""
+        ret = function.func.__name__
         for pv in position_vars:
             for _ in range(pv[1]):
-                ret += self._print("egrad(" + name + "," + str(pv[0]))
-                parenthesis_counter += 1
-        for _ in range(parenthesis_counter):
-            ret += self._print(")")
-        ret += "(" + "".join(self._print(i[0]) for i in vars) + ")"
+                ret = "egrad(" + ret + "," + str(pv[0]) + ")"
+        ret += "(" + self._print_args(function_vars) + ")"
 
         return ret
-- 
2.43.0


From 073d072e66c6104fd95288e53f9b68c0de44607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 26/46] fix: ScaledQrLs scales the rows of the solution when B
 has several columns

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 43a5b4a..a02f125 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1719,7 +1719,7 @@ def ScaledQrLs(A: np.ndarray, B: np.ndarray) -> tuple[np.ndarray, np.ndarray]:
     S = 1.0 / np.sqrt(np.sum(A * A, 0))
     S = np.reshape(S, (A.shape[1],))
     q, r = np.linalg.qr(A.dot(np.diag(S)))
-    x: np.ndarray = S * np.linalg.multi_dot([_MatPinv(r), q.T, B])
+    x: np.ndarray = (S * np.linalg.multi_dot([_MatPinv(r), q.T, B]).T).T
     cn: np.ndarray = cast(np.ndarray, np.linalg.cond(r))
     return x, cn
 
-- 
2.43.0


From 1aa8b08f530005002cbe868222e0f4054cdc9b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 27/46] fix: egrad accepts callables that have no __qualname__

---
 src/tfc/utils/TFCUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index a02f125..e66829f 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -177,7 +177,7 @@ def egradRobust(g: Callable[..., Any], j: uint = 0):
     wrapped : function
         Derivative function
     """
-    if g.__qualname__ == "jit.<locals>.f_jitted":
+    if getattr(g, "__qualname__", None) == "jit.<locals>.f_jitted":
         g = g.__wrapped__
 
     def wrapped(*args: Any) -> Any:
-- 
2.43.0


From 29125ede66a099d79cea33d57ec3dc6a633696b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 28/46] fix: mtfc with the default x0 creates its collocation
 points

---
 src/tfc/mtfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index a5d03e9..6f8b624 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -335,7 +335,7 @@ class mtfc:
                 j = self.n[k] - 1
                 # Multiplying x0 by 0 here so the array will have the
                 # same type as x0.
-                I = onp.linspace(0 * x0[0], j, j + 1).reshape((j + 1, 1))
+                I = onp.linspace(0 * self.x0[0], j, j + 1).reshape((j + 1, 1))
                 dark = onp.cos(np.pi * (j - I) / float(j))
                 dark = onp.hstack([dark] * nProd).flatten()
                 self.z[k, :] = onp.array([dark] * nStack).flatten()
-- 
2.43.0


From 0eb37aea56f8cc2f32ae8e1422f7ca27dfaf660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 29/46] fix: LaTeX tables format every number and keep each row
 on one line

---
 src/tfc/utils/Latex.py | 32 +++++---------------------------
 1 file changed, 5 insertions(+), 27 deletions(-)

diff --git a/src/tfc/utils/Latex.py b/src/tfc/utils/Latex.py
index 819cac1..3f743f0 100644
--- a/src/tfc/utils/Latex.py
+++ b/src/tfc/utils/Latex.py
@@ -65,33 +65,11 @@ class table:
             Array formatted as a latex table.
         """
         out = str()
-        if rowHeader is None:
-            if np.size(arrIn.shape) == 2:
-                numRows = arrIn.shape[0]
-                for k in range(numRows):
-                    out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                    ).strip("[]")
-                    out += "\\\\\n\\hline\n"
-            else:
-                out += np.array2string(
-                    arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                ).strip("[]")
-                out += "\\\\\n"
-        else:
-            if np.size(arrIn.shape) == 2:
-                numRows = arrIn.shape[0]
-                for k in range(numRows):
-                    out += rowHeader[k] + " & "
-                    out += np.array2string(
-                        arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                    ).strip("[]")
-                    out += "\\\\\n\\hline\n"
-            else:
-                out += np.array2string(
-                    arrIn[k, :], separator=" & ", formatter={"float_kind": lambda x: form % x}
-                ).strip("[]")
-                out += "\\\\\n"
+        for k in range(arrIn.shape[0]):
+            if rowHeader is not None:
+                out += rowHeader[k] + " & "
+            out += " & ".join(form % x for x in arrIn[k, :])
+            out += "\\\\\n\\hline\n"
         return out.rstrip()
 
     @staticmethod
-- 
2.43.0


From 4c26d68bf4515caf98e8e080cd198e6d651f24e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 30/46] fix: Plotly MakePlot labels and views the right subplot

---
 src/tfc/utils/PlotlyMakePlot.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index b820a81..d2e3751 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -159,6 +159,7 @@ class MakePlot:
                     "The titles provided are not of a valid type. Please provide valid titles."
                 )
 
+        self._nCols = xlabs.shape[1]
         if int(np.prod(xlabs.shape)) != 1:
             from plotly.subplots import make_subplots
 
@@ -203,13 +204,13 @@ class MakePlot:
                                 title=zlabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                            self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                                 title=zlabs[row, col], exponentformat="e"
                             )
 
@@ -222,10 +223,10 @@ class MakePlot:
                                 title=ylabs[row, col], exponentformat="e"
                             )
                         else:
-                            self.fig["layout"]["xaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["xaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=xlabs[row, col], exponentformat="e"
                             )
-                            self.fig["layout"]["yaxis" + str(row + col + 1)].update(
+                            self.fig["layout"]["yaxis" + str(row * xlabs.shape[1] + col + 1)].update(
                                 title=ylabs[row, col], exponentformat="e"
                             )
 
@@ -262,17 +263,17 @@ class MakePlot:
                             "backgroundcolor"
                         ] = self._backgroundColor
                     else:
-                        self.fig["layout"]["scene" + str(row + col + 1)]["xaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["xaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["yaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["yaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
                         )
-                        self.fig["layout"]["scene" + str(row + col + 1)]["zaxis"].update(
+                        self.fig["layout"]["scene" + str(row * xlabs.shape[1] + col + 1)]["zaxis"].update(
                             gridcolor=self._gridColor,
                             zerolinecolor=self._gridColor,
                             backgroundcolor=self._backgroundColor,
@@ -604,7 +605,7 @@ class MakePlot:
             ]
         )
         if row and col:
-            sceneNum = row + col - 1
+            sceneNum = (row - 1) * self._nCols + col
             if sceneNum == 1:
                 sceneNum = ""
             else:
-- 
2.43.0


From ada5a7b8f42aad73315eb6cdc1c98e22627310c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 31/46] fix: NormalizeColorScale handles given limits and plots
 without the data

---
 src/tfc/utils/PlotlyMakePlot.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index d2e3751..61c790d 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -701,10 +701,10 @@ class MakePlot:
                         kmax = k[data].max()
                         kmin = k[data].min()
 
-                    if kmax > cmax:
-                        cmax = kmax
-                    if kmin < cmin:
-                        cmin = kmin
+                        if kmax > cmax:
+                            cmax = kmax
+                        if kmin < cmin:
+                            cmin = kmin
 
         colorScaleUpdate = {}
         if not cmax is None:
@@ -714,5 +714,4 @@ class MakePlot:
 
         for k in dark:
             if k.__class__.__name__ in types:
-                if data in k:
-                    k.update(colorScaleUpdate)
+                k.update(colorScaleUpdate)
-- 
2.43.0


From 2005b65e7ee64c6686e9452698211e543ddd3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:56 +0000
Subject: [PATCH 32/46] fix: MakePlot puts each title on its own subplot

---
 src/tfc/utils/MakePlot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/MakePlot.py b/src/tfc/utils/MakePlot.py
index 2b646d5..baf19a5 100644
--- a/src/tfc/utils/MakePlot.py
+++ b/src/tfc/utils/MakePlot.py
@@ -178,9 +178,10 @@ class MakePlot:
             count = 0
             for j in range(n[0]):
                 for k in range(n[1]):
-                    if titles[j, k] is None:
+                    if xlabs[j, k] is None:
                         continue
-                    self.ax[count].set_title(titles[j, k])
+                    if titles[j, k] is not None:
+                        self.ax[count].set_title(titles[j, k])
                     count += 1
 
         # Set tight layout for the figure
-- 
2.43.0


From 07e91dd8ab586b26e129d083b579f39d8bc6a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:23 +0000
Subject: [PATCH 33/46] fix: compiling H for points the C++ backend cannot
 handle raises instead of reading past them

---
 src/tfc/mtfc.py | 10 ++++++++++
 src/tfc/utfc.py |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 6f8b624..768de79 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -550,6 +550,16 @@ class mtfc:
 
         # Define abstract evaluation
         def H_abstract_eval(*x, d: tuple[int, ...] = d0, full: bool = False) -> core.ShapedArray:
+            if len(x) != self.dim:
+                raise ValueError(f"Expected {self.dim} arrays of points, but got {len(x)}.")
+            if len(x[0].shape) > 1 or any(k.shape != x[0].shape for k in x):
+                raise ValueError(
+                    f"The points must be 1-dimensional and of equal length, but got shapes {[k.shape for k in x]}."
+                )
+            if self._backend == "C++" and any(k.dtype != onp.float64 for k in x):
+                raise TypeError(
+                    f"The C++ backend can only be used for doubles, not {[k.dtype for k in x]}."
+                )
             if full:
                 dim1 = self.basisClass.numBasisFuncFull
             else:
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index dae9d64..466defa 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -302,6 +302,10 @@ class utfc:
 
         # Abstract evaluation
         def H_abstract_eval(x, d: uint = 0, full: bool = False) -> core.ShapedArray:
+            if len(x.shape) > 1:
+                raise ValueError(f"The points must be 1-dimensional, but got shape {x.shape}.")
+            if self._backend == "C++" and x.dtype != onp.float64:
+                raise TypeError(f"The C++ backend can only be used for doubles, not {x.dtype}.")
             if full:
                 dim1 = self.basisClass.m
             else:
-- 
2.43.0


From 5fe693894f8ae06ce6d56b5808ceb6a7f34fc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:22 +0000
Subject: [PATCH 34/46] fix: refusing the nC of an n-dimensional ELM does not
 free uninitialised pointers

---
 src/tfc/utils/BF.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tfc/utils/BF.h b/src/tfc/utils/BF.h
index 519970f..fbb131b 100644
--- a/src/tfc/utils/BF.h
+++ b/src/tfc/utils/BF.h
@@ -30,7 +30,7 @@ class BasisFunc {
     double c;
 
     /** Array that specifies which basis functions to remove. */
-    int *nC;
+    int *nC = nullptr;
 
     /** Number of basis functions to be removed. */
     int numC;
@@ -423,10 +423,10 @@ class nBasisFunc : virtual public BasisFunc {
     double zf;
 
     /** Multipliers for the linear domain map. */
-    double *c;
+    double *c = nullptr;
 
     /** Initial value of the domain */
-    double *x0;
+    double *x0 = nullptr;
 
     /** Number of dimensions. */
     int dim;
-- 
2.43.0


From 19baaab72b964c8919970905992ab12b5d66f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:49 +0000
Subject: [PATCH 35/46] fix: LS and NLLS accept scalar entries of a
 TFCDictRobust

---
 src/tfc/utils/TFCUtils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index e66829f..05883d4 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -852,7 +852,7 @@ def LS(
                     jacob = jacfwd(res, 0, holomorphic=holomorphic)(xi, *args)
                     return np.hstack(
                         [
-                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))
+                            jacob[k].reshape(jacob[k].shape[0], xi[k].size)
                             for k in xi.keys()
                         ]
                     )
@@ -975,7 +975,7 @@ class LsClass:
                         return np.hstack(
                             [
                                 jacob[k].reshape(
-                                    jacob[k].shape[0], onp.prod(onp.array(xi[k].shape))
+                                    jacob[k].shape[0], xi[k].size
                                 )
                                 for k in xi.keys()
                             ]
@@ -1217,7 +1217,7 @@ def NLLS(
                     jacob = jacfwd(res, 0, holomorphic=holomorphic)(xi, *args)
                     return np.hstack(
                         [
-                            jacob[k].reshape(jacob[k].shape[0], onp.prod(onp.array(xi[k].shape)))
+                            jacob[k].reshape(jacob[k].shape[0], xi[k].size)
                             for k in xi.keys()
                         ]
                     )
@@ -1415,7 +1415,7 @@ class NllsClass:
                         return np.hstack(
                             [
                                 jacob[k].reshape(
-                                    jacob[k].shape[0], onp.prod(onp.array(xi[k].shape))
+                                    jacob[k].shape[0], xi[k].size
                                 )
                                 for k in xi.keys()
                             ]
-- 
2.43.0


From 075d74f91a88eb97492780806b79b15913340f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:51 +0000
Subject: [PATCH 36/46] fix: NormalizeColorScale handles data given as lists

---
 src/tfc/utils/PlotlyMakePlot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index 61c790d..f7fb348 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -698,8 +698,8 @@ class MakePlot:
             for k in dark:
                 if k.__class__.__name__ in types:
                     if data in k:
-                        kmax = k[data].max()
-                        kmin = k[data].min()
+                        kmax = np.max(k[data])
+                        kmin = np.min(k[data])
 
                         if kmax > cmax:
                             cmax = kmax
-- 
2.43.0


From 815a3f7cbe50e663b0368159cf16dd04be899ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:59 +0000
Subject: [PATCH 37/46] fix: NormalizeColorScale skips plots whose data is not
 set

---
 src/tfc/utils/PlotlyMakePlot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index f7fb348..490c485 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -697,7 +697,7 @@ class MakePlot:
             cmin = np.inf
             for k in dark:
                 if k.__class__.__name__ in types:
-                    if data in k:
+                    if data in k and k[data] is not None:
                         kmax = np.max(k[data])
                         kmin = np.min(k[data])
 
-- 
2.43.0


From fdda6cc331ec7efccb15f346ba8ba200c4c1db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:08 +0000
Subject: [PATCH 38/46] fix: the n-dimensional Python basis functions refuse
 points that are not in a matrix

---
 src/tfc/utils/BF_Py.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 21a0a24..3c18ab4 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1052,6 +1052,8 @@ class nBasisFunc(BasisFunc):
         """
 
         # Check dimensions
+        if len(x.shape) != 2:
+            raise ValueError(f"x must be 2-dimensional, but got shape {x.shape}.")
         N = x.shape[1]
         if x.shape[0] != self._dim:
             raise ValueError(
@@ -1382,6 +1384,8 @@ class nELM(nBasisFunc):
         """
 
         # Check dimensions
+        if len(x.shape) != 2:
+            raise ValueError(f"x must be 2-dimensional, but got shape {x.shape}.")
         if x.shape[0] != self._dim:
             raise ValueError(
                 f"Incorrect dimension for x. Expected {self._dim} but got {x.shape[0]}."
-- 
2.43.0


From f7bb1f4fa44a62e860e18005a61fe44dab9a09c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:53 +0000
Subject: [PATCH 39/46] fix: the univariate Python basis functions refuse
 points that are not in a vector

---
 src/tfc/utils/BF_Py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 3c18ab4..c76501d 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -79,6 +79,8 @@ class BasisFunc(ABC):
         z = (x - self._x0) * self._c + self._z0
         if len(z.shape) == 1:
             z = np.expand_dims(z, 1)
+        elif len(z.shape) != 2 or z.shape[1] != 1:
+            raise ValueError(f"x must be 1-dimensional, but got shape {z.shape}.")
         dMult = self._c**d
         F = self._Hint(z, d) * dMult
         if not full and self._numC > 0:
-- 
2.43.0


From 9482e9d20790ca330dddbba88d2185fb92f59c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:00 +0000
Subject: [PATCH 40/46] fix: TfcPrinter puts parentheses around a substituted
 sum, product or power

---
 src/tfc/utils/CeSolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tfc/utils/CeSolver.py b/src/tfc/utils/CeSolver.py
index 42b0c14..7ace5f8 100644
--- a/src/tfc/utils/CeSolver.py
+++ b/src/tfc/utils/CeSolver.py
@@ -474,6 +474,8 @@ class TfcPrinter(PythonCodePrinter):
         self._subs = {**outer, **{o: self._print_args((n,)) for o, n in zip(old, new)}}
         ret = self._print(expr)
         self._subs = outer
+        if not isinstance(expr, (sp.Function, sp.Derivative, sp.Subs, sp.Symbol)):
+            ret = "(" + ret + ")"
         return ret
 
     def _print_Derivative(self, expr: Expr) -> str:
-- 
2.43.0


From 117c0434049b381621f4ca7bce7c2f1af1afea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:00 +0000
Subject: [PATCH 41/46] fix: the Python ELMs keep their own copy of the weights
 and biases they are given

---
 src/tfc/utils/BF_Py.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index c76501d..3fefa79 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -689,7 +689,7 @@ class ELM(BasisFunc):
             New weights.
         """
         if val.size == self._m:
-            self._w = val
+            self._w = val.copy()
             if self._w.shape != (1, self._m):
                 self._w = self._w.reshape((1, self._m))
         else:
@@ -708,7 +708,7 @@ class ELM(BasisFunc):
             New biases.
         """
         if val.size == self._m:
-            self._b = val
+            self._b = val.copy()
             if self._b.shape != (1, self._m):
                 self._b = self._b.reshape((1, self._m))
         else:
@@ -1337,7 +1337,7 @@ class nELM(nBasisFunc):
             New weights.
         """
         if val.size == self._m * self._dim:
-            self._w = val
+            self._w = val.copy()
             if self._w.shape != (self._dim, self._m):
                 self._w = self._w.reshape((self._dim, self._m))
         else:
@@ -1356,7 +1356,7 @@ class nELM(nBasisFunc):
             New biases.
         """
         if val.size == self._m:
-            self._b = val
+            self._b = val.copy()
             if self._b.shape != (1, self._m):
                 self._b = self._b.reshape((1, self._m))
         else:
-- 
2.43.0


From a69a460b4b5207130330c1c1235fc14b38519325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:00 +0000
Subject: [PATCH 42/46] fix: derivatives of the Python sigmoid and swish ELMs
 are finite for large negative arguments

---
 src/tfc/utils/BF_Py.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/BF_Py.py b/src/tfc/utils/BF_Py.py
index 3fefa79..722f5a9 100644
--- a/src/tfc/utils/BF_Py.py
+++ b/src/tfc/utils/BF_Py.py
@@ -1,5 +1,6 @@
 import numpy as np
 import jax.numpy as jnp
+from jax.nn import sigmoid
 from abc import ABC, abstractmethod
 from tfc.utils.tfc_types import uint, Number, JaxOrNumpyArray
 from typing import Callable, Tuple
@@ -763,7 +764,7 @@ class ELMSigmoid(ELM):
 
         from tfc.utils import egrad
 
-        f = lambda x: 1.0 / (1.0 + jnp.exp(-self._w * x - self._b))
+        f = lambda x: sigmoid(self._w * x + self._b)
 
         def Recurse(
             dark: Callable[[JaxOrNumpyArray], jnp.ndarray], d: uint, dCurr: uint = 0
@@ -877,7 +878,7 @@ class ELMSwish(ELM):
 
         from tfc.utils import egrad
 
-        f = lambda x: (self._w * x + self._b) / (1.0 + jnp.exp(-self._w * x - self._b))
+        f = lambda x: (self._w * x + self._b) * sigmoid(self._w * x + self._b)
 
         def Recurse(
             dark: Callable[[JaxOrNumpyArray], jnp.ndarray], d: uint, dCurr: uint = 0
@@ -1588,7 +1589,7 @@ class nELMSigmoid(nELM):
 
         from tfc.utils import egrad
 
-        f = lambda *x: 1.0 / (1.0 + jnp.exp(-jnp.dot(jnp.hstack(x), self._w) - self._b))
+        f = lambda *x: sigmoid(jnp.dot(jnp.hstack(x), self._w) + self._b)
 
         z = jnp.split(z, z.shape[1], axis=1)
 
@@ -1637,7 +1638,7 @@ class nELMSwish(nELM):
 
         def f(*x):
             dark = jnp.dot(jnp.hstack(x), self._w) + self._b
-            return dark / (1.0 + jnp.exp(-dark))
+            return dark * sigmoid(dark)
 
         z = jnp.split(z, z.shape[1], axis=1)
 
-- 
2.43.0


From 834a40c8f1f5951fab9022fe86c557b3a2f2e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:00 +0000
Subject: [PATCH 43/46] fix: LS and NLLS accept negative and repeated
 constant_arg_nums, as pe does

---
 src/tfc/utils/TFCUtils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 05883d4..6320310 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -878,7 +878,7 @@ def LS(
         ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
         args: list[Any] = list(args)
-        for k in sorted(constant_arg_nums, reverse=True):
+        for k in sorted({range(len(args) + 1)[k] for k in constant_arg_nums}, reverse=True):
             args.pop(k - 1)
 
     ls = jit(ls)
@@ -1003,7 +1003,7 @@ class LsClass:
             ls = pe(zXi, *args, constant_arg_nums=constant_arg_nums)(ls)
 
             args: list[Any] = list(args)
-            for k in sorted(constant_arg_nums, reverse=True):
+            for k in sorted({range(len(args) + 1)[k] for k in constant_arg_nums}, reverse=True):
                 args.pop(k - 1)
 
         self._ls = jit(ls)
@@ -1244,7 +1244,7 @@ def NLLS(
         res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
         args: list[Any] = list(args)
-        for k in sorted(constant_arg_nums, reverse=True):
+        for k in sorted({range(len(args) + 1)[k] for k in constant_arg_nums}, reverse=True):
             args.pop(k - 1)
 
     if body is None:
@@ -1443,7 +1443,7 @@ class NllsClass:
             res = pe(xiInit, *args, constant_arg_nums=constant_arg_nums)(res)
 
             args: list[Any] = list(args)
-            for k in sorted(constant_arg_nums, reverse=True):
+            for k in sorted({range(len(args) + 1)[k] for k in constant_arg_nums}, reverse=True):
                 args.pop(k - 1)
 
         if body is None:
-- 
2.43.0


From 8d753b18faf5a84d1d4a4dd48a53290fae4cbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:00 +0000
Subject: [PATCH 44/46] fix: criuCheckpoint spells --unprivileged correctly and
 quotes the directory

---
 src/tfc/utils/TFCUtils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tfc/utils/TFCUtils.py b/src/tfc/utils/TFCUtils.py
index 6320310..1351509 100644
--- a/src/tfc/utils/TFCUtils.py
+++ b/src/tfc/utils/TFCUtils.py
@@ -1775,9 +1775,11 @@ def criuCheckpoint(dir: str = "criu_checkpoint", user_mode: bool = False):
     """
 
     import os
+    import shlex
     from pathlib import Path
 
     path = Path(dir)
+    where = shlex.quote(str(path.absolute()))
     pid = os.getpid()
 
     # Create path if it does not exist
@@ -1787,15 +1789,15 @@ def criuCheckpoint(dir: str = "criu_checkpoint", user_mode: bool = False):
     # Run the command and print how to restart
     if user_mode:
         os.system(
-            f"(criu dump --unpriviledged -t {pid} -D {str(path.absolute())} --shell-job --leave-running &) &"
+            f"(criu dump --unprivileged -t {pid} -D {where} --shell-job --leave-running &) &"
         )
         print(
-            f"Creating a checkpoint. To restart run: sudo criu restore -D {str(path.absolute())} --shell-job"
+            f"Creating a checkpoint. To restart run: sudo criu restore -D {where} --shell-job"
         )
     else:
         os.system(
-            f"(sudo criu dump -t {pid} -D {str(path.absolute())} --shell-job --leave-running &) &"
+            f"(sudo criu dump -t {pid} -D {where} --shell-job --leave-running &) &"
         )
         print(
-            f"Creating a checkpoint. To restart run: sudo criu restore -D {str(path.absolute())} --shell-job"
+            f"Creating a checkpoint. To restart run: sudo criu restore -D {where} --shell-job"
         )
-- 
2.43.0


From bdd1afcd3b672af30f237ade23c57e632830a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 45/46] fix: crop saved Plotly pictures by whole pixels

The crop looked at single colour values and cut channels too, so an opaque
picture lost its alpha channel and could not be written, nor could a blank one.
---
 src/tfc/utils/PlotlyMakePlot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tfc/utils/PlotlyMakePlot.py b/src/tfc/utils/PlotlyMakePlot.py
index 490c485..7ae0210 100644
--- a/src/tfc/utils/PlotlyMakePlot.py
+++ b/src/tfc/utils/PlotlyMakePlot.py
@@ -528,12 +528,13 @@ class MakePlot:
             pilImage = Image.open(dark)
             pngArray = np.array(pilImage)
             blankPx = pngArray[0, 0, :]
-            mask = pngArray != blankPx
+            mask = np.any(pngArray != blankPx, axis=2)
             coords = np.argwhere(mask)
-            x0, y0, z0 = coords.min(axis=0)
-            x1, y1, z1 = coords.max(axis=0) + 1
-            croppedBox = pngArray[x0:x1, y0:y1, z0:z1]
-            pilImage = Image.fromarray(croppedBox, "RGBA")
+            if coords.size > 0:
+                x0, y0 = coords.min(axis=0)
+                x1, y1 = coords.max(axis=0) + 1
+                pngArray = pngArray[x0:x1, y0:y1, :]
+            pilImage = Image.fromarray(pngArray)
             pilImage.save(fileNameFull)
         else:
             self.fig.write_image(fileNameFull, **kwargs)
-- 
2.43.0


From 9c2b61754a5d625c1aa2723b8fbdf739e5f698c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:47 +0000
Subject: [PATCH 46/46] fix: vmap over arrays of points and over some of the
 coordinates

The batching rule passed the batched points on unchanged, so mapping over rows
of points, along another axis, or over only some coordinates of an mtfc failed.
---
 src/tfc/mtfc.py | 8 +++++++-
 src/tfc/utfc.py | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tfc/mtfc.py b/src/tfc/mtfc.py
index 768de79..c3f0b68 100644
--- a/src/tfc/mtfc.py
+++ b/src/tfc/mtfc.py
@@ -617,7 +617,13 @@ class mtfc:
 
         # Batching translation
         def H_batch(vec, batch, d: tuple[int, ...] = d0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            size = next(v.shape[b] for v, b in zip(vec, batch) if b is not None)
+            x = [
+                np.broadcast_to(v, (size, *v.shape)) if b is None else np.moveaxis(v, b, 0)
+                for v, b in zip(vec, batch)
+            ]
+            out = Hjax(*[k.reshape(-1) for k in x], d=d, full=full)
+            return out.reshape(x[0].shape + out.shape[1:]), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
diff --git a/src/tfc/utfc.py b/src/tfc/utfc.py
index 466defa..179f4a3 100644
--- a/src/tfc/utfc.py
+++ b/src/tfc/utfc.py
@@ -357,7 +357,9 @@ class utfc:
 
         # Define batching translation
         def H_batch(vec, batch, d: uint = 0, full: bool = False):
-            return Hjax(*vec, d=d, full=full), batch[0]
+            x = np.moveaxis(vec[0], batch[0], 0)
+            out = Hjax(x.reshape(-1), d=d, full=full)
+            return out.reshape(x.shape + out.shape[1:]), 0
 
         batching.primitive_batchers[H_p] = H_batch
 
-- 
2.43.0

