From 221bf9d4b781d369f2a083a171406d6d915bcaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:11 +0000
Subject: [PATCH 01/53] fix: round the products of the Kaucher multiplication
 formulas outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..45c49c8 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -413,8 +413,6 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             with RoundingContext(FE_DOWNWARD):
@@ -435,9 +433,9 @@ cdef class ClassicalArithmetic(BaseTools):
             otherSupMinus = otherSupPlus - other.b
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus + selfSupPlus * (-otherInfMinus) + selfInfMinus * (-otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus + selfInfPlus * (-otherSupMinus) + selfSupMinus * (-otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -551,8 +549,6 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             selfInfPlus = max(self.a, 0.0)
@@ -566,9 +562,9 @@ cdef class KaucherArithmetic(BaseTools):
             otherSupMinus = otherSupPlus - other.b
             
             with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * (-otherInfMinus), selfInfMinus * (-otherSupPlus))
             with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * (-otherSupMinus), selfSupMinus * (-otherInfPlus))
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -576,8 +572,6 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
@@ -600,9 +594,9 @@ cdef class KaucherArithmetic(BaseTools):
             otherSupMinus = otherSupPlus - other.b
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus + selfSupPlus * (-otherInfMinus) + selfInfMinus * (-otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus + selfInfPlus * (-otherSupMinus) + selfSupMinus * (-otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
@@ -662,8 +656,6 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, Number):
             selfInfPlus = max(self.a, 0.0)
@@ -677,9 +669,9 @@ cdef class KaucherArithmetic(BaseTools):
             otherSupMinus = otherSupPlus - other
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus + selfSupPlus * (-otherInfMinus) + selfInfMinus * (-otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus + selfInfPlus * (-otherSupMinus) + selfSupMinus * (-otherInfPlus)
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
-- 
2.43.0


From 83ff1ad743099414df038c3240df1818e6aab317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 02/53] fix: divide an interval by a number with directed
 rounding

---
 intvalpy/kernel/interval_arithmetics.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 45c49c8..51cb234 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -461,6 +461,12 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self.__truediv__(ClassicalArithmetic(other, other))
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+
         else:
             return 1.0/other * self
     
@@ -608,6 +614,12 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self.__truediv__(ClassicalArithmetic(other, other))
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+
         else:
             return 1/other * self
     
-- 
2.43.0


From f9dc7cece47c354c8591d1ad55cbaccdebe0826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 03/53] fix: apply numpy operators with the interval on either
 side

---
 intvalpy/kernel/interval_arithmetics.pyx | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 51cb234..57f7b5d 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -352,22 +352,17 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
-        cdef double_t inf, sup
         if args[0].__name__ in ['add']:
-            return self.__radd__(args[2])
+            return self + args[3] if args[2] is self else self.__radd__(args[2])
 
         elif args[0].__name__ in ['subtract']:
-            return type(self)(-self.b, -self.a).__radd__(args[2])
+            return self - args[3] if args[2] is self else self.__rsub__(args[2])
 
         elif args[0].__name__ in ['multiply']:
-            return self.__rmul__(args[2])
+            return self * args[3] if args[2] is self else self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            return self / args[3] if args[2] is self else self.__rtruediv__(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
-- 
2.43.0


From ed6a90699032f8a474e7a9d7a6cf3f51405b2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 04/53] fix: reject improper divisors that contain zero

---
 intvalpy/kernel/interval_arithmetics.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 57f7b5d..49178d1 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -448,7 +448,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -601,7 +601,7 @@ cdef class KaucherArithmetic(BaseTools):
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -685,7 +685,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From 9a4cbeda6e411b34ba8c480a65a948e0d907d7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 05/53] fix: raise TypeError for unsupported types in
 containment tests

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 49178d1..ee286ec 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -202,7 +202,7 @@ cdef class BaseTools:
         elif isinstance(other, ARITHMETICS):
             return (self.a <= other.a) and (other.b <= self.b)
         else:
-            TypeError('Not supported type.')
+            raise TypeError('Not supported type.')
                         
     def __lt__(self, other):
         if isinstance(other, Number):
-- 
2.43.0


From ef5f9dfa5987d4878c7564fd7788db036e2dc5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 06/53] fix: keep the exponential an enclosure at the overflow
 threshold

---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index ee286ec..120e493 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, NEGINF)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INF)
 #######################################################################################
 
 
@@ -259,10 +259,13 @@ cdef class BaseTools:
         cdef double_t inf, sup
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From b5ff0003929f5fc1b9f0830bef7f5a529a754551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 07/53] fix: choose the class of the inverse interval by its
 own endpoints

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 120e493..98cd181 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -174,7 +174,7 @@ cdef class BaseTools:
             inf = 1.0/self.a
         with RoundingContext(FE_UPWARD):
             sup = 1.0/self.b
-        if self.b <= self.a:
+        if inf <= sup:
             return ClassicalArithmetic(inf, sup)
         else:
             return KaucherArithmetic(inf, sup)
-- 
2.43.0


From 117fea3cfc59b4d2805aa1be6b8f2549cc406fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 08/53] fix: build a degenerate interval from a single number

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..9e98409 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -461,11 +461,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From c3426febf296e55377baf5e188fe19e84e55515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 09/53] fix: iterate a reversed interval array over its own
 storage

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 9e98409..fd5f7ff 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -146,7 +146,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From 01161b9dcbd8ba3a5601c4ac3b19237df9b09a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 10/53] fix: apply numpy operators with the interval array on
 either side

---
 intvalpy/kernel/real_intervals.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index fd5f7ff..e2bee54 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -132,8 +132,8 @@ class ArrayInterval:
     def __deepcopy__(self, memo):
         return ArrayInterval(np.copy(self._data))
 
-    def __array__(self):
-        return self._data
+    def __array__(self, dtype=None, copy=None):
+        return np.array(self._data, dtype=dtype) if copy else self._data
 
     @property
     def T(self):
@@ -322,18 +322,20 @@ class ArrayInterval:
 
     def __array_ufunc__(self, *args):
         if args[0].__name__ in ['add']:
-            return ArrayInterval(self._data + args[2])
+            return self + args[3] if args[2] is self else ArrayInterval(args[2] + self._data)
 
         elif args[0].__name__ in ['subtract']:
-            return ArrayInterval(args[2] - self._data)
+            return self - args[3] if args[2] is self else ArrayInterval(args[2] - self._data)
 
         elif args[0].__name__ in ['multiply']:
-            return ArrayInterval(args[2] * self._data)
+            return self * args[3] if args[2] is self else ArrayInterval(args[2] * self._data)
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            return ArrayInterval(args[2] / self._data)
+            return self / args[3] if args[2] is self else ArrayInterval(args[2] / self._data)
 
         elif args[0].__name__ in ['matmul']:
+            if args[2] is self:
+                return self @ args[3]
             matmul = args[2] @ self._data
             if isinstance(matmul, INTERVAL_CLASSES):
                 return matmul
-- 
2.43.0


From 930f8179fde7abdeff1859260259436da44d6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 11/53] fix: give scalar intervals the to_float conversion
 arrays rely on

---
 intvalpy/kernel/interval_arithmetics.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 98cd181..241f62a 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -118,6 +118,9 @@ cdef class BaseTools:
         else:
             return self
     
+    def to_float(self):
+        return type(self)(float(self.a), float(self.b))
+
     @property
     def wid(self):
         """Width of the non-empty interval."""
-- 
2.43.0


From 1f388ae2a4d7cff990bee2445409ec19b3a97737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 12/53] fix: convert non-interval operands in intersection

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From 9332a53307a9b52f9ff59b8a9116737bdba9d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 13/53] fix: make supercontain the elementwise mirror of
 contain

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..1c21ae5 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -198,4 +198,4 @@ proper_subset = lambda a, b: np.array(((a.a > b.a) & (a.b < b.b)), dtype=np.bool
 proper_superset = lambda a, b: proper_subset(b, a)
 
 contain = lambda a, b: np.array(((a.a >= b.a) & (a.b <= b.b)), dtype=np.bool)
-supercontain = lambda a, b: subset(b, a)
+supercontain = lambda a, b: contain(b, a)
-- 
2.43.0


From 583c1d627744bba580945e8ffa687e172dfd31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 14/53] fix: do not store the computed penalty weight in the
 caller's constraint

---
 intvalpy/kernel/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..3260cb8 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import itertools
 
@@ -52,6 +53,7 @@ class BaseRecFun(object):
         else:
             if linear_constraint.mu is None:
                 mag_value = mag(A)
+                linear_constraint = copy.copy(linear_constraint)
                 linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
-- 
2.43.0


From 83b9dc31e13c2e1f87823f92ebdc50b71d97a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 15/53] fix: smooth a copy of the caller's weights

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..28b83be 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -348,6 +348,8 @@ class ISPAE(object):
         # Initialize weights
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0c9ec4e 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -108,6 +108,8 @@ class WILS(object):
         
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From 0a9efefcaf5f68629fdcaf4f895feee8a42c4f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 16/53] fix: compute the penalty weight of a WILS constraint
 when none is given

---
 intvalpy/models/WILS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 0c9ec4e..e4fa3f1 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,5 +1,6 @@
+import copy
 import numpy as np
-from ..kernel.utils import inf, sup, mid, rad
+from ..kernel.utils import inf, sup, mid, rad, mag
 from ..kernel.abstract import BaseRecFun
 from ..kernel.ralgb5 import ralgb5
 
@@ -116,6 +117,10 @@ class WILS(object):
             weight[k] = self.beta * (weight[k]*(1 - self.alpha) + self.alpha*weight[k-1])
 
 
+        if constraint is not None and constraint.mu is None:
+            constraint = copy.copy(constraint)
+            constraint.find_mu(np.max(mag(X_train)))
+
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
         def calcfg(beta):
             if objective == 'Tol':
-- 
2.43.0


From df349ab12143490b7eee30fbe1483fae9f97543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 17/53] fix: accept linear constraints without finite bounds

---
 intvalpy/kernel/abstract.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 3260cb8..15886c0 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -230,20 +230,13 @@ class LinearConstraint:
             n = len(self.C)
             if n == 0:
                 self.C.append(C[0])
-                self.b.append(ub[0])
-            else:
-                w = np.random.uniform(1, 1, n) # TODO
-                # TODO
-                # переписать более оптимальным способом
-                W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-                for k in range(W.shape[1]):
-                    W[:, k] = w
+                self.b.append(np.inf)
 
-            self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
+            self.C, self.b = np.array(self.C, dtype=np.float64), np.array(self.b, dtype=np.float64)
 
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = np.array(C[:1], dtype=np.float64), np.array([np.inf])
 
         self.mu = mu
 
-- 
2.43.0


From e2bbae1d67f09cce174024a2bf4100f151f9b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 18/53] fix: forget drawing windows left by earlier unbounded
 systems

---
 intvalpy/linear/boundary_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..bee121a 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -293,6 +293,7 @@ def IntLinIncR2(
         return lineqs(A, b, show=show, title=title, color=color, bounds=bounds,
                       alpha=alpha, s=s, size=size, save=save)
 
+    __center_rm.clear()
     ortant = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
     vertices = []
     n, m = A.shape
@@ -326,13 +327,12 @@ def IntLinIncR2(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
         bounds = np.array([[-_max, -_max], [_max, _max]])
         algo(bounds)
-    __center_rm = []
+    __center_rm.clear()
 
     if show:
         fig = plt.figure(figsize=size)
@@ -595,6 +595,7 @@ def IntLinIncR3(
         return lineqs3D(A, b, show=False, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
+    __center_rm.clear()
     ortant = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1),
               (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]
     vertices = []
@@ -647,13 +648,12 @@ def IntLinIncR3(
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
         bounds = np.array([[-_max, -_max, -_max], [_max, _max, _max]])
         gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
-    __center_rm = []
+    __center_rm.clear()
 
     if show:
         fig = plt.figure(figsize=size)
-- 
2.43.0


From 5e599e0883a4bbe2809698a4878ff8e3f47acc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 19/53] fix: draw a point system in IntLinIncR3 when asked to

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index bee121a..f259ebf 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -592,7 +592,7 @@ def IntLinIncR3(
     """
 
     if not (isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES)):
-        return lineqs3D(A, b, show=False, color=color,
+        return lineqs3D(A, b, show=show, color=color,
                         alpha=alpha, s=s, size=size, bounds=bounds)
 
     __center_rm.clear()
-- 
2.43.0


From 95f6cd04d68a34e96050b252c43da9ab68771102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 20/53] fix: check the dimensions of the system in Gauss

---
 intvalpy/linear/Gauss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..ee823a6 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -23,7 +23,9 @@ def Gauss(A, b):
     """
 
     A, b = A.copy(), b.copy()
-    n, _ = A.shape
+    n, m = A.shape
+    assert n == m, 'Matrix is not square'
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
 
     r = zeros((n, n))
     x = zeros(n)
-- 
2.43.0


From 8122f2340981bc7f0683d5bd5072cc1fb9540ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 21/53] fix: check the shape of the system before
 preconditioning it in Rohn

---
 intvalpy/linear/Rohn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..5132cd3 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -63,14 +63,14 @@ def _Rohn_Tol(A, b, nu=None):
 
 def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
 
+    n, m = A.shape
+    assert m <= n, 'Количество строк должно быть не меньше, чем количество столбцов!'
+
     Amid = np.array(A.mid, dtype=np.float64)
     Ac_plus = np.linalg.inv(Amid.T @ Amid) @ Amid.T
     A = Ac_plus @ A.copy()
     b = Ac_plus @ b.copy()
 
-    n, m = A.shape
-    assert m <= n, 'Количество строк должно быть не меньше, чем количество столбцов!'
-
     Amid = np.array(A.mid, dtype=np.float64)
     R = np.linalg.inv(Amid.T @ Amid) @ Amid.T
     x0 = R @ b.mid
-- 
2.43.0


From 0ab1e4a39a17a9e2a33d730c41d321a4b653a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 22/53] fix: require every component of the H-matrix test
 vector to be positive

---
 intvalpy/linear/Gauss_Seidel.py | 2 +-
 intvalpy/linear/HBR.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/Gauss_Seidel.py b/intvalpy/linear/Gauss_Seidel.py
index d246033..1bcc3db 100644
--- a/intvalpy/linear/Gauss_Seidel.py
+++ b/intvalpy/linear/Gauss_Seidel.py
@@ -51,7 +51,7 @@ def Gauss_Seidel(A, b, x0=None, C=None, tol=1e-12, maxiter=2000):
     B = np.linalg.inv(np.array(compmat(A), dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
 
     distance = np.inf
diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index dda456d..d585a4f 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -39,7 +39,7 @@ def HBR(A, b):
     B = np.linalg.inv(np.array(A, dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
     # проводим процедуру Хансена-Блика-Рона
     dAc = np.diag(A)
-- 
2.43.0


From e2acdc8754fcb8321fb6f390503f0af92f1a5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 23/53] fix: mirror the initial box together with the
 right-hand side in PSS

---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..8407492 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -132,7 +132,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            return endint * x0.copy()
 
         if n > m:
             try:
-- 
2.43.0


From d34d55fb584ee27b809d71c229dda363402ac2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 24/53] fix: let interrupts pass through the handlers of PSS

---
 intvalpy/linear/PSS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 8407492..b3064df 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -95,7 +95,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
     def Omega(bAr, _nu, Anu, index_classic_div, index_kahan_div, num_func):
         try:
             div = bAr[index_classic_div]/Anu[index_classic_div]
-        except:
+        except Exception:
             div = []
         pdiv = []
 
@@ -106,7 +106,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
             result = intersection(div[0], V[_nu])
             for el in div[1:]:
                 result = intersection(result, el)
-        except:
+        except Exception:
             result = intersection(pdiv[0], V[_nu])
 
         for el in pdiv:
@@ -137,12 +137,12 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         if n > m:
             try:
                 V = Rohn(A, b)
-            except:
+            except Exception:
                 V = Interval([-10**14]*m, [10**14]*m, sortQ=False)
         else:
             try:
                 V = Gauss(A, b)
-            except:
+            except Exception:
                 V = Interval([-10**14]*m, [10**14]*m, sortQ=False)
 
         return V
@@ -303,7 +303,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     break
                 except IndexError:
                     return L[0][1]
-                except:
+                except Exception:
                     item += 1
 
             nit += 1
-- 
2.43.0


From a928440d32f42010ec64ba01d9660619ce83e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 25/53] fix: scale the ChebNorm subgradient by the weight of
 its component

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 4673d27..a7fd2d5 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -54,7 +54,7 @@ class ChebNorm:
         A_opt = ChebNorm.__calc_opt_A(x, infA, supA, bm)
         index = (weight * (br.T + abs(bm.T - A_opt @ x))).argmax()
         val =(weight * (br.T + abs(bm.T - A_opt @ x))).max()
-        grad = A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
+        grad = weight[index] * A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
 
         return val, grad
 
-- 
2.43.0


From 200d607d4fb002f13204dc8e877b94bf5011099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 26/53] fix: reject unknown norms in the regression models

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 28b83be..e6edc9b 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -66,6 +66,8 @@ class ISPAE(object):
         elif norm == 'l1':
             mcs = list(range(len(residual)))
             obj = np.sum(residual)
+        else:
+            raise ValueError("Invalid norm.")
         return obj, mcs
 
         
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index e4fa3f1..d850e9c 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -24,6 +24,9 @@ class WILS(object):
         elif norm == 'l1':
             mcs = range(len(residual))
             obj = np.sum(residual)
+
+        else:
+            raise Exception('Such a norm is not provided.')
             
         return obj, mcs
 
-- 
2.43.0


From 5d898458d10b8d39f6096d731c5afc42a2f2d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 27/53] fix: refresh the cached shape after in-place operations

---
 intvalpy/kernel/real_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index e2bee54..8039873 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -305,19 +305,19 @@ class ArrayInterval:
             return ArrayInterval(matmul)
 
     def __iadd__(self, other):
-        self._data = np.array(self._data + other)
+        self.__init__(self._data + other)
         return self
 
     def __isub__(self, other):
-        self._data = np.array(self._data - other)
+        self.__init__(self._data - other)
         return self
 
     def __imul__(self, other):
-        self._data = np.array(self._data * other)
+        self.__init__(self._data * other)
         return self
 
     def __itruediv__(self, other):
-        self._data = np.array(self._data / other)
+        self.__init__(self._data / other)
         return self
 
     def __array_ufunc__(self, *args):
-- 
2.43.0


From 7aac090fefde02fc8fe8be7c2107ae54f558853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 28/53] fix: delete slices and index lists from an interval
 array

---
 intvalpy/kernel/real_intervals.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 8039873..874824c 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -234,7 +234,12 @@ class ArrayInterval:
             self._shape = self._data.shape
             self._ndim = self._data.ndim
             self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
-        elif isinstance(key, (slice, tuple, list, np.ndarray)):
+        elif isinstance(key, (slice, list, np.ndarray)):
+            self._data = np.delete(self._data, key, axis=0)
+            self._shape = self._data.shape
+            self._ndim = self._data.ndim
+            self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
+        elif isinstance(key, tuple):
             self._data = np.delete(self._data, key[-1], axis=len(key)-1)
             self._shape = self._data.shape
             self._ndim = self._data.ndim
-- 
2.43.0


From de361bfdf37f18a244f1fde53b662fe67552277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 29/53] fix: return no vertices for a system with a
 contradictory zero row

---
 intvalpy/linear/boundary_intervals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index f259ebf..4a9157a 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -182,6 +182,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return []
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
@@ -409,6 +411,8 @@ def lineqs3D(
     b = np.asarray(b)
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        return []
     A, b = non_repeat(A, b)
 
     n, m = A.shape
-- 
2.43.0


From 2fa838398bd90bd6032e7d99df7b99dc51d2d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 30/53] fix: tightest product of a classical and a Kaucher
 interval that both straddle zero

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 241f62a..6c69892 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -434,9 +434,9 @@ cdef class ClassicalArithmetic(BaseTools):
             otherSupMinus = otherSupPlus - other.b
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus + selfSupPlus * (-otherInfMinus) + selfInfMinus * (-otherSupPlus)
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) + min(selfSupPlus * (-otherInfMinus), selfInfMinus * (-otherSupPlus))
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus + selfInfPlus * (-otherSupMinus) + selfSupMinus * (-otherInfPlus)
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) + min(selfInfPlus * (-otherSupMinus), selfSupMinus * (-otherInfPlus))
             return KaucherArithmetic(inf, sup)
         
         else:
-- 
2.43.0


From d4f66f465e8178921a93510f66b059dfe84f801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 31/53] fix: width of a plain number is zero

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 1c21ae5..0795a6c 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -91,7 +91,7 @@ def wid(x):
         if isinstance(x, ARITHMETICS):
             return x.wid
         else:
-            return float(x)
+            return 0.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From 811ba016c1450d74a18d973b4bb189bd347e4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 32/53] fix: even power of a Kaucher interval whose ends are in
 order and negative

---
 intvalpy/kernel/interval_arithmetics.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6c69892..935b4df 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -627,6 +627,8 @@ cdef class KaucherArithmetic(BaseTools):
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
+            if self.a <= self.b:
+                return ClassicalArithmetic(self.a, self.b) ** other
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a ** other
             with RoundingContext(FE_UPWARD):
-- 
2.43.0


From c030ae13ef377cd75e02de47d764754b89c4f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 33/53] fix: number times a Kaucher interval with an infinite
 end (square root of zero was nan)

---
 intvalpy/kernel/interval_arithmetics.pyx | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 935b4df..05495e4 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -673,20 +673,11 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         
         if isinstance(other, Number):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other, 0.0)
-            otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
-            
+            left, right = (self.a, self.b) if other >= 0 else (self.b, self.a)
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus + selfSupPlus * (-otherInfMinus) + selfInfMinus * (-otherSupPlus)
+                inf = other * left
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus + selfInfPlus * (-otherSupMinus) + selfSupMinus * (-otherInfPlus)
+                sup = other * right
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
-- 
2.43.0


From f85d4d71320e9be635457ffe01bff09b699cdac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 34/53] fix: natural powers are rounded outward

---
 intvalpy/kernel/interval_arithmetics.pyx | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 05495e4..c454afa 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -56,6 +56,20 @@ cdef double round_down(double x) nogil:
 
 cdef double round_up(double x) nogil:
     return nextafter(x, INF)
+
+
+cdef object natural_power(object x, object n, int mode):
+    """Natural power of a number rounded in the given direction."""
+    if x < 0 and n % 2:
+        return -natural_power(-x, n, FE_UPWARD if mode == FE_DOWNWARD else FE_DOWNWARD)
+    base, result = abs(x), 1
+    with RoundingContext(mode):
+        while n > 0:
+            if n % 2:
+                result = result * base
+            base = base * base
+            n = n // 2
+    return result
 #######################################################################################
 
 
@@ -473,10 +487,8 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __pow__(self, other):
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
-            with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
+            inf = min(natural_power(self.a, other, FE_DOWNWARD), natural_power(self.b, other, FE_DOWNWARD))
+            sup = max(natural_power(self.a, other, FE_UPWARD), natural_power(self.b, other, FE_UPWARD))
             if (other % 2 == 0) and (0 in self):
                 return ClassicalArithmetic(0.0, sup)
             else:
@@ -629,10 +641,8 @@ cdef class KaucherArithmetic(BaseTools):
         if isinstance(other, (int, np.int_)) and other >= 0:
             if self.a <= self.b:
                 return ClassicalArithmetic(self.a, self.b) ** other
-            with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
-            with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
+            inf = natural_power(self.a, other, FE_DOWNWARD)
+            sup = natural_power(self.b, other, FE_UPWARD)
             if (other % 2 == 0) and (0 in self):
                 return ClassicalArithmetic(0.0, max(inf, sup))
             elif (other % 2 == 0) and (0 in self.pro):
-- 
2.43.0


From b0a75747cd843b002f1373cbe4287e80e687c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:33 +0000
Subject: [PATCH 35/53] fix: ChebNorm compares both ends of the residual

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index a7fd2d5..d0b67f5 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -39,7 +39,7 @@ class ChebNorm:
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
             x_max = ChebNorm.__calc_lp_on_box(-x, infA[j], supA[j])
-            f_max = x_max @ (-x)
+            f_max = x_max @ x
             if bm[j] - f_min >= f_max - bm[j]:
                 A_opt[j] = x_min
             else:
-- 
2.43.0


From bd122bc2eca563e01ddb09438e368581a2c8747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:44 +0000
Subject: [PATCH 36/53] fix: ChebNorm keeps the optimal matrix of an integer
 system in floating point

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index d0b67f5..5e86919 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -34,7 +34,7 @@ class ChebNorm:
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
-        A_opt = np.zeros_like(infA)
+        A_opt = np.zeros_like(infA, dtype=np.float64)
         for j in range(len(bm)):
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
-- 
2.43.0


From 9e31d1bd5ee45d892218dc5cb0595887e724d511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:33 +0000
Subject: [PATCH 37/53] fix: eliminate with the outer product of multipliers
 and pivot row in Gauss

---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index ee823a6..70cdbdf 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -45,7 +45,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, [j]] * A[[j], j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From 5d234129ed540711df7d3c4dc934d165fba958cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 38/53] fix: take the smallest radius over the rows and the
 unweighted residual in Neumaier

---
 intvalpy/linear/Neumaier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..e0547aa 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -39,5 +39,5 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From 8482406e0dffb141db14400960a922b0a7c1ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 39/53] fix: divide by the per-row diagonal bounds in HBR with
 a matrix right-hand side

---
 intvalpy/linear/HBR.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index d585a4f..2c9e900 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -54,6 +54,5 @@ def HBR(A, b):
         beta = u / dlow - b.mag
         return (b + Interval(-beta, beta)) / (dA + Interval(-alpha, alpha))
     else:
-        v = np.ones(n)
-        beta = u / (d @ v) - b.mag
-        return (b + Interval(-beta, beta)) / ( (dA + Interval(-alpha, alpha)) @ v )
+        beta = u / dlow.reshape((n, 1)) - b.mag
+        return (b + Interval(-beta, beta)) / (dA + Interval(-alpha, alpha)).reshape((n, 1))
-- 
2.43.0


From 3b739728784585595ab44a91ef29e01379a04d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:58 +0000
Subject: [PATCH 40/53] fix: sign of the derivative for two improper factors in
 Subdiff

---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From 1a769c98f95616bc5bbe10cff2201056de977198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 41/53] fix: PPS returned an unassigned estimate for systems
 with a point matrix

---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..adf56be 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -192,6 +192,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         Lk = []
         cstL = float('inf')
         nit = 0
+        ocenka = L[0].gamma
         exactQ = True if (L[0].Q.rad == 0).all() else False
         while (not exactQ) and abs(omega - L[0].gamma) > tol and nit <= maxiter:
 
-- 
2.43.0


From 71cfe354852d807b8122d22138bc8ad84ce55112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 42/53] fix: nonlinear modules import from the places their
 names live

---
 intvalpy/nonlinear/recognizing_functional.py | 4 ++--
 intvalpy/nonlinear/solution_existence.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/nonlinear/recognizing_functional.py b/intvalpy/nonlinear/recognizing_functional.py
index 4e6558d..4cb6bbe 100755
--- a/intvalpy/nonlinear/recognizing_functional.py
+++ b/intvalpy/nonlinear/recognizing_functional.py
@@ -1,7 +1,7 @@
 import numpy as np
 
-from intvalpy.RealInterval import Interval
-from intvalpy.ralgb5 import ralgb5
+from ..kernel.real_intervals import Interval
+from ..kernel.ralgb5 import ralgb5
 
 
 class BaseRecFun(object):
diff --git a/intvalpy/nonlinear/solution_existence.py b/intvalpy/nonlinear/solution_existence.py
index dd71388..ab6352a 100755
--- a/intvalpy/nonlinear/solution_existence.py
+++ b/intvalpy/nonlinear/solution_existence.py
@@ -1,4 +1,4 @@
-from intvalpy.utils import zeros
+from ..kernel.new_objects import zeros
 
 
 def miranda(func, x):
-- 
2.43.0


From 8bd319bf4169c0a7b9a1aea4439d12c53992713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 43/53] fix: PSS accepted a right-hand side of length one for a
 larger system

---
 intvalpy/linear/PSS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index b3064df..df65cbb 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -127,6 +127,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
 
     n, m = A.shape
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
     midA = A.mid
     radA = A.rad
 
-- 
2.43.0


From ffa57bb3b5d9ab2278cbcab76b0ee4b2b377f6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 44/53] fix: numpy outer, at, reduce and accumulate on interval
 arrays are refused instead of giving the plain result

---
 intvalpy/kernel/real_intervals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 874824c..1479762 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -326,6 +326,9 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
+        if args[1] != '__call__':
+            raise Exception('This form of a numpy function is not provided for interval arrays.')
+
         if args[0].__name__ in ['add']:
             return self + args[3] if args[2] is self else ArrayInterval(args[2] + self._data)
 
-- 
2.43.0


From a5cdfb7ea7740e00742108b27f43e258f3265646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 45/53] fix: WILS Uni with l1 norm gave a slope to components
 whose residual contains zero

---
 intvalpy/models/WILS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index d850e9c..bc99214 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -46,6 +46,8 @@ class WILS(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            if norm == 'l1' and infs[mc] * sups[mc] <= 0:
+                continue    # mig = 0: this component is locally constant
             if -infs[mc] <= sups[mc]:
                 diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
             else:
-- 
2.43.0


From 3ff8b5fcb7983bc8534f8871d1f9ed2f2690e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 46/53] fix: ISPAE Uni with l1 norm gave a slope to components
 whose residual contains zero

---
 intvalpy/models/ISPAE.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index e6edc9b..3fa7dde 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -189,6 +189,8 @@ class ISPAE(object):
         obj, mcs = self._wrap_norm(residual, norm)
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
+            if norm == 'l1' and infs[mc] * sups[mc] <= 0:
+                continue    # mig = 0: this component is locally constant
             if -infs[mc] <= sups[mc]:
                 diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
             else:
-- 
2.43.0


From 0a7d1ff479ad34662eff130b73ee22cb7ebb8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 47/53] fix: values and constituents of recognising functionals
 accepted a right-hand side of another length

---
 intvalpy/kernel/abstract.py                  | 1 +
 intvalpy/linear/ChebNorm.py                  | 2 ++
 intvalpy/nonlinear/recognizing_functional.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 15886c0..d503119 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -102,6 +102,7 @@ class BaseRecFun(object):
             out: float
                 The values of each forming of the recognizing functional at the point x are returned.
         """
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
         return cls._constituent(A, b, x, weight=weight)
 
 
diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 5e86919..3230238 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -13,6 +13,8 @@ class ChebNorm:
     """
     @staticmethod
     def constituent(A, b, x, weight=None):
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+
         if weight is None:
             weight = np.ones(len(b))
 
diff --git a/intvalpy/nonlinear/recognizing_functional.py b/intvalpy/nonlinear/recognizing_functional.py
index 4cb6bbe..d1e4afe 100755
--- a/intvalpy/nonlinear/recognizing_functional.py
+++ b/intvalpy/nonlinear/recognizing_functional.py
@@ -74,6 +74,7 @@ class BaseRecFun(object):
             out: float
                 The values of each forming of the recognizing functional at the point x are returned.
         """
+        assert len(a) == len(b), 'Inconsistent dimensions of the input and output data'
         return cls._constituent(model, a, b, x, weight=weight)
 
 
-- 
2.43.0


From cb101f4e1bd43bdcf6a7bef7fe7657c0297b852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 48/53] fix: PSS divided by zero for a matrix with an exactly
 zero entry

---
 intvalpy/linear/PSS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index df65cbb..7052bd0 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -7,7 +7,7 @@ cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
 
 from ..kernel.real_intervals import Interval
 from ..kernel.preprocessing import intersection
-from ..kernel.utils import infinity
+from ..kernel.utils import infinity, nan
 from .Rohn import Rohn
 from .Gauss import Gauss
 
@@ -84,6 +84,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            return Interval(nan, nan, sortQ=False)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
-- 
2.43.0


From 42edb02122fdae27ae6b4738b8c1fc8b06cb2421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:41 +0000
Subject: [PATCH 49/53] fix: PSS failed when no box was left although the
 estimate had been reached

---
 intvalpy/linear/PSS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 7052bd0..3b3de3b 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -211,6 +211,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         Q = V.copy()
         q, omega = Q[_nu].a, Q[_nu].b
+        attained = False
         del(Q[_nu])
 
         Anu = A[:, _nu]
@@ -296,9 +297,12 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
             eta = eta1 if eta1 <= eta2 else eta2
             if omega > eta:
-                omega = eta
+                omega, attained = eta, True
                 L = [l for l in L if l[1] <= omega]
 
+            if len(L) == 0 and attained:
+                return omega    # no box can hold a smaller value
+
             item = 0
             while True:
                 try:
-- 
2.43.0


From 0d1cd9f6d39b94c0eac9081bd496ce065f1e174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 50/53] fix: Rohn returned a box that misses solutions when its
 iteration had not converged

---
 intvalpy/linear/Rohn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index 5132cd3..549da6b 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,6 +86,8 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+    if not error < tol:
+        raise Exception('The iteration has not converged, an estimate cannot be given.')
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From f3f75e8ceb0f4bb5d33e00117edd1a4bada6d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 51/53] fix: endpoint and characteristic arrays were truncated
 to integers when the first element had integer ends

---
 intvalpy/kernel/real_intervals.py | 29 +++++++++++++++++++----------
 intvalpy/kernel/utils.py          | 16 ++++++++--------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 1479762..e93faed 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -9,6 +9,15 @@ import itertools
 from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
 
 
+def gather(func, data):
+    """
+    Values of func on the elements of data as an array whose type holds all of them.
+    (np.vectorize takes the type of the first value, so 0.25 after the integer 1 becomes 0.)
+    """
+    data = np.asanyarray(data)
+    return np.array([func(el) for el in data.flat]).reshape(data.shape)
+
+
 class ArrayInterval:
 
     def __init__(self, intervals):
@@ -26,19 +35,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return gather(lambda el: el.a, self._data)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return gather(lambda el: el.b, self._data)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return gather(lambda el: el.a, self._data)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return gather(lambda el: el.b, self._data)
 
     @property
     def data(self):
@@ -61,23 +70,23 @@ class ArrayInterval:
 
     @property
     def rad(self):
-        return np.vectorize(lambda el: el.rad)(self._data)
+        return gather(lambda el: el.rad, self._data)
 
     @property
     def mid(self):
-        return np.vectorize(lambda el: el.mid)(self._data)
+        return gather(lambda el: el.mid, self._data)
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return gather(lambda el: el.wid, self._data)
 
     @property
     def mig(self):
-        return np.vectorize(lambda el: el.mig)(self._data)
+        return gather(lambda el: el.mig, self._data)
 
     @property
     def mag(self):
-        return np.vectorize(lambda el: el.mag)(self._data)
+        return gather(lambda el: el.mag, self._data)
 
     @property
     def dual(self):
@@ -97,7 +106,7 @@ class ArrayInterval:
 
     @property
     def khi(self):
-        return np.vectorize(lambda el: el.khi)(self._data)
+        return gather(lambda el: el.khi, self._data)
 
     @property
     def vertex(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 0795a6c..74f60aa 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES
+from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES, gather
 from .preprocessing import asinterval
 
 
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return gather(_wid, x)
     else:
         return _wid(x)
     
@@ -111,7 +111,7 @@ def mid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mid)(x)
+        return gather(_mid, x)
     else:
         return _mid(x)
     
@@ -126,7 +126,7 @@ def rad(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_rad)(x)
+        return gather(_rad, x)
     else:
         return _rad(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return gather(_inf, x)
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return gather(_sup, x)
     else:
         return _sup(x)
     
@@ -171,7 +171,7 @@ def mag(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mag)(x)
+        return gather(_mag, x)
     else:
         return _mag(x)
 
@@ -186,7 +186,7 @@ def khi(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return gather(_khi, x)
     else:
         return _khi(x)
 
-- 
2.43.0


From dd99b6453923b4882a9d11ef814abf0e642cacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 52/53] fix: PSS failed when the first box left out begins
 exactly where the estimate lies

---
 intvalpy/linear/PSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 3b3de3b..693f21d 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -295,6 +295,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                 else:
                     eta2 = infinity
 
+            if omega in (q1, q2):
+                attained = True     # the box left out begins where the estimate lies
+
             eta = eta1 if eta1 <= eta2 else eta2
             if omega > eta:
                 omega, attained = eta, True
-- 
2.43.0


From 3f0617a8ce96f59ad3ae7a228c0f883a3e5e42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:10 +0000
Subject: [PATCH 53/53] fix: PPS cut off solutions when a derivative is
 identically zero

---
 intvalpy/linear/PPS.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index adf56be..21fbde4 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -201,16 +201,19 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
             dQ = asinterval( -np.outer(L[0].Y[nu], L[0].x) )
 
             index_upper_zero, index_lower_zero = dQ >= 0, dQ <= 0
+            # a derivative that is identically zero fixes no sign
+            signQ = dQ.mag > 0
             if index_upper_zero.any():
-                L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
+                L[0].Q[index_upper_zero], L[0].W[index_upper_zero & signQ] = L[0].Q[index_upper_zero].a, 1
             if index_lower_zero.any():
-                L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
+                L[0].Q[index_lower_zero], L[0].W[index_lower_zero & signQ] = L[0].Q[index_lower_zero].b, -1
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
+            signQ = L[0].Y[nu].mag > 0
             if index_upper_zero.any():
-                L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
+                L[0].r[index_upper_zero], L[0].s[index_upper_zero & signQ] = L[0].r[index_upper_zero].a, -1
             if index_lower_zero.any():
-                L[0].r[index_lower_zero], L[0].s[index_lower_zero] = L[0].r[index_lower_zero].b, 1
+                L[0].r[index_lower_zero], L[0].s[index_lower_zero & signQ] = L[0].r[index_lower_zero].b, 1
 
 
             #############################################################################################
-- 
2.43.0

