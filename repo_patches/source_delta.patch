From c97d1409beadd5d67981ce441e14055d3ecaf409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 01/44] fix: index the metric instead of calling it in
 Metric.g_inv

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..5171a38 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -530,7 +530,7 @@ class Metric(object):
         if self.is_ortho:  # Orthogonal metric
             g_inv = eye(self.n)
             for i in range(self.n):
-                g_inv[i, i] = S.One/self.g(i, i)
+                g_inv[i, i] = S.One/self.g[i, i]
             return g_inv
         elif self.gsym is None:
             return simplify(self.g.inv())
-- 
2.43.0


From 117d1388599dea786db710521c2f9cb96122976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 02/44] fix: Simp.applymv referred to an undefined name Mv

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 5171a38..291ad51 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -314,7 +314,7 @@ class Simp:
 
     @staticmethod
     def applymv(mv):
-        return Mv(Simp.apply(mv.obj), ga=mv.Ga)
+        return type(mv)(Simp.apply(mv.obj), ga=mv.Ga)
 
 
 class Metric(object):
-- 
2.43.0


From 758d8bf34b610033c8f0fd580af63ded9b93e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 03/44] fix: infinite recursion in base_expansion_dict with
 debug=True

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..cc52da4 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1536,7 +1536,7 @@ class Ga(metric.Metric):
                 base_expansion_dict[base] = expand(tmp)
 
         if self.debug:
-            print('base_expansion_dict =', self.base_expansion_dict)
+            print('base_expansion_dict =', base_expansion_dict)
 
         return base_expansion_dict
 
-- 
2.43.0


From 3fc52835cb78b124585527196063025cc0806b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 04/44] fix: Ga.connection did not return the value it had
 cached

---
 galgebra/ga.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index cc52da4..8c7b4fc 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2135,6 +2135,8 @@ class Ga(metric.Metric):
                 C += self.er_blade(self.r_basis[ib], x, mode, left)
             # Update connection dictionaries
             self.connect[mode_key].append((key, C))
+        else:
+            C = self.connect[mode_key][keys.index(key)][1]
         return C
 
     def ReciprocalFrame(self, basis: Sequence[_mv.Mv], mode: str = 'norm') -> Tuple[_mv.Mv, ...]:
-- 
2.43.0


From e1ef7bb20676707b3da6d5f46be5a22cd72dc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 05/44] fix: grade_decomposition discarded the blade
 representation

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 8c7b4fc..be7344c 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,7 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
+            A = A.blade_rep()
             A.characterise_Mv()
             Aobj = expand(A.obj)
         else:
-- 
2.43.0


From 04dbca2252da7937edce04d29ee64e61431b9fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 06/44] fix: remove_scalar_part kept the scalar part of
 unexpanded products

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index be7344c..6768a20 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1705,8 +1705,8 @@ class Ga(metric.Metric):
         if isinstance(A, mv.Mv):
             return self.remove_scalar_part(A.obj)
         else:
+            A = expand(A)
             if isinstance(A, Add):
-                A = expand(A)
                 return sum([x for x in A.args if not x.is_commutative])
             elif isinstance(A, Symbol):
                 if A.is_commutative:
-- 
2.43.0


From 0d0952d5a02437c6370c20028ff3ed47136a9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 07/44] fix: pDiff failed for expressions and base
 representations in curvilinear algebras

---
 galgebra/ga.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 6768a20..616b5a2 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2040,7 +2040,11 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
-        dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
+        if not isinstance(A, mv.Mv):
+            A = self.mv(A)
+        A = A.blade_rep()
+
+        dA = self.mv(expand(diff(A.obj, coord)))
 
         if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
             B = self.remove_scalar_part(A)
-- 
2.43.0


From d2d49878113677e07fecaeb2fbbaa8eacea7ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 08/44] fix: set_coef ignored the representation and kept stale
 classification flags

---
 galgebra/mv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..1139971 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1270,7 +1270,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.blade_rep:
+        if self.is_blade_rep:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
@@ -1280,6 +1280,11 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
+        # the cached classification no longer describes the new value
+        self.char_Mv = False
+        self.blade_flg = None
+        self.versor_flg = None
+        self.characterise_Mv()
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
-- 
2.43.0


From 0d81e6b4b5ba81b58061add2f44261f824662bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 09/44] fix: shirokov_inverse introduced floating point numbers

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 1139971..8e163b3 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1434,7 +1434,7 @@ class Mv(printer.GaPrintable):
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
             Uk = -self * adjU
         if Uk.scalar() == 0:
-- 
2.43.0


From af770bb6ecc3faf3e55566c7f7ff5e27b4cd4f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 10/44] fix: Lt never rejected multivectors which are not
 versors

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..250d5a1 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -335,7 +335,7 @@ class Lt(printer.GaPrintable):
         # outermorphism on a multivector is by dictionary lookup, not by a
         # sandwich product of the multivector with the versor.
         elif isinstance(mat_rep, mv.Mv):     # Versor input
-            if not mat_rep.is_versor:
+            if not mat_rep.is_versor():
                 raise ValueError(mat_rep, 'is not a versor in Versor input for Lt!\n')
             V = mat_rep
             Vg_invol = V.g_invol()
-- 
2.43.0


From cd66f59af2b3bb8a0f613abb8083afb49c4c5347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 11/44] fix: utils.flatten used the removed
 collections.Iterable

---
 galgebra/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/utils.py b/galgebra/utils.py
index e8e05b6..255e3fe 100644
--- a/galgebra/utils.py
+++ b/galgebra/utils.py
@@ -3,7 +3,7 @@ Utility Classes
 """
 
 import sys
-import collections
+import collections.abc
 import warnings
 
 from io import StringIO  # noqa: F401
@@ -27,7 +27,7 @@ def flatten(x):
     result = []
 
     for el in x:
-        if isinstance(x, collections.Iterable) and not isstr(el):
+        if isinstance(x, collections.abc.Iterable) and not isstr(el):
             result.extend(flatten(el))
         else:
             result.append(el)
-- 
2.43.0


From 83b8f29728efd88eade2cef6c8a37a74f8c07d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 12/44] fix: grade-based queries were wrong or failed on a
 multivector in base representation

---
 galgebra/mv.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 8e163b3..3430516 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -159,7 +159,8 @@ class Mv(printer.GaPrintable):
                 else:
                     self.char_Mv = True
                     self.is_blade_rep = False
-                    self.i_grade = None
+                    self.grades = self.Ga.grades(obj)
+                    self.i_grade = self.grades[0] if len(self.grades) == 1 else None
                     return
         if len(grades) == 1:
             self.i_grade = grades[0]
@@ -973,7 +974,7 @@ class Mv(printer.GaPrintable):
         return self.blade_flg
 
     def is_base(self) -> bool:
-        coefs, _bases = metric.linear_expand(self.obj)
+        coefs, _bases = metric.linear_expand(self.blade_rep().obj)
         return coefs == [S.One]
 
     def is_versor(self) -> bool:
@@ -1030,14 +1031,14 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-        return self.Ga.scalar_part(self.obj)
+        return self.Ga.scalar_part(self.blade_rep().obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
-        return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
+        return Mv(self.Ga.get_grade(self.blade_rep().obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
-        cb = metric.linear_expand_terms(self.obj)
+        cb = metric.linear_expand_terms(self.blade_rep().obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
 
@@ -1053,7 +1054,7 @@ class Mv(printer.GaPrintable):
         """
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
-        for coef, blade in metric.linear_expand_terms(self.obj):
+        for coef, blade in metric.linear_expand_terms(self.blade_rep().obj):
             if coef == S.Zero:
                 continue  # TODO: why does expansion return this?
             try:
@@ -1079,8 +1080,8 @@ class Mv(printer.GaPrintable):
             for blade in blade_lst:
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
-        blade_lst = [x.obj for x in blade_lst]
-        coefs, bases = metric.linear_expand(self.obj)
+        blade_lst = [x.blade_rep().obj for x in blade_lst]
+        coefs, bases = metric.linear_expand(self.blade_rep().obj)
         coef_lst = []
         for blade in blade_lst:
             if blade in bases:
@@ -1094,9 +1095,9 @@ class Mv(printer.GaPrintable):
         Project multivector onto a given list of bases.  That is find the
         part of multivector with the same bases as in the bases_lst.
         """
-        bases_lst = [x.obj for x in bases_lst]
+        bases_lst = [x.blade_rep().obj for x in bases_lst]
         obj = 0
-        for coef, base in metric.linear_expand_terms(self.obj):
+        for coef, base in metric.linear_expand_terms(self.blade_rep().obj):
             if base in bases_lst:
                 obj += coef * base
         return Mv(obj, ga=self.Ga)
@@ -1126,11 +1127,11 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
     def g_invol(self) -> 'Mv':
-- 
2.43.0


From 7bd5098153d9fca088b12e034f8ad782e69ca2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 13/44] fix: submanifolds of a vector function could not be
 constructed

---
 galgebra/ga.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 616b5a2..a2207f7 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2292,13 +2292,11 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
-            for b1 in self.ebasis:
+            g = eye(n_sub)
+            for i, b1 in enumerate(self.ebasis):
                 # Metric tensor from dot products of basis vectors
-                tmp = []
-                for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+                for j, b2 in enumerate(self.ebasis):
+                    g[i, j] = trigsimp((b1 | b2).scalar())
 
         else:
 
-- 
2.43.0


From 4ff3dc1eeb0e72d48d114b6bbfbf3f137c613810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 14/44] fix: evaluating an Mlt in a non-orthogonal algebra used
 unnormalized reciprocal vectors

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 250d5a1..c456c1a 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -863,7 +863,7 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
+                for r_base, aij in zip(self.Ga.mvr(), ai):
                     sub_lst.append((aij, (r_base | x).scalar()))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
-- 
2.43.0


From dcc9cf8775bfa0afba63b730dcf576d9eb27c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 15/44] fix: Lt.tr left the connection disabled when it raised

---
 galgebra/lt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c456c1a..91b9105 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -510,9 +510,11 @@ class Lt(printer.GaPrintable):
         """
         connect_flg = self.Ga.connect_flg
         self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
+        try:
+            F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
+            tr_F = (self.Ga.grad | F_x).scalar()
+        finally:
+            self.Ga.connect_flg = connect_flg
         return tr_F
 
     r'''
-- 
2.43.0


From d4e8986dbd5e45689a6354cd62c5b8db6c0b8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 16/44] fix: Mlt.pdiff and Mlt.contract left the derivative
 slot of the algebra changed

---
 galgebra/lt.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 91b9105..fe0f57a 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -929,8 +929,12 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
+        dslot = self.Ga.dslot
         self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        try:
+            return self.Ga.grad * self.Ga.mv(self.fvalue)
+        finally:
+            self.Ga.dslot = dslot
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -954,11 +958,15 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
-        grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+        dslot = self.Ga.dslot
+        try:
+            self.Ga.dslot = min_slot - 1
+            grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
+            grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
+            self.Ga.dslot = max_slot - 2
+            div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+        finally:
+            self.Ga.dslot = dslot
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
         return Mlt(div_grad_self, self.Ga, cnargs)
 
-- 
2.43.0


From b6433ed3275ac0349fbaa4510ac838c0b1fbe2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 17/44] fix: Mlt operations accepted operands from different
 algebras

---
 galgebra/lt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index fe0f57a..c4992ff 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -871,6 +871,8 @@ class Mlt(printer.GaPrintable):
 
     def __add__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError("Attempting addition of Mlt's from different geometric algebras")
             if self.nargs == X.nargs:
                 return Mlt(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
@@ -880,6 +882,8 @@ class Mlt(printer.GaPrintable):
 
     def __sub__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError("Attempting subtraction of Mlt's from different geometric algebras")
             if self.nargs == X.nargs:
                 return Mlt(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
@@ -889,6 +893,8 @@ class Mlt(printer.GaPrintable):
 
     def __mul__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError("Attempting multiplication of Mlt's from different geometric algebras")
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             self_args = self.Ga._mlt_a[:self.nargs]
@@ -900,6 +906,8 @@ class Mlt(printer.GaPrintable):
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError("Attempting outer product of Mlt's from different geometric algebras")
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
@@ -909,6 +917,8 @@ class Mlt(printer.GaPrintable):
 
     def __or__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError("Attempting inner product of Mlt's from different geometric algebras")
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
-- 
2.43.0


From 72fd0ca9428ff9dc2da3ed942ded2229a2f750ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 18/44] fix: Dop.TSimplify failed, and it and Dop.components
 dropped the direction of the operator

---
 galgebra/mv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 3430516..97a991c 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1809,8 +1809,8 @@ class Dop(dop._BaseDop):
 
     def TSimplify(self):
         return Dop([
-            (metric.Simp.apply(coef), pdiff) for coef, pdiff in self.terms
-        ], ga=self.Ga)
+            (metric.Simp.applymv(coef), pdiff) for coef, pdiff in self.terms
+        ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
@@ -1861,7 +1861,7 @@ class Dop(dop._BaseDop):
 
     def components(self) -> Tuple['Dop', ...]:
         return tuple(
-            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga)
+            Dop([(sdop, Mv(base, ga=self.Ga))], ga=self.Ga, cmpflg=self.cmpflg)
             for sdop, base in self.Dop_mv_expand()
         )
 
-- 
2.43.0


From 6a465da6acc4a9ae76166734f59bf0a3f949168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 19/44] fix: adding a multivector to a Dop of another algebra
 was accepted

---
 galgebra/mv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 97a991c..81795af 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1723,10 +1723,14 @@ class Dop(dop._BaseDop):
             if isinstance(dop1, Dop):
                 if not isinstance(dop2, Mv):
                     dop2 = dop1.Ga.mv(dop2)
+                elif dop1.Ga != dop2.Ga:
+                    raise ValueError('In Dop.Add Dop arguments are not from same geometric algebra')
                 dop2 = Dop([(dop2, dop.Pdop({}))], cmpflg=dop1.cmpflg, ga=dop1.Ga)
             elif isinstance(dop2, Dop):
                 if not isinstance(dop1, Mv):
                     dop1 = dop2.Ga.mv(dop1)
+                elif dop1.Ga != dop2.Ga:
+                    raise ValueError('In Dop.Add Dop arguments are not from same geometric algebra')
                 dop1 = Dop([(dop1, dop.Pdop({}))], cmpflg=dop2.cmpflg, ga=dop2.Ga)
             else:
                 raise TypeError("Neither argument is a Dop instance")
-- 
2.43.0


From 4d0a98066be8e7fd6a54b0a53a5c2879cb98de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 20/44] fix: scalar multivectors ignored unknown keyword
 arguments

---
 galgebra/mv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 81795af..86699e4 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -220,6 +220,7 @@ class Mv(printer.GaPrintable):
             return Mv._make_grade(ga, name, 0, **kwargs)
         else:
             value = __name_or_value
+            _KwargParser('_make_scalar', kwargs).reject_remaining()
             return value
 
     @staticmethod
-- 
2.43.0


From 906972e20f17a4266e62da232076fbeec5cce922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 21/44] fix: the Mv copy constructor accepted a multivector of
 another algebra

---
 galgebra/mv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 86699e4..5539d35 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -367,6 +367,8 @@ class Mv(printer.GaPrintable):
         elif len(args) == 1 and not isinstance(args[0], str):  # copy constructor
             x = args[0]
             if isinstance(x, Mv):
+                if x.Ga != self.Ga:
+                    raise ValueError('Cannot construct a multivector from a multivector of a different geometric algebra')
                 self.obj = x.obj
                 self.is_blade_rep = x.is_blade_rep
                 self.i_grade = x.i_grade
-- 
2.43.0


From e5087697899dfd8957754daca61b9f6613ba0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:47 +0000
Subject: [PATCH 22/44] fix: compare accepted multivectors of different
 algebras

---
 galgebra/mv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5539d35..78be40b 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1561,6 +1561,8 @@ def compare(A: Mv, B: Mv) -> Union[Expr, int]:
     otherwise return 0.
     """
     if isinstance(A, Mv) and isinstance(B, Mv):
+        if A.Ga != B.Ga:
+            raise ValueError('In compare Mv arguments are not from same geometric algebra')
         Acoefs, Abases = metric.linear_expand(A.obj)
         Bcoefs, Bbases = metric.linear_expand(B.obj)
         if len(Acoefs) != len(Bcoefs):
-- 
2.43.0


From 78df4f4021f8ab53c1ac68a032ced0df62672455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 23/44] fix: Dop LaTeX printed the base of a unit coefficient
 twice

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 78be40b..7cd0c1b 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1956,7 +1956,7 @@ class Dop(dop._BaseDop):
             else:
                 if str_sdop == '1':
                     s += str_base
-                if str_sdop == '-1':
+                elif str_sdop == '-1':
                     s += '-' + str_base
                     if str_sdop[1:] != '1':
                         s += ' ' + str_sdop[1:]
-- 
2.43.0


From 66d6e0976304eb350dc9d82060125f3fce1866f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 24/44] fix: tex() kept the text it had already returned for
 the next call

---
 galgebra/printer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5afb3c6..f7acde9 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -895,9 +895,9 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     at the beginning of the program.
     """
 
-    latex_str = GaLatexPrinter.latex_str + sys.stdout.getvalue()
-    GaLatexPrinter.latex_str = ''
     GaLatexPrinter.restore()
+    latex_str = GaLatexPrinter.latex_str
+    GaLatexPrinter.latex_str = ''
     r"""
     Each line in the latex_str is interpreted to be an equation or align
     environment.  If the line does not begin with '\begin{align*}' then
-- 
2.43.0


From c751e22a17b2b328df851d6d90a05c7e2bfaed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 25/44] fix: Fmt produced unbalanced LaTeX for empty and
 one-element containers

---
 galgebra/printer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index f7acde9..dd7cea0 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1182,7 +1182,8 @@ def Fmt(obj, fmt=0):
                 latex_cell = latex_cell.replace('\n', ' ')
                 latex_str += latex_cell + ', & '
                 #cell.title = title
-            latex_str = latex_str[:-4]
+            if n > 0:
+                latex_str = latex_str[:-4]
             latex_str += r'\\ \end{array} \right ' + rdelim + ' \n'
         else:
             latex_str = ''
@@ -1193,7 +1194,9 @@ def Fmt(obj, fmt=0):
                 latex_cell = latex(cell)
                 latex_cell = latex_cell.replace('\n', ' ')
                 #cell.title = title
-                if i == 1:
+                if n == 1:
+                    latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
+                elif i == 1:
                     latex_str += r'\begin{array}{c} \left ' + ldelim + r' ' + latex_cell + r', \right. \\ '
                 elif i == n:
                     latex_str += r' \left. ' + latex_cell + r'\right ' + rdelim + r' \\ \end{array}'
-- 
2.43.0


From d9cc43f8e96ebee85dc02da74fd6acaf5a9a02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 26/44] fix: shirokov_inverse failed in a zero-dimensional
 algebra

---
 galgebra/mv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 7cd0c1b..4760bec 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1437,6 +1437,7 @@ class Mv(printer.GaPrintable):
         exponent = (n + 1) // 2
         N = 2**exponent
         Uk = self
+        adjU = self.Ga.mv(-S.One)  # there is no iteration for n == 0
         for k in range(1, N):
             Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
-- 
2.43.0


From 1749ad756055f8e94123a18ffbef68b346f4d1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 27/44] fix: an Lt built from a versor could not be added to or
 subtracted from

simplify() of a dict returns an immutable sympy Dict, which copy() and item
assignment in Lt.__add__ and Lt.__sub__ cannot handle.
---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c4992ff..62ff201 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -341,7 +341,7 @@ class Lt(printer.GaPrintable):
             Vg_invol = V.g_invol()
             Vinv = V.inv()
             outermorphism = ga.lt(lambda x: Vg_invol * x * Vinv)
-            self.lt_dict = simplify(outermorphism.lt_dict)
+            self.lt_dict = dict(simplify(outermorphism.lt_dict))
         # ## GSG code ends ###
 
         # ## GSG code starts ###
-- 
2.43.0


From ef7ad2df714ec57a7217a94c7d69702efc4061b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 28/44] fix: an Lt built from a partial dict kept the missing
 basis vectors unchanged

Printing and addition treat a basis vector without an entry as mapped to zero,
calling the Lt left it unchanged, and matrix() raised KeyError.
---
 galgebra/lt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 62ff201..cea92b6 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -308,6 +308,9 @@ class Lt(printer.GaPrintable):
         if isinstance(mat_rep, dict):         # Dictionary input
             for key in mat_rep:
                 self.lt_dict[key] = mat_rep[key]
+            # a basis vector that is not mentioned is mapped to zero
+            for base in self.Ga.basis:
+                self.lt_dict.setdefault(base, S.Zero)
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From 9289ae7bab5412d4186a2c8e026973942f2478c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 29/44] fix: Lt.tr was wrong for coordinate-dependent and
 normalized bases

It differentiated L(x) with respect to the coordinates, so that derivatives of
the matrix entries, or the scale factors of a normalized basis, entered the
trace.  The derivative in the definition is with respect to the argument of L,
which gives the sum of the diagonal entries.
---
 galgebra/lt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index cea92b6..68e29be 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -514,8 +514,9 @@ class Lt(printer.GaPrintable):
         connect_flg = self.Ga.connect_flg
         self.Ga.connect_flg = False
         try:
-            F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-            tr_F = (self.Ga.grad | F_x).scalar()
+            # differentiate with respect to the argument of L, not the coordinates
+            a = self.Ga._XOX
+            tr_F = (self.Ga.make_grad(a) | self(a)).scalar()
         finally:
             self.Ga.connect_flg = connect_flg
         return tr_F
-- 
2.43.0


From 4a41a36805bf3a8363c8400bede0d80bb4fb6a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 30/44] fix: a tensor built from a name used all slots the
 algebra had ever allocated

Mlt('S', ga, nargs=1) after any rank two tensor of the same algebra paired its
components with products of two slot coefficients.
---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 68e29be..569e478 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -834,7 +834,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:self.nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From 233a846d7391c2eee7d2b0500caffb8c74f515ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 31/44] fix: Mlt.pdiff and Mlt.contract differentiated with
 respect to the coordinates

Both are defined by the derivative with respect to a slot vector, and returned
zero for every constant tensor.
---
 galgebra/lt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 569e478..f005e2d 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -946,7 +946,7 @@ class Mlt(printer.GaPrintable):
         dslot = self.Ga.dslot
         self.Ga.dslot = slot - 1
         try:
-            return self.Ga.grad * self.Ga.mv(self.fvalue)
+            return self.Ga.make_grad(self.Ga._mlt_a[slot - 1]) * self.Ga.mv(self.fvalue)
         finally:
             self.Ga.dslot = dslot
 
@@ -975,10 +975,10 @@ class Mlt(printer.GaPrintable):
         dslot = self.Ga.dslot
         try:
             self.Ga.dslot = min_slot - 1
-            grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
+            grad_self = self.Ga.make_grad(self.Ga._mlt_a[min_slot - 1]) * self.Ga.mv(self.fvalue)
             grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
             self.Ga.dslot = max_slot - 2
-            div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
+            div_grad_self = self.Ga.make_grad(self.Ga._mlt_a[max_slot - 2]) | self.Ga.mv(grad_self)
         finally:
             self.Ga.dslot = dslot
         div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
-- 
2.43.0


From ba8553909a78abcd9aa450247869a8ce74949b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 32/44] fix: LaTeX of a tensor with a single component was its
 number of factors

---
 galgebra/lt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index f005e2d..a751892 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -11,7 +11,7 @@ from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Mul, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -775,10 +775,10 @@ class Mlt(printer.GaPrintable):
     def expand_expr(expr, ga):
         lst_expr = []
         expr = expand(expr)
-        for term in expr.args:
+        for term in Add.make_args(expr):
             coef = S.One
             a_lst = []
-            for factor in term.args:
+            for factor in Mul.make_args(term):
                 if factor in ga._mlt_acoefs:
                     a_lst.append(factor)
                 else:
-- 
2.43.0


From 9d8c8056ae1e16e9e818a4e6d771aa15101f7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 33/44] fix: a linear transformation applied to a multivector
 in base representation failed

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index a751892..9308040 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -430,7 +430,7 @@ class Lt(printer.GaPrintable):
                 else:
                     return mv.Mv(lt_M, ga=self.Ga)
             else:
-                mv_obj = M.obj
+                mv_obj = M.blade_rep().obj
         else:
             mv_obj = mv.Mv(M, ga=self.Ga).obj
 
-- 
2.43.0


From 021cf4f9f16a71b33978923d10566b7efbd7893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 34/44] fix: compare returned the inverse ratio and depended on
 the order of terms and on the representation

---
 galgebra/mv.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 4760bec..3697de2 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1564,26 +1564,19 @@ def compare(A: Mv, B: Mv) -> Union[Expr, int]:
     if isinstance(A, Mv) and isinstance(B, Mv):
         if A.Ga != B.Ga:
             raise ValueError('In compare Mv arguments are not from same geometric algebra')
-        Acoefs, Abases = metric.linear_expand(A.obj)
-        Bcoefs, Bbases = metric.linear_expand(B.obj)
-        if len(Acoefs) != len(Bcoefs):
-            return 0
-        if Abases != Bbases:
-            return 0
-        if Bcoefs[0] != 0 and Abases[0] == Bbases[0]:
-            c = simplify(Acoefs[0]/Bcoefs[0])
-            print('c =', c)
-        else:
+        # compare the coefficients of the basis blades, in whatever order they appear
+        Acoefs = {base: coef for coef, base in metric.linear_expand_terms(A.blade_rep().obj)}
+        Bcoefs = {base: coef for coef, base in metric.linear_expand_terms(B.blade_rep().obj)}
+        if Acoefs.keys() != Bcoefs.keys():
             return 0
-        for acoef, abase, bcoef, bbase in zip(Acoefs[1:], Abases[1:], Bcoefs[1:], Bbases[1:]):
-            print(acoef, '\n', abase, '\n', bcoef, '\n', bbase)
-            if bcoef != 0 and abase == bbase:
-                print('c-a/b =', simplify(c-(acoef/bcoef)))
-                if simplify(acoef/bcoef) != c:
-                    return 0
-                else:
-                    pass
-            else:
+        c = None
+        for base, acoef in Acoefs.items():
+            if acoef == 0:
+                return 0
+            ratio = simplify(Bcoefs[base] / acoef)
+            if c is None:
+                c = ratio
+            elif simplify(ratio - c) != 0:
                 return 0
         return c
     else:
-- 
2.43.0


From f0ffa60e792026f1ee893b5614752dffb6e4d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 35/44] fix: normalising a basis overwrote the metric passed by
 the caller

---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 291ad51..c58b7ec 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -788,7 +788,7 @@ class Metric(object):
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
                 if isinstance(g, Matrix):
-                    self.g = g
+                    self.g = Matrix(g)  # normalization changes self.g, not the argument
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From ad8b3dde57c40fe8ca7106233a37bbc2a5315bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 36/44] fix: a metric given as an immutable matrix was read as
 a list of its entries

---
 galgebra/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index c58b7ec..9493c29 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -7,7 +7,7 @@ import warnings
 from typing import List, Optional
 
 from sympy import (
-    diff, trigsimp, Matrix, Rational,
+    diff, trigsimp, Matrix, MatrixBase, Rational,
     sqf_list, sqrt, eye, S, expand, Mul,
     Add, simplify, Expr, Abs, Function, MatrixSymbol
 )
@@ -787,7 +787,7 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
+                if isinstance(g, MatrixBase):
                     self.g = Matrix(g)  # normalization changes self.g, not the argument
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
-- 
2.43.0


From da09c52968d268bf506c5ec1c7a4c0f89a5dd5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 37/44] fix: the metric of a submanifold whose parameters are
 named like base coordinates was substituted twice

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index a2207f7..4ff3170 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2322,7 +2322,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From d90369519df80b5b5784791e746a37a934761fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 38/44] fix: pure_grade of a mixed multivector returned minus
 the last listed grade, not minus the maximum

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 3697de2..5b8bee8 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1548,7 +1548,7 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From 661d0e023ac5f4e3fa0369b936b658c9c1afd63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 39/44] fix: several multivectors of a grade given as an
 integer could not be created at once

---
 galgebra/ga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 4ff3170..1d8d249 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -878,14 +878,14 @@ class Ga(metric.Metric):
         if not isinstance(root, str):
             return mv.Mv(root, *args, **kwargs)
 
-        if ' ' in root and ' ' not in args[0]:
+        if ' ' in root and (not isinstance(args[0], str) or ' ' not in args[0]):
             root_lst = root.split(' ')
             mv_lst = []
             for root in root_lst:
                 mv_lst.append(mv.Mv(root, *args, **kwargs))
             return tuple(mv_lst)
 
-        if ' ' in root and ' ' in args[0]:
+        if ' ' in root:
             root_lst = root.split(' ')
             mvtype_lst = args[0].split(' ')
             if len(root_lst) != len(mvtype_lst):
-- 
2.43.0


From c7b011ee76c36615631376ea3dfd68c35d3b6681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:23 +0000
Subject: [PATCH 40/44] fix: inverting zero or a null multivector returned
 complex infinity instead of raising

---
 galgebra/mv.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5b8bee8..589bf16 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1410,21 +1410,19 @@ class Mv(printer.GaPrintable):
 
     def inv(self) -> 'Mv':
         if self.is_scalar():  # self is a scalar
+            if self.scalar() == S.Zero:
+                raise ValueError('Multivector has no inverse')
             return self.Ga.mv(S.One/self.obj)
         self_sq = self * self
         if self_sq.is_scalar():  # self*self is a scalar
-            """
             if self_sq.scalar() == S.Zero:
-                raise ValueError('!!!!In multivector inverse, A*A is zero!!!!')
-            """
+                raise ValueError('Multivector has no inverse')
             return (S.One/self_sq.obj)*self
         self_rev = self.rev()
         self_self_rev = self * self_rev
         if self_self_rev.is_scalar():  # self*self.rev() is a scalar
-            """
             if self_self_rev.scalar() == S.Zero:
-                raise ValueError('!!!!In multivector inverse A*A.rev() is zero!!!!')
-            """
+                raise ValueError('Multivector has no inverse')
             return (S.One/self_self_rev.obj) * self_rev
         raise TypeError('In inv() for self =' + str(self) + 'self, or self*self or self*self.rev() is not a scalar')
 
-- 
2.43.0


From d0c2970a9cb7b5842830a8ff604ea0c607a87bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:08 +0000
Subject: [PATCH 41/44] fix: printer.Fmt of a dictionary prints the values with
 the keys in both formats

---
 galgebra/printer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index dd7cea0..5b62223 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -1189,9 +1189,12 @@ def Fmt(obj, fmt=0):
             latex_str = ''
             i = 1
             for cell in obj:
-                #title = cell.title
-                #cell.title = None
-                latex_cell = latex(cell)
+                if isinstance(obj, dict):
+                    latex_cell = latex(cell) + ' : ' + latex(obj[cell])
+                else:
+                    #title = cell.title
+                    #cell.title = None
+                    latex_cell = latex(cell)
                 latex_cell = latex_cell.replace('\n', ' ')
                 #cell.title = title
                 if n == 1:
-- 
2.43.0


From b12d8dc887eb5817cda228f7664cde728e47c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 42/44] fix: LaTeX of a multilinear function separates the
 coefficient from the components

---
 galgebra/lt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 9308040..f6b9709 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -725,6 +725,8 @@ class Mlt(printer.GaPrintable):
             term_add_flg = isinstance(term[0], Add)
             if term_add_flg:
                 coef_latex = r'\left ( ' + coef_latex + r'\right ) '
+            else:
+                coef_latex += ' '
             if first:
                 first = False
             else:
-- 
2.43.0


From 0ac11e44a2f1fe74e63d07fcd61c30cca8745fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 43/44] fix: enhance_print with None did not disable a color
 that was enabled before

---
 galgebra/printer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5b62223..479a9c7 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -248,7 +248,8 @@ def enhance_print(base='blue', fct='red', deriv='cyan'):
 
     Pass ``None`` to disable coloring.
     """
-    GaPrinter.set_global_settings(
+    # `set_global_settings` ignores `None`, which here disables the coloring
+    GaPrinter._global_settings.update(
         function_color=fct,
         derivative_color=deriv,
         basis_vector_color=base,
-- 
2.43.0


From e0cfcb9303192aeb02949a7ac6e29024632109d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 44/44] fix: products of multiples of a vector left numbers
 unevaluated, so that (-3*e1)*e1 == -3 was False

linear_expand splits a negative coefficient in two factors, -1 and a number, and
puts them together without evaluation.  Multiplying by one keeps this product as it
is, so that the result did not compare equal to its value, and adding 3 gave 3 - 3
and not zero.
---
 galgebra/ga.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 1d8d249..8af97e9 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -116,7 +116,9 @@ def update_and_substitute(expr1, expr2, mul_dict):
     expr = S.Zero
     for coef1, base1 in zip(coefs1, bases1):
         for coef2, base2 in zip(coefs2, bases2):
-            expr += coef1 * coef2 * mul_dict[base1, base2]
+            # `linear_expand` may leave coefficients unevaluated, e.g. (-1)*3
+            coef = Mul(*Mul.make_args(coef1), *Mul.make_args(coef2))
+            expr += coef * mul_dict[base1, base2]
     return expr
 
 
-- 
2.43.0

