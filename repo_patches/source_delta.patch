From e6378e089c5b6079e1045d39544b82204442c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 01/58] fix: is_subset_of treats unbounded LPs as violated
 constraints

---
 blueprint/src/python/polytope.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 20fbda6..e409301 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -666,7 +666,13 @@ class Polytope:
             mat.obj_func = ab
             lp = cdd.LinProg(mat)
             lp.solve()
-            if lp.obj_value < 0:
+            if lp.status == cdd.LPStatusType.OPTIMAL:
+                if lp.obj_value < 0:
+                    return False
+            # The LP has no optimal value: either this polytope is empty (in which 
+            # case it is contained in everything), or the constraint is unbounded 
+            # below (and thus violated) within this polytope
+            elif not self.is_empty(include_boundary=True):
                 return False
         return True
 
-- 
2.43.0


From 0a2f3ce093d66c6d9f4cbc52613dadcdcb5377e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:23 +0000
Subject: [PATCH 02/58] fix: set_minus accounts for the equality constraints of
 the subtracted polytope

---
 blueprint/src/python/polytope.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index e409301..23a8096 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -542,13 +542,15 @@ class Polytope:
         
         # Iterate through the constraints of B. For each constraint, take its 
         # complement, then add the original constraint to the set of constraints
-        # for the new region. All linear constraints are ignored (see above for 
-        # rationale)
+        # for the new region. Each linear constraint is treated as a pair of 
+        # (opposite) inequality constraints. 
         A = self.mat.copy()
-        B = other.mat
+        B = Polytope._matrix_as_list(other.mat, False)
+        for eq in Polytope._matrix_as_list(other.mat, True):
+            B.append(eq)
+            B.append(tuple(-x for x in eq))
         polys = []
-        for i in range(B.row_size):
-            if i in B.lin_set: continue
+        for i in range(len(B)):
             c = B[i]
             # Invert the constraint c then compute A \intersect c'
             c_comp = [-x for x in c]
@@ -565,7 +567,7 @@ class Polytope:
                 polys.append(part)
 
             # For the next part
-            if i < B.row_size - 1:
+            if i < len(B) - 1:
                 A.extend([c])
 
         return polys
-- 
2.43.0


From f639647c1ffa3f7218ce7863f499722eaeba9287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 03/58] fix: lift polytopes that only have equality constraints

---
 blueprint/src/python/polytope.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 23a8096..95621ab 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -795,11 +795,15 @@ class Polytope:
             c[i + 1] = -1
             ineq_constraints.append(c)
         
-        # Construct matrix 
-        mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+        # Construct matrix (its dimensions are not initialised if there are no 
+        # inequality constraints)
+        if len(ineq_constraints) > 0:
+            mat = cdd.Matrix(ineq_constraints, linear=False, number_type="fraction")
+            if len(eq_constraints) > 0:
+                mat.extend(eq_constraints, linear=True)
+        else:
+            mat = cdd.Matrix(eq_constraints, linear=True, number_type="fraction")
         mat.rep_type = cdd.RepType.INEQUALITY
-        if len(eq_constraints) > 0:
-            mat.extend(eq_constraints, linear=True)
         return Polytope._from_mat(mat)
 
 
-- 
2.43.0


From 09170c22aec2225ad7f241a7b67b44078da54baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 04/58] fix: from_V_rep does not report points that are not
 vertices as vertices

---
 blueprint/src/python/polytope.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/polytope.py b/blueprint/src/python/polytope.py
index 95621ab..4029e20 100644
--- a/blueprint/src/python/polytope.py
+++ b/blueprint/src/python/polytope.py
@@ -345,12 +345,9 @@ class Polytope:
         poly = cdd.Polyhedron(V)
         H = poly.get_inequalities()
 
-        p = Polytope([])  # Construct an empty polytope temporarily
-        p.mat = H
-        p.polyhedron = poly
-        p.vertices = copy.copy(verts)  # Shallow copy is fine for now
-        p.rays = []
-        return p
+        # The points in verts may be repeated, or not be vertices of their convex 
+        # hull, so the V representation is recomputed (from H) when it is needed
+        return Polytope._from_mat(H)
 
     # -------------------------------------------------------------------------
     # public instance functions
-- 
2.43.0


From c780481556e7c6020cdf02dcbfd8ee543dba59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 05/58] fix: print regions which are complements

---
 blueprint/src/python/region.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index a7a3ac1..5b72310 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -60,7 +60,8 @@ class Region:
                 return ("\t" * indentation) + p + "\n"
             else:
                 s = ("\t" * indentation) + Region_Type.to_str(region.region_type) + "\n"
-                for r in region.child:
+                # Complements have a single child
+                for r in (region.child if isinstance(region.child, list) else [region.child]):
                     s += Region.to_str(r, use_indentation, indentation + 1, variables)
                 return s
             
@@ -69,8 +70,9 @@ class Region:
             if isinstance(region.child, Polytope):
                 return str(region.child) if variables is None else region.child.to_str(variables)
             else:
+                children = region.child if isinstance(region.child, list) else [region.child]
                 return Region_Type.to_str(region.region_type) + " of {" + \
-                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in region.child) + "}"
+                    ", ".join(Region.to_str(r, use_indentation=False, variables=variables) for r in children) + "}"
     
 
     # Private methods --------------------------------------------------------
-- 
2.43.0


From eff6db602fbb1de20f7e470d7639e60271ae0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 06/58] fix: is_subset_of a union of polytopes compares against
 polytopes

---
 blueprint/src/python/region.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 5b72310..7d6a12d 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -183,7 +183,8 @@ class Region:
             if region.region_type == Region_Type.POLYTOPE:
                 return self.child.is_subset_of(region.child)
             elif region.region_type == Region_Type.UNION or region.region_type == Region_Type.DISJOINT_UNION:
-                return self.child.is_covered_by(region.child)
+                if all(r.region_type == Region_Type.POLYTOPE for r in region.child):
+                    return self.child.is_covered_by([r.child for r in region.child])
             elif region.region_type == Region_Type.INTERSECT:
                 return all(self.is_subset_of(p) for p in region.child)
         
-- 
2.43.0


From 07e906b2b751dfafb832ac0cd0a4e8302f7df9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 07/58] fix: project intersections with empty or single
 children

---
 blueprint/src/python/region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 7d6a12d..ec2addb 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -237,9 +237,9 @@ class Region:
         
         if self.region_type == Region_Type.INTERSECT:
             ps = [c.project(dims) for c in self.child]
-            ps = [p for p in ps if p is not None]
-            if len(ps) == 0: return None
-            if len(ps) == 1: return ps[1]
+            # An intersection with an empty set is empty 
+            if len(ps) == 0 or any(p is None for p in ps): return None
+            if len(ps) == 1: return ps[0]
             return Region(Region_Type.INTERSECT, ps)
         
         # In particular, complements are not yet supported. 
-- 
2.43.0


From 07959ddd9fb4071bc0519451d8ee7a8333793bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 08/58] fix: the lift of a complement is a complement

---
 blueprint/src/python/region.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index ec2addb..63dc25f 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -253,9 +253,22 @@ class Region:
                                     Region_Type.DISJOINT_UNION, Region_Type.INTERSECT, Region_Type.COMPLEMENT}:
             raise NotImplementedError("lifting operation is not implemented for the region_type {self.region_type}.")
         
-        if self.region_type in {Region_Type.POLYTOPE, Region_Type.COMPLEMENT}:
+        if self.region_type == Region_Type.POLYTOPE:
             return Region(Region_Type.POLYTOPE, self.child.lift(var))
         
+        if self.region_type == Region_Type.COMPLEMENT:
+            comp = Region(Region_Type.COMPLEMENT, self.child.lift(var))
+            # The new dimensions remain bounded in the complement
+            box = []
+            for i in range(len(var)):
+                if isinstance(var[i], tuple):
+                    (lower, upper) = var[i]
+                    box.append([-lower] + [int(i == j) for j in range(len(var))])
+                    box.append([upper] + [-int(i == j) for j in range(len(var))])
+            if len(box) == 0:
+                return comp
+            return Region.intersect([comp, Region.from_polytope(Polytope(box))])
+        
         return Region(self.region_type, [c.lift(var) for c in self.child])
 
     # Returns a representation of this region as a disjoint union of convex polytopes.
-- 
2.43.0


From 63b624c7c5c1c4a38f19b1d8d9fe9d5c7f3792ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 09/58] fix: min/max of affine functions crops every piece to
 its own interval

---
 blueprint/src/python/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7553b46..ad68f85 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -246,7 +246,7 @@ class Affine:
                 x = crits[i]
                 interval = Interval(x, x, True, True)
                 if domain is None or domain.contains(x):
-                    p = self if self.domain.contains(x) else None
+                    p = compare_f(None, self, interval) if self.domain.contains(x) else None
                     for f in f2:
                         if f.domain.contains(x):
                             p = compare_f(p, f, interval)
@@ -258,7 +258,7 @@ class Affine:
             # Consider the interval (crits[i], crits[i + 1])
             interval = Interval(crits[i], crits[i + 1], False, False)
             test_x = interval.midpoint()
-            p = self if self.domain.contains(test_x) else None
+            p = compare_f(None, self, interval) if self.domain.contains(test_x) else None
             for f in f2:
                 if f.domain.contains(test_x):
                     p = compare_f(p, f, interval)
-- 
2.43.0


From 38113c4c8723bfa0d12030c7051f2d72c67c5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 10/58] fix: subtraction and division by a number of rational
 functions

---
 blueprint/src/python/functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index ad68f85..5d76708 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -782,7 +782,7 @@ class RationalFunction:
         return self.add(other)
     
     def __sub__(self, other):
-        return self.sub(other)
+        return self.subtract(other)
 
     def __mul__(self, other):
         return self.mul(other)
@@ -911,7 +911,7 @@ class RationalFunction:
             r.num = self.num * other.den + self.den * other.num
             r.den = self.den * other.den
             return r
-        return NotImplementedError()
+        raise NotImplementedError()
     
     def subtract(self, other):
         r = RationalFunction([])
@@ -941,8 +941,8 @@ class RationalFunction:
     def div(self, other):
         r = RationalFunction([])
         if isinstance(other, numbers.Number):
-            r.num = self.num * other
-            r.den = self.den
+            r.num = self.num
+            r.den = self.den * other
             return r
         if isinstance(other, RationalFunction):
             r.num = self.num * other.den
-- 
2.43.0


From 42e2db0534c0e09938bc085bf6318532c50b85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 11/58] fix: coefficient order and zero terms of
 RationalFunction2

---
 blueprint/src/python/functions.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 5d76708..f4bc5f0 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -669,7 +669,7 @@ class RationalFunction2:
         if len(coeffs) == 0:
             raise ValueError("Parameter coeffs must have at least 1 element")
 
-        if len(coeffs) == 1:
+        if isinstance(coeffs, list) or len(coeffs) == 1:
             self._num_coeffs = tuple(coeffs)
             self._den_coeffs = tuple([1])
         else:
@@ -683,7 +683,7 @@ class RationalFunction2:
         if self.is_zero(): 
             return f"0 on {self.domain}"
         if self.is_constant(): 
-            return f"{self._num_coeffs[0] / self._den_coeffs[0]} on {self.domain}"
+            return f"{self._num_coeffs[-1] / self._den_coeffs[-1]} on {self.domain}"
 
         num = RationalFunction2._poly_str(self._num_coeffs, "x")
         den = RationalFunction2._poly_str(self._den_coeffs, "x")
@@ -704,13 +704,14 @@ class RationalFunction2:
         s = []
         front = True
         for c in coeffs:
-            if front: 
-                if c < 0: s.append("-")
-            else:
-                s.append("-" if c < 0 else "+")
-            s.append(RationalFunction2._mon_str(c, var_name, deg))
+            if c != 0:
+                if front: 
+                    if c < 0: s.append("-")
+                else:
+                    s.append("-" if c < 0 else "+")
+                s.append(RationalFunction2._mon_str(c, var_name, deg))
+                front = False
             deg -= 1
-            front = False
 
         if len(s) == 0: return "0"
         return " ".join(s)
@@ -729,12 +730,12 @@ class RationalFunction2:
         return all(c == 0 for c in self._num_coeffs)
 
     def is_constant(self):
-        return all(c == 0 for c in self._num_coeffs[1:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-1]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     def is_affine(self):
-        return all(c == 0 for c in self._num_coeffs[2:]) and \
-                all(c == 0 for c in self._den_coeffs[1:])
+        return all(c == 0 for c in self._num_coeffs[:-2]) and \
+                all(c == 0 for c in self._den_coeffs[:-1])
 
     
 # Represents the univariate function P(x)/Q(x) where P, Q are polynomials. Currently
-- 
2.43.0


From 0353b8a7ec0e151eac03ff49c5e14ea2a337f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 12/58] fix: polynomials with zero coefficients are printed
 without stray signs

---
 blueprint/src/python/polynomial.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 94ae330..198e385 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -41,13 +41,12 @@ class Polynomial:
         s = []
         front = True
         for c in self.coefficients:
-            if front: 
-                if c < 0: s.append("-")
-            else:
-                s.append("-" if c < 0 else "+")
-
             mon = Polynomial._monomial_str(c, var, deg)
             if len(mon) > 0:
+                if front: 
+                    if c < 0: s.append("-")
+                else:
+                    s.append("-" if c < 0 else "+")
                 front = False
                 s.append(mon)
             deg += 1
-- 
2.43.0


From e4ebb4539a121265db2bc8b8ebe446eb55163cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 13/58] fix: Polynomial.divide returns the quotient as a
 rational function

---
 blueprint/src/python/polynomial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/polynomial.py b/blueprint/src/python/polynomial.py
index 198e385..6bcca92 100644
--- a/blueprint/src/python/polynomial.py
+++ b/blueprint/src/python/polynomial.py
@@ -1,4 +1,4 @@
-from functions import RationalFunction2
+from functions import Interval, RationalFunction2
 
 # Basic univariate dense polynomial implementation with rational coefficients
 class Polynomial:
@@ -129,5 +129,8 @@ class Polynomial:
         if other.is_zero():
             raise ValueError("Division by zero")
 
-        # Returns 
-        return RationalFunction2(self, other)
\ No newline at end of file
+        # RationalFunction2 arranges coefficients from highest to lowest degree
+        return RationalFunction2(
+            (self.coefficients[::-1], other.coefficients[::-1]), 
+            Interval(float("-inf"), float("inf"), False, False)
+        )
\ No newline at end of file
-- 
2.43.0


From c99015fd474814870e920ed44b69e570af03f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 14/58] fix: roots and intersections of constant and
 non-polynomial rational functions

---
 blueprint/src/python/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index f4bc5f0..712a39c 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -975,7 +975,7 @@ class RationalFunction:
     # on an interval
     def intersections(self, other, interval):
         # Intersections of P/Q = R/S when PS - RQ = 0
-        f = self.num * other.den - self.den * other.num
+        f = sympy.sympify(self.num * other.den - self.den * other.num)
         if not f.is_constant():
             return [
                 SympyHelper.to_frac(r)
@@ -985,7 +985,8 @@ class RationalFunction:
         return []
 
     def roots(self, interval):
-        f = self.num / self.den
+        # The roots of P/Q are those of P, once common factors are removed
+        f = sympy.fraction(sympy.cancel(sympy.sympify(self.num) / self.den))[0]
         if f.is_constant():
             return []
         return [r for r in sympy.real_roots(f) if interval.contains(r)]
-- 
2.43.0


From 447082d26aa41de2c9ffee92bd2a23cd48e3e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 15/58] fix: minimum of equal affine functions without labels

---
 blueprint/src/python/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 712a39c..c75e35e 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -407,7 +407,10 @@ class Affine2:
             # If two functions are identical, then we add the one with a smaller
             # label. This is to establish a replicable order of functions.
             if all(self.a[i] == f.a[i] for i in range(len(self.a))):
-                fn = self if self.label < f.label else f
+                if f.label is None or (self.label is not None and self.label < f.label):
+                    fn = self
+                else:
+                    fn = f
                 pieces.append(Affine2(fn.a, domain, fn.label))  # Shallow copying
                 continue
 
-- 
2.43.0


From 7cf3d2b954ae9bd667d68c2fcaaf2b49c20c4bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 16/58] fix: a copied hypothesis set does not share its cache
 with the original

---
 blueprint/src/python/hypotheses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index b6bbd84..c91bf37 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -140,7 +140,9 @@ class Hypothesis_Set:
     # Shallow copy, the hypothesis objects are not cloned
     def __copy__(self):
         copy = Hypothesis_Set(self.hypotheses)
-        copy.data = self.data
+        # the cache itself must not be shared: the copy and the original may be
+        # extended with different hypotheses
+        copy.data = dict(self.data)
         copy.data_valid = self.data_valid
         return copy
 
-- 
2.43.0


From 8848f39cbd8ca1ed098f48f2a749c58e33121f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 17/58] fix: invalidating a hypothesis set drops all cached
 data

---
 blueprint/src/python/hypotheses.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/hypotheses.py b/blueprint/src/python/hypotheses.py
index c91bf37..fd89e99 100644
--- a/blueprint/src/python/hypotheses.py
+++ b/blueprint/src/python/hypotheses.py
@@ -162,6 +162,12 @@ class Hypothesis_Set:
         for hypothesis in self:
             print(hypothesis.desc_with_proof())
 
+    # Discards all precomputed data. All of it has to go: recomputing one entry makes
+    # the cache valid again, so no entry of an earlier state may be left behind.
+    def invalidate_data(self):
+        self.data = {}
+        self.data_valid = False
+
     # Adds a single hypothesis to the hypothesis set.
     # If invalidate_data is true, then the precomputed, cached data (e.g. a convex hull)
     # is invalidated and will be recomputed at the next proof function call. In certain
@@ -172,7 +178,7 @@ class Hypothesis_Set:
     def add_hypothesis(self, hypothesis, invalidate_data=True):
         self.hypotheses.add(hypothesis)
         if invalidate_data:
-            self.data_valid = False
+            self.invalidate_data()
 
     # Adds a set or list of hypotheses, an individual hypothesis, or a Hypothesis_Set
     def add_hypotheses(self, new_hypotheses, invalidate_data=True):
@@ -185,7 +191,7 @@ class Hypothesis_Set:
         else:
             self.hypotheses.update(new_hypotheses)
             if invalidate_data:
-                self.data_valid = False
+                self.invalidate_data()
 
     # return all hypotheses of a given type, and (optionally) up to a given year.  Note: is now returning a Hypothesis_Set rather than a list
     def list_hypotheses(self, hypothesis_type="Any", year="Any"):
-- 
2.43.0


From bc6c335f3aabd81e94958e17a3cf7e569fff57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 18/58] fix: the hulls of mu bounds and of exponent pairs are
 cached under different names

---
 blueprint/src/python/bound_mu.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 3084b19..7ff1500 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -167,11 +167,12 @@ def get_bounds(hypothesis_set):
 
 
 # Compute the 2-d convex hull containing all points (sigma, mu) implied
-# by mu bounds in 'bounds' list and saves it in the 'hypothesis_set' object.
+# by mu bounds in 'bounds' list and saves it in the 'hypothesis_set' object (under a
+# different name than the convex hull of exponent pairs, see exponent_pair.py).
 def compute_convex_hull(bounds, hypothesis_set):
     conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
     vertices = [bounds[v] for v in conv.vertices]
-    hypothesis_set.data["convex_hull"] = vertices
+    hypothesis_set.data["mu_convex_hull"] = vertices
     hypothesis_set.data_valid = True
 
 
@@ -187,7 +188,7 @@ def best_mu_bound(sigma, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_list` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
         # The convex hull package requires us to provide at least 3 points, while some
@@ -197,7 +198,7 @@ def best_mu_bound(sigma, hypothesis_set):
         compute_convex_hull(pts, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     for i in range(len(verts)):
         b1 = verts[i]
         b2 = verts[(i + 1) % len(verts)]
@@ -240,12 +241,12 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
-    if not hypothesis_set.data_valid or "convex_hull" not in hypothesis_set.data:
+    if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         bounds = get_bounds(hypothesis_set)
         compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
-    verts = hypothesis_set.data["convex_hull"]
+    verts = hypothesis_set.data["mu_convex_hull"]
     mu_bounds = []
     for i in range(len(verts)):
         b1 = verts[i].data
-- 
2.43.0


From 0615b7fc511293cefc22ad551981c3ff4e5221f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 19/58] fix: best_mu_bound_piecewise on every interval and with
 few bounds

---
 blueprint/src/python/bound_mu.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 7ff1500..1b96a84 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -170,6 +170,10 @@ def get_bounds(hypothesis_set):
 # by mu bounds in 'bounds' list and saves it in the 'hypothesis_set' object (under a
 # different name than the convex hull of exponent pairs, see exponent_pair.py).
 def compute_convex_hull(bounds, hypothesis_set):
+    # The convex hull package requires us to provide at least 3 points that are not on a
+    # line, while some hypothesis sets may only contain 2 points, so we include a
+    # placeholder point to account for this edge case. 
+    bounds = list(bounds) + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
     conv = ConvexHull(np.array([[b.data.sigma, b.data.mu] for b in bounds]))
     vertices = [bounds[v] for v in conv.vertices]
     hypothesis_set.data["mu_convex_hull"] = vertices
@@ -191,11 +195,7 @@ def best_mu_bound(sigma, hypothesis_set):
     if not hypothesis_set.data_valid or "mu_convex_hull" not in hypothesis_set.data:
         # Generate set of bounds on mu implied by hypothesis set
         bounds = get_bounds(hypothesis_set)
-        # The convex hull package requires us to provide at least 3 points, while some
-        # hypothesis sets may only contain 2 points, so we include a placeholder point as
-        # a third point to account for this edge case.
-        pts = [b for b in bounds] + [conjecture_bound_mu(1 / 2, 10, "Placeholder")]
-        compute_convex_hull(pts, hypothesis_set)
+        compute_convex_hull(bounds, hypothesis_set)
 
     # The vertices are guaranteed to be in counterclockwise order for 2D hulls
     verts = hypothesis_set.data["mu_convex_hull"]
@@ -230,14 +230,20 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
 
     # deal with edge pieces
     if sigma0 < 0:
-        return [("-x + 1/2", sigma0, 0)] + best_mu_bound_piecewise(
+        left = Affine(-1, frac(1, 2), Interval(sigma0, min(sigma1, 0)))
+        if sigma1 <= 0:
+            return [left]
+        return [left] + best_mu_bound_piecewise(
             Interval(0, sigma1, include_lower=True, include_upper=sigma_interval.include_upper),
             hypothesis_set
         )
     if sigma1 > 1:
+        right = Affine(0, 0, Interval(max(sigma0, 1), sigma1))
+        if sigma0 >= 1:
+            return [right]
         return best_mu_bound_piecewise(
             Interval(sigma0, 1, include_lower=sigma_interval.include_lower, include_upper=True),
-            hypothesis_set) + [("0", 1, sigma1)]
+            hypothesis_set) + [right]
 
     # Computed convex hull is stored within `hypothesis_set` the first time
     # to avoid repeatedly computing it for multiple values of sigma.
@@ -251,10 +257,11 @@ def best_mu_bound_piecewise(sigma_interval, hypothesis_set):
     for i in range(len(verts)):
         b1 = verts[i].data
         b2 = verts[(i + 1) % len(verts)].data
-        if b2.sigma < sigma0 or b1.sigma > sigma1: 
+        # Only the edges of the lower hull run from left to right
+        if b1.sigma >= b2.sigma or b2.sigma < sigma0 or b1.sigma > sigma1:
             continue
         interval = Interval(max(sigma0, b1.sigma), min(sigma1, b2.sigma))
-        if b1.sigma < b2.sigma and not interval.is_empty():
+        if not interval.is_empty():
             mu_bounds.append(
                 Affine(
                     (b2.mu - b1.mu) / (b2.sigma - b1.sigma),
-- 
2.43.0


From 54dac29be5a61ca5ceb09dd574d98555d3b01cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 20/58] fix: the functional equation applies to bounds on
 mu(sigma) with sigma < 1/2 too

---
 blueprint/src/python/bound_mu.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/bound_mu.py b/blueprint/src/python/bound_mu.py
index 1b96a84..f0d42c0 100644
--- a/blueprint/src/python/bound_mu.py
+++ b/blueprint/src/python/bound_mu.py
@@ -158,10 +158,8 @@ def get_bounds(hypothesis_set):
     bounds.extend(obtain_mu_bound_from_exponent_pair(p) for p in exp_pairs)
 
     # add bounds coming from the functional equation
-    for bound in bounds:
-        # mpmath does not currently support comparisons between Fraction and
-        # the mpf object, use this for now to determine whether sigma > 1/2
-        if 2 * bound.data.sigma > 1:
+    for bound in list(bounds):
+        if 2 * bound.data.sigma != 1:
             bounds.append(apply_functional_equation(bound))
     return bounds
 
-- 
2.43.0


From e582cb6204aadf2adfe317c2285fddc84d36e1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 21/58] fix: construct_proof finds the triangle in any
 orientation, and segments

---
 blueprint/src/python/exponent_pair.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index f7c57ec..a8d927b 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -254,11 +254,22 @@ def beta_bounds_to_exponent_pairs(
     return all_eps
 
 # Returns whether point p lies in the triangle with vertices a, b, c (all points 
-# two-dimensional)
+# two-dimensional tuples)
 def in_triangle(a, b, c, p):
      d = ((b[1] - c[1])*(a[0] - c[0]) + (c[0] - b[0])*(a[1] - c[1]))
      x = ((b[1] - c[1])*(p[0] - c[0]) + (c[0] - b[0])*(p[1] - c[1]))
      y = ((c[1] - a[1])*(p[0] - c[0]) + (a[0] - c[0])*(p[1] - c[1]))
+     # Degenerate triangles are line segments, joining the lexicographically smallest 
+     # and largest vertex 
+     if d == 0:
+         lo, hi = min(a, b, c), max(a, b, c)
+         return (
+             lo <= p <= hi and 
+             (hi[0] - lo[0])*(p[1] - lo[1]) == (hi[1] - lo[1])*(p[0] - lo[0])
+         )
+     # The vertices may be listed in clockwise order
+     if d < 0:
+         d, x, y = -d, -x, -y
      return 0 <= x and x <= d and 0 <= y and y <= d and x + y <= d
 
 def construct_proof(
@@ -333,10 +344,11 @@ def construct_proof(
     if deep_search: verts = ephs
 
     # Perform a naive brute-force search in O(n^3) time
-    for tri in itertools.combinations(verts, 3):
+    for tri in itertools.combinations(verts, min(3, len(verts))):
+        # If there are fewer than 3 exponent pairs, the triangle degenerates to a segment
         if in_triangle((tri[0].data.k, tri[0].data.l),
-                        (tri[1].data.k, tri[1].data.l),
-                        (tri[2].data.k, tri[2].data.l),
+                        (tri[min(1, len(tri) - 1)].data.k, tri[min(1, len(tri) - 1)].data.l),
+                        (tri[-1].data.k, tri[-1].data.l),
                         (k, l)):
             comp = sum(v.proof_complexity() for v in tri)
             if comp < lowest_comp:
-- 
2.43.0


From 80c8d8b1f27ad486d494cbbdbc1acbf21027cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 22/58] fix: find_best_proof without optimisation uses the
 derived exponent pairs

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index a8d927b..be6674a 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -469,6 +469,6 @@ def find_best_proof(
         hyps = copy.copy(hypotheses)
         hyps.add_hypotheses(beta_bounds_to_exponent_pairs(hyps))
         hyps.add_hypotheses(compute_exp_pairs(hyps, prune=True))
-        return construct_proof(k, l, hypotheses, deep_search=False, reduce_dependencies=False)
+        return construct_proof(k, l, hyps, deep_search=False, reduce_dependencies=False)
     else:
         raise NotImplementedError()
-- 
2.43.0


From 624633e0fae16f1249b7d14fcfdb43056b17d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 23/58] fix: find_best_proof by date with conjectures or
 without dated hypotheses

---
 blueprint/src/python/exponent_pair.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index be6674a..2b5cdc1 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -404,19 +404,15 @@ def find_best_proof(
     # Generate a proof of the exponent pair (k, l) by minimising the date of the
     # last dependency
     if method == Proof_Optimization_Method.DATE:
-        from_year = min(
-            h.reference.year()
-            for h in hypotheses
-            if h.reference.year() != "Unknown date"
-        )
-        to_year = max(
+        # (conjectures have an infinite year)
+        years = set(
             h.reference.year()
             for h in hypotheses
             if h.reference.year() != "Unknown date"
         )
 
         num_hypotheses = 0
-        for year in range(from_year, to_year + 1):
+        for year in sorted(years):
             hyps = Hypothesis_Set(
                 h
                 for h in hypotheses
-- 
2.43.0


From b73366293644726b7a99d844599f2e7ee25e7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 24/58] fix: beta bounds with a gap do not imply exponent pairs

---
 blueprint/src/python/exponent_pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 2b5cdc1..c08e38f 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -185,6 +185,10 @@ def beta_bounds_to_exponent_pairs(
     if len(beta_bound) == 0 or (
         beta_bound[0].data.bound.domain.x0 > 0
         or beta_bound[-1].data.bound.domain.x1 < frac(1, 2)
+        or any(
+            beta_bound[i].data.bound.domain.x1 < beta_bound[i + 1].data.bound.domain.x0
+            for i in range(len(beta_bound) - 1)
+        )
     ):
         return []
 
-- 
2.43.0


From 17d973b91ebca12c7bd62bc4e3c85611989e6b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 25/58] fix: a single beta bound is restricted to the domain
 like any other

---
 blueprint/src/python/bound_beta.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueprint/src/python/bound_beta.py b/blueprint/src/python/bound_beta.py
index 917f411..26ee9b4 100644
--- a/blueprint/src/python/bound_beta.py
+++ b/blueprint/src/python/bound_beta.py
@@ -132,7 +132,7 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
         domain = Interval(0, frac(1, 2), include_lower=True, include_upper=True)
 
     # handle edge cases
-    if len(bounds) < 2:
+    if len(bounds) == 0:
         return bounds
 
     # Create temporary deep copy of bounds to work with
@@ -142,9 +142,9 @@ def compute_best_beta_bounds(hypothesis_set, domain=None):
     for i in range(len(bds)):
         bds[i].label = i
 
-    # Iterate through all bounds
-    best_bounds = [bds[0]]
-    for i in range(1, len(bds)):
+    # Iterate through all bounds, starting from no bound at all on the domain
+    best_bounds = []
+    for i in range(len(bds)):
         best_bounds = bds[i].min_with(best_bounds, domain)
 
     # create temp dictionary for efficient lookup
-- 
2.43.0


From 92f4a620e49d0b13afb83a6ed8d79b0ee782c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 26/58] fix: the exponent pair conjecture is that (0, 1/2) is
 an exponent pair

---
 blueprint/src/python/exponent_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index c08e38f..980ee65 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -62,7 +62,7 @@ trivial_exp_pair = Hypothesis(
 exponent_pair_conjecture = Hypothesis(
     "Exponent pair conjecture",
     "Exponent pair",
-    Exp_pair(0, 0),
+    Exp_pair(frac(0, 1), frac(1, 2)),
     "Conjecture",
     Reference.conjectured(),
 )
-- 
2.43.0


From 162fa970783d5c77d487fce41b343c76ea3a3182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 27/58] fix: convex hulls of exponent pairs on a line

---
 blueprint/src/python/exponent_pair.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 980ee65..066d1d5 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -69,6 +69,20 @@ exponent_pair_conjecture = Hypothesis(
 
 ###############################################################################
 
+# Returns the vertices of the convex hull of a list of exponent pairs (Hypothesis objects)
+def convex_hull_vertices(pairs: list) -> list:
+    lo = min(pairs, key=lambda p: (p.data.k, p.data.l))
+    hi = max(pairs, key=lambda p: (p.data.k, p.data.l))
+    # The convex hull package requires points that are not on a line
+    if all(
+        (hi.data.k - lo.data.k) * (p.data.l - lo.data.l)
+        == (hi.data.l - lo.data.l) * (p.data.k - lo.data.k)
+        for p in pairs
+    ):
+        return [lo] if lo is hi else [lo, hi]
+    conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
+    return [pairs[v] for v in conv.vertices]
+
 def compute_exp_pairs(
         hypothesis_set: Hypothesis_Set, 
         search_depth: int = 5, 
@@ -113,9 +127,7 @@ def compute_exp_pairs(
             if len(pairs) < 3:
                 continue  # Don't prune if set is too small
             pairs = [p for p in pairs.values()]
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            verts = [pairs[v] for v in conv.vertices]
-            pairs = {(p.data.k, p.data.l): p for p in verts}
+            pairs = {(p.data.k, p.data.l): p for p in convex_hull_vertices(pairs)}
 
     return [p for p in pairs.values()]
 
@@ -145,9 +157,7 @@ def compute_convex_hull(hypothesis_set: Hypothesis_Set) -> ConvexHull:
         if len(pairs) < 3:
             hypothesis_set.data["convex_hull"] = list(pairs)
         else:
-            conv = ConvexHull(np.array([[p.data.k, p.data.l] for p in pairs]))
-            vertices = [pairs[v] for v in conv.vertices]
-            hypothesis_set.data["convex_hull"] = vertices
+            hypothesis_set.data["convex_hull"] = convex_hull_vertices(pairs)
             hypothesis_set.data_valid = True
 
     return hypothesis_set.data["convex_hull"]
-- 
2.43.0


From 5abbb64be67308847d7fda3d3a5cbcc19d1abc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 28/58] fix: read quoted and bare fields of bibtex entries

---
 blueprint/src/python/reference.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index a4ab596..5723d1d 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -121,15 +121,18 @@ class Reference_Manager:
                 level += 1
         return "".join(chs)
 
-    # Split by delimiter, but only when it is nested 'level' deep
+    # Split by delimiter, but only when it is nested 'level' deep, and not quoted
     def _split_level(self, item, open_brace, close_brace, delim, level):
         split = []  # contains all words
         chs = []  # current word
         l = 0
+        quoted = False
         for c in item:
             if c == close_brace:
                 l -= 1
-            if l == level and c == delim:
+            if l == level and c == '"':
+                quoted = not quoted
+            if l == level and c == delim and not quoted:
                 if len(chs) > 0:
                     split.append("".join(chs))
                     chs.clear()
@@ -142,6 +145,17 @@ class Reference_Manager:
             split.append("".join(chs))
         return split
 
+    # Returns the content of a field, which may be written as {content}, as "content" or,
+    # if it is a number, without delimiters
+    def _parse_value(self, s):
+        if s.startswith('"'):
+            s = s[1:-1].strip()
+            if not s.startswith("{"):
+                return s
+        if "{" in s:
+            return self._extract(s, "{", "}")
+        return s if s.isdigit() else ""
+
     def _parse_year(self, s):
         return int(s.split("/")[0])  # year is (hopefully) stored as an integer
 
@@ -171,7 +185,7 @@ class Reference_Manager:
             kvp = self._split_level(e, "{", "}", "=", 0)
             if len(kvp) >= 2:
                 key = kvp[0].strip().lower()
-                value = self._extract(kvp[1].strip(), "{", "}")
+                value = self._parse_value(kvp[1].strip())
                 if len(key) == 0 or len(value) == 0:
                     continue
                 if key == "year":
-- 
2.43.0


From 4eca15a767d93f853cd9949eea0f191c2eff5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 29/58] fix: Reference_Manager.find_all with references without
 author or year

---
 blueprint/src/python/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 5723d1d..ed6f984 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -93,8 +93,8 @@ class Reference_Manager:
         refs = []
         for k in self.refs:
             ref = self.refs[k]
-            if (author == "Any" or author in ref.entries["author"]) and (
-                year == "Any" or ref.entries["year"] == year
+            if (author == "Any" or author in ref.author()) and (
+                year == "Any" or ref.year() == year
             ):
                 refs.append(ref)
         return refs
-- 
2.43.0


From 7607b8104e87d317f8c120e459a15f8ae454b87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 30/58] fix: quoted bibtex fields keep their braces

---
 blueprint/src/python/reference.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index ed6f984..12cc84b 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -149,9 +149,7 @@ class Reference_Manager:
     # if it is a number, without delimiters
     def _parse_value(self, s):
         if s.startswith('"'):
-            s = s[1:-1].strip()
-            if not s.startswith("{"):
-                return s
+            return s[1:-1].strip()
         if "{" in s:
             return self._extract(s, "{", "}")
         return s if s.isdigit() else ""
-- 
2.43.0


From 70adcddb88cd3e5e43d2f9d9a7fb422b13269237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 31/58] fix: the zeta range of lv_zlv_to_zd2 is 2 <= tau <= 4/3
 tau0 over the given sigma

---
 blueprint/src/python/zero_density_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 4d50b7f..991ddae 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -440,8 +440,8 @@ def lv_zlv_to_zd2(
         Region.from_polytope(
             Polytope([
                 [-2, 0, 1, 0], # tau >= 2
-                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, 1, 0] # tau <= 4/3 * tau0
-            ])
+                [frac(4,3) * tau0.c, frac(4,3) * tau0.m, -1, 0] # tau <= 4/3 * tau0
+            ] + sigma_rho_constraints)
         ),
         zeta = True
     )
-- 
2.43.0


From 1d41f0634b5e1e7219746d0da23aca7ae9c53ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 32/58] fix: the trivial zeta large value estimate is a region

---
 blueprint/src/python/zeta_large_values.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/blueprint/src/python/zeta_large_values.py b/blueprint/src/python/zeta_large_values.py
index 6d4f6dc..0444b04 100644
--- a/blueprint/src/python/zeta_large_values.py
+++ b/blueprint/src/python/zeta_large_values.py
@@ -16,18 +16,18 @@ from region import Region, Region_Type
 # LV_zeta(s, t) \leq t for 1/2 \leq \s \leq 1, t \geq 0
 def get_trivial_zlv():
     # Trivial estimate
-    domain = Polytope(
-        [
-            [-frac(1, 2), 1, 0],  # \sigma > 1/2
-            [1, -1, 0],  # \sigma <= 1
-            [-2, 0, 1],  # \tau >= 2
-            [Constants.TAU_UPPER_LIMIT, 0, -1],  # \tau <= some large number
-        ]
-    )
+    region = Region.from_polytope(Polytope([
+        [-frac(1, 2), 1, 0, 0], # \sigma >= 1/2
+        [1, -1, 0, 0],          # \sigma <= 1
+        [-2, 0, 1, 0],          # \tau >= 2
+        [Constants.TAU_UPPER_LIMIT, 0, -1, 0],  # \tau <= some large number
+        [0, 0, 0, 1],           # \rho >= 0
+        [0, 0, 1, -1],          # \rho <= \tau
+    ]))
     trivial = Hypothesis(
         "Trivial zeta large value estimate",
         "Zeta large value estimate",
-        lv.Large_Value_Estimate(Piecewise([Affine2([0, 0, 1], domain)])),
+        lv.Large_Value_Estimate(region, repr="ρ <= τ"),
         "Trivial",
         Reference.trivial(),
     )
-- 
2.43.0


From 9a0c29b7fd654a47955309752111c0fe1ba499e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 33/58] fix: compute_large_value_region without any large value
 estimates

---
 blueprint/src/python/zero_density_estimate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 991ddae..bbc42f7 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -218,6 +218,12 @@ def compute_large_value_region(
         r.set_label(i)
         regions.append(r)
 
+    # Without any large value estimates, all tuples in the domain are feasible
+    if len(regions) == 0:
+        r = copy.copy(domain.as_disjoint_union(verbose=False, track_dependencies=False))
+        r.set_label(-1)
+        regions.append(r)
+
     # Compute the large value energy bounding region
     # LV_region = Region(Region_Type.INTERSECT, [domain] + [h.data.region for h in hyps])
     LV_region = Region.intersect(regions)
-- 
2.43.0


From a2491bdf0a367c85ba0cebfe81e706ce1227d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 34/58] fix: projections of energy regions with one piece or no
 piece

---
 blueprint/src/python/additive_energy.py       |  4 ++++
 blueprint/src/python/region.py                |  1 -
 blueprint/src/python/zero_density_estimate.py | 14 ++++++++------
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/additive_energy.py b/blueprint/src/python/additive_energy.py
index d2dfd2a..5b1fa2b 100644
--- a/blueprint/src/python/additive_energy.py
+++ b/blueprint/src/python/additive_energy.py
@@ -398,6 +398,10 @@ def lver_to_lv(hypothesis: Hypothesis) -> Hypothesis:
 
     # Project onto the dimensions (sigma, tau, rho)
     proj = region.project({0, 1, 2})
+
+    # Handle empty projections 
+    if proj is None: return None
+
     proj.simplify()
 
     # Pack into Hypothesis object
diff --git a/blueprint/src/python/region.py b/blueprint/src/python/region.py
index 63dc25f..49c1bf3 100644
--- a/blueprint/src/python/region.py
+++ b/blueprint/src/python/region.py
@@ -232,7 +232,6 @@ class Region:
             ps = [c.project(dims) for c in self.child]
             ps = [p for p in ps if p is not None]
             if len(ps) == 0: return None
-            if len(ps) == 1: return ps[0]
             return Region(Region_Type.UNION, ps)
         
         if self.region_type == Region_Type.INTERSECT:
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index bbc42f7..374a95f 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -502,18 +502,20 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
     if LVER is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup1))
+        if proj is not None:
+            proj.simplify()
+            sup1 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup1))
         deps.update(list(LVER.dependencies))
         depcount[0] = len(LVER.dependencies)
 
     if LVER_zeta is not None:
         # Project (sigma, tau, rho, rho*, s) -> (sigma, tau, rho)
         proj = LVER_zeta.data.region.project({0, 1, 2})
-        proj.simplify()
-        sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
-        fns.extend(list(sup2))
+        if proj is not None:
+            proj.simplify()
+            sup2 = compute_sup_rho_on_tau([r.child for r in proj.child], sigma_interval)
+            fns.extend(list(sup2))
         deps.update(list(LVER_zeta.dependencies))
         depcount[1] = len(LVER_zeta.dependencies)
 
-- 
2.43.0


From 2439333f5b4bb32ad427c3c2f096a3695ed327a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 35/58] fix: zero density estimates from large values bound
 A(sigma), not A(sigma)(1 - sigma)

---
 blueprint/src/python/derived.py               | 2 +-
 blueprint/src/python/examples.py              | 8 ++++----
 blueprint/src/python/zero_density_estimate.py | 9 ++++++---
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 5993e14..b4c9451 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -352,7 +352,7 @@ def prove_zero_density(
         for x in xs:
             zs = [z for z in zdes if z.data.interval.contains(x)]
             if len(zs) > 0:
-                ys.append(min(z.data.at(x) / (1 - x) for z in zs))
+                ys.append(min(z.data.at(x) for z in zs))
             else:
                 ys.append(None)
         plt.plot(xs, ys)
diff --git a/blueprint/src/python/examples.py b/blueprint/src/python/examples.py
index c8e904e..36150f4 100644
--- a/blueprint/src/python/examples.py
+++ b/blueprint/src/python/examples.py
@@ -271,7 +271,7 @@ def plot(zdt, hypotheses, title=None):
         sigma = 1 / 2 + 1 / 2 * i / N
         A = next((p.data.at(sigma) for p in zdt if p.data.interval.contains(sigma)), 0)
         xs.append(sigma)
-        computed_zdt.append(A / (1 - sigma))
+        computed_zdt.append(A)
         literature_zdt.append(min(h.data.at(sigma) for h in hypotheses if h.data.interval.contains(sigma)))
 
     plt.figure(dpi=1200)
@@ -315,7 +315,7 @@ def zero_density_estimates_examples():
     )
     zdt = zd.lv_zlv_to_zd(hypotheses, Interval(frac(1, 2), 1), tau0=frac(5))
     print("Best-known vs computed zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         h.recursively_list_proofs()
     plot(
@@ -347,7 +347,7 @@ def zero_density_estimates_examples2():
     zd.approximate_sup_LV_on_tau(hypotheses, lambda s: frac(7, 3) * s - frac(1, 3))
     zdt = zd.compute_best_zero_density_estimate(hypotheses, Interval(frac(1, 2), 1))
     print("Verifying Heath-Brown's zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         h.recursively_list_proofs()
     plot(zdt, "Heath-Brown zero density estimate")
@@ -374,7 +374,7 @@ def zero_density_estimates_examples3():
 
     zdt = zd.lv_zlv_to_zd(hypotheses, Interval(frac(1, 2), 1), tau0=frac(3))
     print("Best-known vs computed zero-density estimate")
-    print("A(x)(1-x) \\leq")
+    print("A(x) \\leq")
     for h in zdt:
         print(h.data)
     plot(
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 374a95f..56798c1 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -386,7 +386,8 @@ def lv_zlv_to_zd(
                 f'τ in [{tau0},{2 * tau0}]) and zeta large value estimates (for σ in {sigma_interval}, τ in [{2},{tau0}])'
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # s[0] bounds A(\sigma)(1 - \sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -464,7 +465,8 @@ def lv_zlv_to_zd2(
                 f"value estimates with τ0 = {tau0.to_str('σ')})"
         deps = {lvr, zlvr}
         hyps.append(derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # s[0] bounds A(\sigma)(1 - \sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             proof,
             deps
         ))
@@ -527,7 +529,8 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
 
     return [
         derived_zero_density_estimate(
-            Zero_Density_Estimate.from_rational_func(s[0], s[1]),
+            # s[0] bounds A(\sigma)(1 - \sigma)
+            Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
             "and {depcount[1]} zeta large value energy regions",
             deps
-- 
2.43.0


From c87073618f4f5a501f5608d8f3c7b96e6eb6af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 36/58] fix: the zero density estimates of Ivic can be
 evaluated

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 56798c1..8b4ba18 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -563,7 +563,7 @@ def ivic_ep_to_zd(exp_pairs, m=2):
     sigma0 = max(sigma0, frac(9 * m * m - 4 * m + 2, 12 * m * m - 6 * m + 2))
     sigma0 = min(sigma0, frac(6 * m * m - 5 * m + 2, 8 * m * m - 7 * m + 2))
 
-    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}x + {2-m})", Interval(sigma0, 1))
+    zde = Zero_Density_Estimate(f"{3*m}/({3*m-2}*x + {2-m})", Interval(sigma0, 1))
     return derived_zero_density_estimate(
         zde, f"Follows from {dep.data}", {dep}
     )
-- 
2.43.0


From 28eb1bc850fe971cc50e55149bf628ce09caa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 37/58] fix: ep_to_zd calls bourgain_ep_to_zd with its own
 arguments

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 8b4ba18..b1be98f 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -736,7 +736,7 @@ def ep_to_zd(hypotheses):
     hypotheses.add_hypotheses(ep.compute_best_beta_bounds(hypotheses))
     ephs = ep.beta_bounds_to_exponent_pairs(hypotheses)
 
-    return bourgain_ep_to_zd(ephs) + [ivic_ep_to_zd(ephs, m=2)]
+    return bourgain_ep_to_zd() + [ivic_ep_to_zd(ephs, m=2)]
 
 # Given a list of tuples (RationalFunction, interval),
 # returns a simplified list of tuples representing the same piecewise defined
-- 
2.43.0


From fa5c72448476a5bd6bd150b4037982594bbb938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 38/58] fix: the proof of lver_to_zd names the number of zeta
 regions

---
 blueprint/src/python/zero_density_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index b1be98f..0ee7406 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -532,7 +532,7 @@ def lver_to_zd(LVER, LVER_zeta, sigma_interval):
             # s[0] bounds A(\sigma)(1 - \sigma)
             Zero_Density_Estimate.from_rational_func(s[0] / RF([-1, 1]), s[1]),
             f"Follows from combining {depcount[0]} large value energy regions " + \
-            "and {depcount[1]} zeta large value energy regions",
+            f"and {depcount[1]} zeta large value energy regions",
             deps
         )
         for s in sup
-- 
2.43.0


From 77e1098db12097ce22121117a1582b1d8c273803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 39/58] fix: the best zero density and energy estimates keep
 the dependencies of their source

---
 blueprint/src/python/zero_density_energy_estimate.py | 6 +++---
 blueprint/src/python/zero_density_estimate.py        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index e49d2a4..f399c78 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -354,7 +354,7 @@ def compute_best_energy_bound(hypotheses: Hypothesis_Set) -> list:
             )
         else:
             h = hs[ref]
-            best_bound.append(
-                Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
-            )
+            best = Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
+            best.dependencies = set(h.dependencies)
+            best_bound.append(best)
     return best_bound
diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index 0ee7406..ec3901b 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -794,9 +794,9 @@ def best_zero_density_estimate(hypotheses, verbose=False):
             )
         else:
             h = hs[ref]
-            best_bound.append(
-                Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
-            )
+            best = Hypothesis(h.name, h.hypothesis_type, zde, h.proof, h.reference)
+            best.dependencies = set(h.dependencies)
+            best_bound.append(best)
 
     if verbose:
         for b in best_bound:
-- 
2.43.0


From 808fb5bc397bc51f84861b52de204664198997b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 40/58] fix: the placeholder energy estimate has the type of an
 energy estimate

---
 blueprint/src/python/zero_density_energy_estimate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index f399c78..d73d1cc 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -345,10 +345,10 @@ def compute_best_energy_bound(hypotheses: Hypothesis_Set) -> list:
         if ref < 0:
             best_bound.append(
                 Hypothesis(
-                    "Placeholder zero density estimate",
-                    "Zero density estimate",
+                    "Placeholder zero density energy estimate",
+                    "Zero density energy estimate",
                     zde,
-                    "Placeholder zero density estimate",
+                    "Placeholder zero density energy estimate",
                     Reference.trivial(),
                 )
             )
-- 
2.43.0


From d60f32733049ca55eae90f767f6f9c0e7d4c3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 41/58] fix: trivial energy estimates from derived zero density
 estimates

---
 blueprint/src/python/zero_density_energy_estimate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/zero_density_energy_estimate.py b/blueprint/src/python/zero_density_energy_estimate.py
index d73d1cc..4bcc07e 100644
--- a/blueprint/src/python/zero_density_energy_estimate.py
+++ b/blueprint/src/python/zero_density_energy_estimate.py
@@ -155,9 +155,12 @@ def add_trivial_zero_density_energy_estimates(hypotheses: Hypothesis_Set):
     # add zero density energy estimates arising from A(sigma)
     zdes = hypotheses.list_hypotheses(hypothesis_type="Zero density estimate")
     for zde in zdes:
+        zde.data._ensure_bound_is_computed()
         hypotheses.add_hypothesis(
             trivial_zero_density_energy_estimate(
-                Zero_Density_Energy_Estimate(f"3 * ({zde.data.expr})", zde.data.interval)
+                Zero_Density_Energy_Estimate.from_rational_func(
+                    zde.data.bound.mul(3), zde.data.interval
+                )
             )
         )
     
-- 
2.43.0


From 248a008e523aee7c7691749d708e88e04787f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 42/58] fix: print the zero affine function as 0

---
 blueprint/src/python/helpers/str_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/helpers/str_helper.py b/blueprint/src/python/helpers/str_helper.py
index 305e7df..f112d86 100644
--- a/blueprint/src/python/helpers/str_helper.py
+++ b/blueprint/src/python/helpers/str_helper.py
@@ -32,5 +32,5 @@ class Str_Helper:
                 f += v
             else:
                 f += str(abs(c)) + v
-        return f
+        return f if len(f) > 0 else "0"
     
\ No newline at end of file
-- 
2.43.0


From d66941c39e7775ac52c341e6663e7726a1cc751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 43/58] fix: large value regions cite the estimates which
 exclude tuples, not only those which bound the remaining ones

---
 blueprint/src/python/zero_density_estimate.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/blueprint/src/python/zero_density_estimate.py b/blueprint/src/python/zero_density_estimate.py
index ec3901b..57c1997 100644
--- a/blueprint/src/python/zero_density_estimate.py
+++ b/blueprint/src/python/zero_density_estimate.py
@@ -203,6 +203,7 @@ def compute_large_value_region(
     # 2) We may copy region objects so that any labelling does not affect the
     # Polytopes in the original hypotheses
     regions = []
+    labels = []
     uniq_hash = set()
     for i in range(len(hyps)):
         r = Region.intersect([domain, hyps[i].data.region])
@@ -217,12 +218,14 @@ def compute_large_value_region(
         r = copy.copy(r)
         r.set_label(i)
         regions.append(r)
+        labels.append(i)
 
     # Without any large value estimates, all tuples in the domain are feasible
     if len(regions) == 0:
         r = copy.copy(domain.as_disjoint_union(verbose=False, track_dependencies=False))
         r.set_label(-1)
         regions.append(r)
+        labels.append(-1)
 
     # Compute the large value energy bounding region
     # LV_region = Region(Region_Type.INTERSECT, [domain] + [h.data.region for h in hyps])
@@ -233,6 +236,19 @@ def compute_large_value_region(
     deps = set()
     for r in LV_region.child:
         deps = deps | r.child.dependencies
+
+    # The labels only account for the estimates whose polytopes make up the computed
+    # region. Add the estimates required to exclude all other tuples of the domain.
+    unused = [(label, r) for (label, r) in zip(labels, regions) if label not in deps]
+    if len(unused) > 0:
+        used = [r for (label, r) in zip(labels, regions) if label in deps]
+        remaining = Region.intersect([domain] + used).as_disjoint_union()
+        for (label, r) in unused:
+            polys = [c.child for c in r.child]
+            if all(c.child.is_covered_by(polys) for c in remaining.child): continue
+            deps.add(label)
+            remaining = Region.intersect([remaining, r]).as_disjoint_union()
+
     deps = set(hyps[d] for d in deps if d >= 0)
 
     # Construct hypothesis object and return
-- 
2.43.0


From fac94f9e65a07b8e0afd759cb3f6c93b622badde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 44/58] fix: minima and maxima of rational functions find all
 real intersections (casus irreducibilis, floating point coefficients)

---
 blueprint/src/python/functions.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index c75e35e..5729e53 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -650,6 +650,28 @@ class SympyHelper:
             return float(expr)
         return expr
 
+    # Returns the real solutions of expr = 0, where expr is an expression in one variable.
+    # Note that expr may be algebraic instead of rational (e.g. contain sqrt(1 - x)).
+    def real_solutions(expr):
+        # Floating point coefficients lead to solutions with tiny imaginary parts
+        expr = sympy.nsimplify(expr, rational=True)
+        num = sympy.fraction(sympy.together(expr))[0]
+        if not num.free_symbols:
+            return []
+        if num.is_polynomial():
+            return sympy.real_roots(num)
+
+        solns = []
+        for soln in sympy.solve(num):
+            if soln.is_real is None:
+                # e.g. real roots of cubics which are expressed using complex numbers
+                re, im = soln.evalf(30).as_real_imag()
+                if abs(im) < 1e-20:
+                    solns.append(re)
+            elif soln.is_real:
+                solns.append(soln)
+        return solns
+
 # Alternative implementation of the univariate function P(x)/Q(x) where P, Q are polynomials
 # This class is currently experimental.
 # Differences to RationalFunction class:
@@ -828,8 +850,8 @@ class RationalFunction:
 
             new_best_bound = []
             for (func2, in2, ref2) in best_bound:
-                solns = sympy.solve(func1.num / func1.den - func2.num / func2.den)
-                crits = set(SympyHelper.to_frac(soln) for soln in solns if soln.is_real)
+                solns = SympyHelper.real_solutions(func1.num / func1.den - func2.num / func2.den)
+                crits = set(SympyHelper.to_frac(soln) for soln in solns)
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
                 crits.update([in2.x0, in2.x1])
-- 
2.43.0


From 3381e7752dacc8b668404681b89189036b688b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 45/58] fix: the default bound of a minimum of rational
 functions stands for infinity

---
 blueprint/src/python/functions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 5729e53..7c1d21e 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -850,8 +850,11 @@ class RationalFunction:
 
             new_best_bound = []
             for (func2, in2, ref2) in best_bound:
-                solns = SympyHelper.real_solutions(func1.num / func1.den - func2.num / func2.den)
-                crits = set(SympyHelper.to_frac(soln) for soln in solns)
+                # The default bound stands for infinity, so any function is better
+                crits = set()
+                if ref2 >= 0:
+                    solns = SympyHelper.real_solutions(func1.num / func1.den - func2.num / func2.den)
+                    crits.update(SympyHelper.to_frac(soln) for soln in solns)
                 crits.update([in1.x0, in1.x1])
                 crits = set(c for c in crits if in2.contains(c))
                 crits.update([in2.x0, in2.x1])
@@ -861,7 +864,8 @@ class RationalFunction:
                 for i in range(1, len(crits)):
                     inter = Interval(crits[i - 1], crits[i])
                     mid = inter.midpoint()
-                    if not in1.contains(mid) or comparator(func2.at(mid), func1.at(mid)):
+                    if not in1.contains(mid) or \
+                        (ref2 >= 0 and comparator(func2.at(mid), func1.at(mid))):
                         new_best_bound.append((func2, inter, ref2)) # f2 is the better bound
                     else:
                         new_best_bound.append((func1, inter, ref1))
-- 
2.43.0


From e4d93fd048de611e82fa7319e903f30b4aec25e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 46/58] fix: prime gaps with energy estimates which have a pole
 at 1, and all stationary points

---
 blueprint/src/python/prime_gap.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index 24fe028..042006c 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -1,12 +1,20 @@
 # This file contains calculations related to prime gaps (Ch. 13)
 
 from fractions import Fraction as frac
-from functions import Interval, RationalFunction as RF
+from functions import Interval, RationalFunction as RF, SympyHelper
 from hypotheses import *
 import zero_density_estimate as zd
 import zero_density_energy_estimate as ze
 import sympy
 
+# Value of a function at a point of an interval, or its limit from inside the interval if it is 
+# not defined there (e.g. if B has a pole at x = 1)
+def _value_at(func, p, interval):
+    value = func.subs(RF.x, p)
+    if not value.is_finite:
+        value = sympy.limit(func, RF.x, p, "+" if p == interval.x0 else "-")
+    return float(value)
+
 # Compute the best estimate of \theta_{gap, 2} using Corollary 13.9
 def compute_gap2(hypotheses, debug=False):
     if not isinstance(hypotheses, Hypothesis_Set):
@@ -47,20 +55,20 @@ def compute_gap2(hypotheses, debug=False):
         beta = 4 * x - 2 + (B * (1 - x) - 1) / A
 
         # Find all critical points and evaluate alpha at each 
-        statpts = sympy.solve(sympy.diff(alpha, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
+        statpts = SympyHelper.real_solutions(sympy.diff(alpha, x))
+        statpts = set(p for p in statpts if interval.contains(p))
         statpts.update([interval.x0, interval.x1])
-        sup_alpha = max(float(alpha.subs(x, p)) for p in statpts)
+        sup_alpha = max(_value_at(alpha, p, interval) for p in statpts)
         if debug:
             print("alpha -------------------------------------------------")
             for p in statpts:
                 print(p, float(p), alpha.subs(x, p), float(alpha.subs(x, p)))
         
         # Do the same for beta
-        statpts = sympy.solve(sympy.diff(beta, x))
-        statpts = set(p for p in statpts if p.is_real and interval.contains(p))
+        statpts = SympyHelper.real_solutions(sympy.diff(beta, x))
+        statpts = set(p for p in statpts if interval.contains(p))
         statpts.update([interval.x0, interval.x1])
-        sup_beta = max(float(beta.subs(x, p)) for p in statpts)
+        sup_beta = max(_value_at(beta, p, interval) for p in statpts)
         if debug:
             print("beta --------------------------------------------------")
             for p in statpts:
-- 
2.43.0


From 9b904997ca87762b0e5fce7142b95a32a951fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 47/58] fix: real solutions of expressions which cancel to a
 constant

---
 blueprint/src/python/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/functions.py b/blueprint/src/python/functions.py
index 7c1d21e..98ef243 100644
--- a/blueprint/src/python/functions.py
+++ b/blueprint/src/python/functions.py
@@ -655,7 +655,7 @@ class SympyHelper:
     def real_solutions(expr):
         # Floating point coefficients lead to solutions with tiny imaginary parts
         expr = sympy.nsimplify(expr, rational=True)
-        num = sympy.fraction(sympy.together(expr))[0]
+        num = sympy.expand(sympy.fraction(sympy.together(expr))[0])
         if not num.free_symbols:
             return []
         if num.is_polynomial():
-- 
2.43.0


From 83889062592b1ffec11ae1898077736cdafe00ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 48/58] fix: the two pieces of the Huxley (1993) bound on beta
 meet at 49/114

---
 blueprint/src/python/literature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index d1ffe19..a49cecb 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -62,14 +62,14 @@ add_beta_bound_huxley_kolesnik_1991()
 def add_beta_bound_huxley_1993():
     bbeta.add_beta_bound(
         literature,
-        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/144]")).max_with(
-            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/144]"))]
+        Affine(frac(7, 20), frac(13, 60), Interval("[0, 49/114]")).max_with(
+            [Affine(frac(13, 20), frac(11, 120), Interval("[0, 49/114]"))]
         ),
         rm.get("huxley_exponential_1993"),
     )
     bbeta.add_beta_bound(
         literature,
-        [Affine(frac(1, 2), frac(89, 570), Interval("[49/144, 1/2]"))],
+        [Affine(frac(1, 2), frac(89, 570), Interval("[49/114, 1/2]"))],
         rm.get("huxley_exponential_1993"),
     )
 
-- 
2.43.0


From 2efc6d43dff7447b1d7330cc6af013047122b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 49/58] fix: the optimized Bourgain large value estimate bounds
 rho on its fifth piece

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a49cecb..a527346 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -783,7 +783,7 @@ def add_bourgain_large_values_estimate():
             [1, -1, 0, 0]
         ]),
         Polytope([
-            [8, -12, frac(4,3), 0],     # ρ <= 8 - 12σ + 4τ/3
+            [8, -12, frac(4,3), -1],    # ρ <= 8 - 12σ + 4τ/3
             [0, 0, 0, 1],               # ρ >= 0
             [-frac(1,2), 1, 0, 0],      # σ >= 1/2
             [15, -21, 1, 0],
-- 
2.43.0


From ea68a5c8370610db417858a452d11ebdf643f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 50/58] fix: coefficients of rho and rho* in the first
 Guth-Maynard energy region

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index a527346..b1c5892 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1014,7 +1014,7 @@ def add_lver_guth_maynard_2024a(K):
         # First region arising on S_3 <= 2tau + rho/2 + rho*/2
         reg1 = Region.from_union_of_halfplanes(
             common + [
-                [1, -2, frac(2,3), frac(1,6), -frac(5,6), 0]
+                [1, -2, frac(2,3), -frac(5,6), frac(1,6), 0]
             ],
             rect
         )
-- 
2.43.0


From 741ca99fd0a8d271bc4eb4180cf173bc5ed80e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 51/58] fix: range of the second zero density estimate of Ivic
 (1980)

---
 blueprint/src/python/literature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/literature.py b/blueprint/src/python/literature.py
index b1c5892..d6a8049 100644
--- a/blueprint/src/python/literature.py
+++ b/blueprint/src/python/literature.py
@@ -1213,7 +1213,7 @@ def add_zero_density_ivic_1980():
         literature, "4/(2 * x + 1)", Itvl(frac(17, 18), 1), Reference.make("Ivic", 1980)
     )
     zd.add_zero_density(
-        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), 1), Reference.make("Ivic", 1980),
+        literature, "24/(30 * x - 11)", Itvl(frac(155, 174), frac(17, 18)), Reference.make("Ivic", 1980),
     )
 add_zero_density_ivic_1980()
 
-- 
2.43.0


From 3b74d2bbe1b8490d13e9764880b182b718c042ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 52/58] fix: optimize_bourgain_large_value_estimate uses the
 current Polytope and Region API

---
 blueprint/src/python/derived.py      | 12 +++---------
 blueprint/src/python/large_values.py | 20 +++++++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index b4c9451..0e849ce 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -220,16 +220,10 @@ def prove_exponent_pairs():
 def prove_bourgain_large_values_theorem():
     
     start_time = time.time()
-    lv_hyps = lv.optimize_bourgain_large_value_estimate()
+    region = lv.optimize_bourgain_large_value_estimate()
     print("Computed in", time.time() - start_time, "s")
-    pieces = []
-    for lvh in lv_hyps:
-        pieces.extend(lvh.data.bound.pieces)
-    bound = Piecewise(pieces)
-    bound.plot_domain((1/2, 1), (1, 3))
-    
-    for lvh in lv_hyps:
-        print(lvh.data, lvh.proof)
+    print(region)
+    return region
 
 def prove_guth_maynard_large_values_theorem():
     """
diff --git a/blueprint/src/python/large_values.py b/blueprint/src/python/large_values.py
index ae2863f..98afb9b 100644
--- a/blueprint/src/python/large_values.py
+++ b/blueprint/src/python/large_values.py
@@ -264,8 +264,8 @@ def optimize_bourgain_large_value_estimate():
 
         # This is the region where a1 >= 0, a2 >= 0
         domain = Polytope([a1_defn, a2_defn]).lift(
-            0, 1, (0, Constants.LV_DEFAULT_UPPER_BOUND)
-        )
+            [0, 1, (0, Constants.LV_DEFAULT_UPPER_BOUND)]
+        ).intersect(box)
 
         if not domain.is_empty(include_boundary=False):
             # Hack to ensure uniqueness (using the fact that tuples are hashable)
@@ -277,18 +277,20 @@ def optimize_bourgain_large_value_estimate():
 
             # Compute feasible (sigma, tau, rho) region
             union = [
-                domain.intersect(Polytope([list(fn) + [-1]])) # Region where f(sigma, tau) - rho >= 0
+                domain.intersect(Polytope(
+                    [list(fn) + [-1]] +
+                    [[x - y for (x, y) in zip(fn, g)] + [0] for g in fns if g != fn]
+                ))
                 for fn in fns
             ]
+            union = [p for p in union if not p.is_empty(include_boundary=False)]
 
             # Deal with the unbounded region
-            neg = box.set_minus(domain)
-            if not neg.is_empty(include_boundary=False):
-                union.extend(neg)
+            union.extend(p for p in box.set_minus(domain) if not p.is_empty(include_boundary=False))
 
-            regions.append(Region.union(union))
+            regions.append(Region.disjoint_union([Region.from_polytope(p) for p in union]))
         else:
-            regions.append(box)
+            continue
 
         a1_proof = "a1 = " + Affine2.to_string(a1_defn, "st")
         a2_proof = "a2 = " + Affine2.to_string(a2_defn, "st")
@@ -296,7 +298,7 @@ def optimize_bourgain_large_value_estimate():
 
     # Compute intersection
     R = Region.intersect(regions)
-    R = R.to_disjoint_union()
+    R = R.as_disjoint_union()
 
     # TODO: implement dependency tracking
 
-- 
2.43.0


From f11e1103e666e021f445a093af228380d00ad703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 53/58] fix: variables of the region printed for the
 Guth-Maynard large values theorem

---
 blueprint/src/python/derived.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 0e849ce..a81424d 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -259,7 +259,7 @@ def prove_guth_maynard_large_values_theorem():
     # Simplify the region
     poly = Polytope.try_union([r.child for r in region.child])
 
-    print("Proved feasible region for (σ, τ, ρ):", poly.to_str("στρ"))
+    print("Proved feasible region for (σ, ρ) with τ = 6/5:", poly.to_str("σρ"))
 
 def prove_all_large_value_estimates():
     prove_bourgain_large_values_theorem()
-- 
2.43.0


From 8a5bf1ec9565ab7c61bf7a09a2d450542b257764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 54/58] fix: Heath-Brown energy derivations call
 lver_to_energy_bound with its current signature

---
 blueprint/src/python/derived.py | 110 +++-----------------------------
 1 file changed, 9 insertions(+), 101 deletions(-)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index a81424d..318815b 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -667,31 +667,7 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(0, 2, Interval(frac(1,2), frac(3,4)))
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional polytope
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
-
+    hs = ze.lver_to_energy_bound(hypotheses, tau0)
 
     # Part 2: \sigma \in [3/4, 25/28] ----------------------------------------------------------
 
@@ -711,75 +687,17 @@ def prove_heath_brown_energy_estimate():
 
     # tau_0 as an affine function 
     tau0 = Affine(4, -1, Interval(frac(3,4), frac(25,28)))
-
-    LVER_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-    
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False, debug=False)
-
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True, debug=False)
-    ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, tau0.domain)
+    hs.extend(ze.lver_to_energy_bound(hypotheses, tau0))
+    for h in hs: print(h.data)
+    return hs
 
 def prove_improved_heath_brown_energy_estimate():
-    
-    # tau_0 as a piecewise affine function 
-    tau0s = [
-        Affine(8, -4, Interval(frac(3,4), frac(4,5)))
-    ]
-
     hypotheses = Hypothesis_Set()
 
     for k in range(2, 5):
        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
 
     # Add classical and literature Large value estimates
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
-    hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
-
-    # Convert all large value estimates -> large value energy region
-    hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=False))
-
-    # Convert tau_0 into a Region of (sigma, tau)
-    # domain representing tau0 <= tau <= 2tau0
-    LVER_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-tau0.c, -tau0.m, 1],       # tau >= tau0 = m sigma + c
-                [2 * tau0.c, 2 * tau0.m, -1] # tau <= 2 tau0 = 2 m sigma + 2 c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV*(s, t) as a 3-dimensional 
-    # polytope for a range of sigma
-    LV_star_hyp = ad.compute_LV_star(hypotheses, LVER_domain, zeta=False)
-    
-    # New set of hypothesis for the zeta LVER computation
-    hypotheses = Hypothesis_Set()
-
-    for k in range(2, 3):
-        hypotheses.add_hypothesis(ad.get_raise_to_power_hypothesis(k))
-
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Huxley large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(hypothesis_type="Zeta large value estimate"))
     hypotheses.add_hypothesis(literature.find_hypothesis(keywords="Heath-Brown large value energy region 2a"))
@@ -789,21 +707,11 @@ def prove_improved_heath_brown_energy_estimate():
     # Convert all zeta large value estimates -> zeta large value energy region
     hypotheses.add_hypotheses(ad.lv_to_lver(hypotheses, zeta=True))
 
-    # domain representing 2 <= tau <= tau0
-    LVER_zeta_domain = Region.disjoint_union([
-        Region.from_polytope(
-            Polytope([
-                [-tau0.domain.x0, 1, 0],     # sigma >= sigma_interval.x0
-                [tau0.domain.x1, -1, 0],     # sigma <= sigma_interval.x1
-                [-2, 0, 1],                     # tau0 >= 2
-                [tau0.c, tau0.m, -1],           # tau <= tau0 = m sigma + c
-            ])
-        )
-        for tau0 in tau0s
-    ])
-    # Compute the feasible region for LV_{\zeta}*(s, t) as a 3-dimensional polytope
-    LVZ_star_hyp = ad.compute_LV_star(hypotheses, LVER_zeta_domain, zeta=True)
-    bounds = ze.lver_to_energy_bound(LV_star_hyp, LVZ_star_hyp, Interval(frac(1,2), 1))
+    # tau_0 = 8\sigma - 4
+    tau0 = Affine(8, -4, Interval(frac(3,4), frac(5,6)))
+    hs = ze.lver_to_energy_bound(hypotheses, tau0)
+    for h in hs: print(h.data)
+    return hs
 
 def prove_zero_density_energy_2():
     hypotheses = Hypothesis_Set()
-- 
2.43.0


From 79e490c06147f59d5f84be1d88e27e45ff02c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 55/58] fix: the improved Bourgain zero density estimate needs
 the Jutila estimate with k = 4

---
 blueprint/src/python/derived.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueprint/src/python/derived.py b/blueprint/src/python/derived.py
index 318815b..2acd8be 100644
--- a/blueprint/src/python/derived.py
+++ b/blueprint/src/python/derived.py
@@ -605,6 +605,9 @@ def prove_zero_density_bourgain_improved(verbose=True):
         literature.find_hypothesis(
             hypothesis_type="Large value estimate", keywords="Jutila, k = 3"
         ),
+        literature.find_hypothesis(
+            hypothesis_type="Large value estimate", keywords="Jutila, k = 4"
+        ),
         literature.find_hypothesis(
             hypothesis_type="Zeta large value estimate", keywords="Heath-Brown"
         )
-- 
2.43.0


From 272c3afb6a8aa0ae1fe197471b600235f4bc2343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 56/58] fix: prime gap bound uses the best admissible upper
 bound of A, which proves the published 19/15

---
 blueprint/src/python/prime_gap.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/blueprint/src/python/prime_gap.py b/blueprint/src/python/prime_gap.py
index 042006c..97d20ef 100644
--- a/blueprint/src/python/prime_gap.py
+++ b/blueprint/src/python/prime_gap.py
@@ -39,6 +39,9 @@ def compute_gap2(hypotheses, debug=False):
 
     x = RF.x
 
+    # Any upper bound on A(x) may be used. The maximum of alpha and beta is increasing in A 
+    # for A >= B / 3 and decreasing for A <= B / 3, so that the best choice is max(A, B / 3)
+    cases = []
     for i in range(1, len(crits)):
         interval = Interval(crits[i - 1], crits[i])
         mid = interval.midpoint()
@@ -51,6 +54,14 @@ def compute_gap2(hypotheses, debug=False):
         A = zdh.data.bound.num / zdh.data.bound.den
         B = zeh.data.bound.num / zeh.data.bound.den
 
+        pts = [p for p in SympyHelper.real_solutions(A - B / 3) if interval.x0 < p < interval.x1]
+        pts = [interval.x0] + sorted(set(pts)) + [interval.x1]
+        for x0, x1 in zip(pts, pts[1:]):
+            piece = Interval(x0, x1)
+            larger = (B / 3 - A).subs(x, piece.midpoint()) > 0
+            cases.append((piece, B / 3 if larger else A, B))
+
+    for (interval, A, B) in cases:
         alpha = 4 * x - 2 + 2 * (B * (1 - x) - 1) / (B - A)
         beta = 4 * x - 2 + (B * (1 - x) - 1) / A
 
-- 
2.43.0


From 4c8d680cfc48caf8c05d3bbaa278b17f1d46889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:47 +0000
Subject: [PATCH 57/58] fix: an exponent pair obtained from bounds on beta did
 not cite the bounds inside the hull which it needs

---
 blueprint/src/python/exponent_pair.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/blueprint/src/python/exponent_pair.py b/blueprint/src/python/exponent_pair.py
index 066d1d5..8eaae7d 100644
--- a/blueprint/src/python/exponent_pair.py
+++ b/blueprint/src/python/exponent_pair.py
@@ -212,19 +212,10 @@ def beta_bounds_to_exponent_pairs(
     # Compute the convex hull containing the \beta bounds
     conv = ConvexHull(np.array(points))
 
-    # Precompute the dependencies. Currently every beta bound that is on the boundary
-    # of the convex hull is included in the dependencies for every exponent pair
-    dep_indices = set()
-    for v in conv.vertices:
-        if v >= 2:  # skip the placeholder vertices:
-            p = points[v]
-            for i in range(len(beta_bound)):
-                f = beta_bound[i].data.bound
-                if (f.domain.x0 == p[0] and f.at(p[0], extend_domain=True) == p[1]) or (
-                    f.domain.x1 == p[0] and f.at(p[0], extend_domain=True) == p[1]
-                ):
-                    dep_indices.add(i)
-    dependencies = [beta_bound[i] for i in dep_indices]
+    # Precompute the dependencies. An exponent pair requires a bound on beta at every point of 
+    # [0, 1/2], so all pieces are included in the dependencies for every exponent pair (also 
+    # those which do not touch the boundary of the convex hull)
+    dependencies = beta_bound
     # Keep track of the existing set of exponent pairs,
     known_ephs = hypothesis_set.list_hypotheses("Exponent pair")
     known_eps = {(p.data.k, p.data.l):p for p in known_ephs}
-- 
2.43.0


From b4748d9d7c4025daf4b114909e3aa2319fb810f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:29 +0000
Subject: [PATCH 58/58] fix: a bibliography entry was cut off at an @ inside
 one of its fields

---
 blueprint/src/python/reference.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueprint/src/python/reference.py b/blueprint/src/python/reference.py
index 12cc84b..6d65bb5 100644
--- a/blueprint/src/python/reference.py
+++ b/blueprint/src/python/reference.py
@@ -80,7 +80,13 @@ class Reference_Manager:
 
         # parse file
         s = " ".join(l.strip() for l in lines)
-        items = s.split("@")
+        items = []
+        for item in s.split("@"):
+            # A field may contain @, an entry ends with its closing brace
+            if len(items) > 0 and items[-1].count("{") > items[-1].count("}"):
+                items[-1] += "@" + item
+            else:
+                items.append(item)
 
         for item in items:
             if len(item) == 0:
-- 
2.43.0

