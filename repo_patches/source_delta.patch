From b8e399e5c4ae189d08fa8ea1ec64371d2da30969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 01/39] fix: asin(0), acos(0) and atan(0) raised ValueError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..b009944 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1976,7 +1976,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -1989,7 +1989,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2002,7 +2002,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From 46ada6e74ed7063b5b6b5b4fc7a4a1abf132011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 02/39] fix: evalf of csc, sec and cot raised TypeError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b009944..d95c7b4 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1928,7 +1928,7 @@ class tan(TrigFunctionNotInverse):
 
 class csc(TrigFunctionNotInverse):
     func = "csc"
-    _func = lambda x: 1 / math.sin(x)
+    _func = staticmethod(lambda x: 1 / math.sin(x))
     reciprocal_class = sin
 
     @classproperty
@@ -1941,7 +1941,7 @@ class csc(TrigFunctionNotInverse):
 
 class sec(TrigFunctionNotInverse):
     func = "sec"
-    _func = lambda x: 1 / math.cos(x)
+    _func = staticmethod(lambda x: 1 / math.cos(x))
     reciprocal_class = cos
 
     @classproperty
@@ -1955,7 +1955,7 @@ class sec(TrigFunctionNotInverse):
 class cot(TrigFunctionNotInverse):
     reciprocal_class = tan
     func = "cot"
-    _func = lambda x: 1 / math.tan(x)
+    _func = staticmethod(lambda x: 1 / math.tan(x))
     _period = 1
 
     @classproperty
-- 
2.43.0


From 56717e7a6077cd6f083f1967dda3185d8dc9f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 03/39] fix: evalf with substitutions for symbols raised
 TypeError

---
 src/simpy/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d95c7b4..e33937f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -794,7 +794,9 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        if self.name not in subs:
+            return self
+        return subs[self.name].evalf()
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From fa8d56fc4aefeb3bf619760410dd5a0ed79b24e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 04/39] fix: the base of a log was ignored by diff, evalf,
 expand and expand_logs, and broke repr

---
 src/simpy/expr.py              | 14 ++++++++++----
 src/simpy/simplify/simplify.py | 17 +++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e33937f..9d83f57 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1558,7 +1558,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
@@ -1572,8 +1572,10 @@ class log(Expr):
         return log(inner, base)
 
     def _expand(self) -> Expr:
-        assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        assert self.expandable(), f"Cannot expand {self}"
+        inner = self.inner.expand() if self.inner.expandable() else self.inner
+        base = self.base.expand() if self.base.expandable() else self.base
+        return self.__class__(inner, base)
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
@@ -1612,12 +1614,16 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
+        if self.base != e:
+            return (log(self.inner) / log(self.base)).diff(var)
         return self.inner.diff(var) / self.inner
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..3f9039d 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -33,29 +33,30 @@ def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
     inner = expr.inner
+    log_ = lambda x: log(x, expr.base)
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log_(inner.base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return Sum([log_(t) for t in inner.terms])
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return Sum([log_(t) for t in inner.factor().terms])
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log_(inner.reciprocal_class(inner.inner))
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log_(abs(inner.inner.base)) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return Sum([log_(abs(term)) for term in inner.inner.terms])
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return Sum([log_(abs(term)) for term in inner.inner.factor().terms])
 
-    return log(inner)
+    return log_(inner)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From a6fb58be9761ceb27839c1ab4038ce993a1020bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 05/39] fix: derivative of an absolute value had the wrong sign
 where the inner expression is negative

---
 src/simpy/expr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9d83f57..03afa91 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1616,7 +1616,9 @@ class log(Expr):
     def diff(self, var) -> Expr:
         if self.base != e:
             return (log(self.inner) / log(self.base)).diff(var)
-        return self.inner.diff(var) / self.inner
+        # (ln|u|)' = (ln(u))' = u' / u
+        inner = self.inner.inner if isinstance(self.inner, Abs) else self.inner
+        return inner.diff(var) / inner
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
@@ -2045,8 +2047,8 @@ class Abs(SingleFunc):
         return super().__new__(cls)
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        # |u|' = u' * sign(u)
+        return self.inner.diff(var) * self.inner / self
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From 87363e22fdde09b8ea64d8ae04efdfab2cc48054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 06/39] fix: roots of large integers were taken through inexact
 floats

---
 src/simpy/expr.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 03afa91..8f1ad04 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -729,6 +729,23 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _exact_int_power(n: int, x: Fraction) -> Optional[int]:
+    """Returns n^x if it is an integer, None otherwise. Doesn't go through floats, which are not exact. x must be positive."""
+    if x.denominator == 1:
+        return n**x.numerator
+    if n <= 0:
+        return 0 if n == 0 else None
+    # integer root by bisection
+    low, high = 1, 1 << (n.bit_length() // x.denominator + 1)
+    while low < high:
+        mid = (low + high + 1) // 2
+        if mid**x.denominator <= n:
+            low = mid
+        else:
+            high = mid - 1
+    return low**x.numerator if low**x.denominator == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -743,14 +760,13 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
-        if isint(num) and isint(den):
+        num = _exact_int_power(b.value.numerator, abs(x.value))
+        den = _exact_int_power(b.value.denominator, abs(x.value))
+        if num is not None and den is not None:
             if x > 0:
-                return Rat(int(num), int(den))
+                return Rat(num, den)
             else:
-                return Rat(int(den), int(num))
+                return Rat(den, num)
 
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
@@ -765,9 +781,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             return -1 * Power(-b, x)
 
         ans = None
-        if isint(num) and num != 1:
+        if num is not None and num != 1:
             ans = Prod([Rat(num), Power(b.denominator, -x, skip_checks=True)], skip_checks=True)
-        elif isint(den) and den != 1:
+        elif den is not None and den != 1:
             ans = Prod([Rat(1, den), Power(b.numerator, x, skip_checks=True)], skip_checks=True)
         if ans:
             if x > 0:
-- 
2.43.0


From 99813589995b4ea71a031cc907fb5e523ea28d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 07/39] fix: infinities had no caches, so nesting() of them
 raised TypeError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8f1ad04..654d885 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -656,7 +656,7 @@ class Infinity(Num, Expr):
     value = float("inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "\\infty"
@@ -675,7 +675,7 @@ class NegInfinity(Num, Expr):
     value = float("-inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "-\\infty"
@@ -694,7 +694,7 @@ class NaN(Num, Expr):
     value = float("NaN")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self):
         return NotImplemented
-- 
2.43.0


From 5430043dcdbb17fadb391d7b4aa2979275e06318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 08/39] fix: equality of e and its float value depended on the
 order of the operands

---
 src/simpy/expr.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 654d885..a1bf398 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -648,9 +648,6 @@ class E(Num, Expr):
     def latex(self) -> str:
         return "e"
 
-    def __eq__(self, other) -> bool:
-        return isinstance(other, E)
-
 
 class Infinity(Num, Expr):
     value = float("inf")
-- 
2.43.0


From 327e2c0c4f7de6326e980f7364f2ff28698c0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 09/39] fix: trig substitution kept |cos| and |sec| on the
 ranges where they are positive, and relied on the wrong derivative of abs

---
 src/simpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..ac906f6 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -510,6 +510,9 @@ class InverseTrigUSub(USub):
         # that on right now
         second_transform = Simplify()
         if second_transform.check(new_node):
+            # cos and sec are positive on the ranges of asin and atan
+            for positive in cos(intermediate), sec(intermediate):
+                second_transform._ans = replace(second_transform._ans, abs(positive), positive)
             second_transform.forward(new_node)
 
     def check(self, node: Node) -> bool:
-- 
2.43.0


From 5103d51609873dc3da35f609656c5ab3a49ef5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 10/39] fix: integrating by parts twice divided by zero when
 the second time undid the first

---
 src/simpy/transforms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index ac906f6..c57cd6d 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -741,6 +741,15 @@ class ByParts(Transform):
         old_byparts_integrands = [node.expr for node in byparts_parents]
         if integrand2 in old_byparts_integrands:
             return False
+
+        # if doing byparts twice just undoes itself (special case in forward with factor = 1), you'd get
+        # 0 * integral(parent.expr) = something, which is invalid too.
+        parent_byparts = ByParts._get_last_byparts_parent(node)
+        if parent_byparts:
+            second_factor = integrand2 / parent_byparts.expr
+            if not second_factor.contains(node.var):
+                if ByParts._get_first_factor(parent_byparts, node) * second_factor == 1:
+                    return False
         return True
 
     def __init__(self):
-- 
2.43.0


From f5c524e11f41968516fc4dec323772afc666f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 11/39] fix: a circular child was dropped from the tree, so AND
 nodes could be solved without it and give a wrong integral

---
 src/simpy/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index c57cd6d..433e0a0 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -82,7 +82,9 @@ class Node:
         if not child.is_filler:
             parents = _parents(self)
             if any(eq_with_var((p.expr, p.var), (child.expr, child.var)) for p in parents):
-                return
+                # Going in circles. The child is a dead end, but it still has to be a part of the tree -- if we
+                # dropped it, an AND node would look like it's solved by the rest of its children.
+                child.type = "FAILURE"
         self.children.append(child)
 
     def add_children(self, children: List["Node"]) -> None:
-- 
2.43.0


From d9cd8c60f0bfbb9d1432eaca877aad5ba796b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 12/39] fix: partial fractions crashed unless both factors of
 the denominator are linear

---
 src/simpy/transforms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 433e0a0..dc5ec3a 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -926,8 +926,14 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            return False
+        # and that both of them are linear.
+        if len(d1_list) != 2 or len(d2_list) != 2:
+            return False
 
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
-- 
2.43.0


From e6f068406065725759317a567ad96d5e5e596706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 13/39] fix: completing the square of a perfect square divided
 by zero

---
 src/simpy/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index dc5ec3a..212be1f 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -1010,10 +1010,11 @@ class CompleteTheSquare(Transform):
 
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
-            return poly.size == 3 and poly[1] != 0
             # poly[1] = 0 implies that there's no bx term
             # which means that there's no square to complete.
             # the result will just be the same as the original.
+            # a discriminant of 0 means that it's already a square, with no constant left over.
+            return poly.size == 3 and poly[1] != 0 and poly[1] ** 2 - 4 * poly[0] * poly[2] != 0
 
         return general_contains(node.expr, condition)
 
@@ -1024,7 +1025,7 @@ class CompleteTheSquare(Transform):
                 poly = to_const_polynomial(expr, node.var)
             except AssertionError:
                 return False
-            return poly.size == 3
+            return poly.size == 3 and poly[1] ** 2 - 4 * poly[0] * poly[2] != 0
 
         def perform(expr: Expr) -> Expr:
             poly = to_const_polynomial(expr, node.var)
-- 
2.43.0


From b9d71d18eb3baa7d8379717292d55773208f39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 14/39] fix: product_to_sum dropped the factors that aren't
 powers

---
 src/simpy/simplify/product_to_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..5b9e174 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,7 +73,7 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
             return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
 
         return _perform_on_terms(
-- 
2.43.0


From 8c0349ef022fc02b0ea50ac4a212d90c687d4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 15/39] fix: eq_with_var confused the variable of the second
 expression with a free symbol of the first

---
 src/simpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/utils.py b/src/simpy/utils.py
index 5308dd3..cee5077 100644
--- a/src/simpy/utils.py
+++ b/src/simpy/utils.py
@@ -32,7 +32,7 @@ def eq_with_var(a: Tuple[Expr, Symbol], b: Tuple[Expr, Symbol]) -> bool:
         if isinstance(e1, Symbol):
             if e1 == a_var:
                 return e2 == b_var
-            return e1 == e2
+            return e1 == e2 and e2 != b_var
         c1 = e1.children()
         c2 = e2.children()
         if c1 == [] or c2 == []:
-- 
2.43.0


From ce184ed7a1b0a24ecf15e60b9f4945e30204066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 16/39] fix: simplify crashed on sums with even powers of both
 sec and tan

---
 src/simpy/simplify/simplify.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 3f9039d..71822fe 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -343,16 +343,15 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
-        tans.extend(new.terms)
+        new = new.expand() if new.expandable() else new
+        tans.extend(new.terms if isinstance(new, Sum) else [new])
 
     new_sum = Sum(tans + others)
     if not isinstance(new_sum, Sum):
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From 7a09781310243fc2bbc1a8a5330e06d4af10cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 17/39] fix: log() changed the existing log that it returned

---
 src/simpy/expr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a1bf398..802ee78 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1604,8 +1604,11 @@ class log(Expr):
 
     @cast
     def __new__(cls, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
         if skip_checks:
-            super().__new__(cls)
+            return instance
 
         if inner == 1:
             return Rat(0)
@@ -1619,11 +1622,10 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
+        # The fields are set by `__new__`: it may return an existing log, which must not be changed.
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-- 
2.43.0


From ef7ea320a33c6bb96771db69dbe4d0225c5778d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 18/39] fix: Float lacked the attributes that __post_init__
 sets, abs() of an expression with a Float crashed

---
 src/simpy/expr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 802ee78..197208e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -479,6 +479,7 @@ class Float(Num, Expr):
 
     def __init__(self, value):
         self.value = value
+        super().__post_init__()
 
     def latex(self):
         return repr(self)
-- 
2.43.0


From 49550928fc2e404238818b0dc83de85c70635074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 19/39] fix: the derivative of the constants asin(1), asin(-1),
 acos(1), acos(-1) was nan

---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 197208e..bacacb9 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1998,6 +1998,8 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
+        if not self.inner.contains(var):
+            return Rat(0)  # also at the end points, where 1 / sqrt(1 - inner**2) has no value
         return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
@@ -2011,6 +2013,8 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
+        if not self.inner.contains(var):
+            return Rat(0)  # also at the end points, where 1 / sqrt(1 - inner**2) has no value
         return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
-- 
2.43.0


From d0cdfa9ad2428db9cd8e05b1235ef9b29157e102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 20/39] fix: expand left a power of a sum when a minus sign
 came out of the expanded base

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index bacacb9..3201f1e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1486,7 +1486,8 @@ class Power(Expr):
         x = self.exponent.expand() if self.exponent.expandable() else self.exponent
         new = Power(b, x)
         if not isinstance(new, Power) or not new._power_expandable():
-            return new
+            # e.g. the minus sign of the expanded base has been moved out: (-a - b)^3 = -(a + b)^3
+            return new.expand() if isinstance(new, Prod) and new.expandable() else new
 
         expanded = []
         n = abs(new.exponent.value.numerator)
-- 
2.43.0


From 7695e6bfdb8a4b27c18d2872f9c39920808b4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 21/39] fix: factor crashed on sums with Float coefficients

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 3201f1e..393ac0d 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1016,7 +1016,7 @@ class Sum(Associative, Expr):
         for c in coeffs[1:]:
             x: Rat = c / common_coeff
             y: Rat = common_coeff / c
-            if x.value.denominator == 1 or y.value.denominator == 1:
+            if x.is_int or y.is_int:
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
                 common_coeff = None
-- 
2.43.0


From 700e3ddd578a3ab3b2cc11f950710cf9c4b89391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 22/39] fix: integration by parts twice with several pulled-out
 or symbolic constants

---
 src/simpy/transforms.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 212be1f..c7438fd 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -36,6 +36,7 @@ from .polynomial import Polynomial, is_polynomial, polynomial_to_expr, rid_endin
 from .regex import count, general_contains, replace, replace_class, replace_factory
 from .simplify import pythagorean_simplification
 from .simplify.product_to_sum import product_to_sum_unit
+from .simplify.simplify import rewrite_as_one_fraction
 from .utils import ExprFn, eq_with_var, random_id
 
 Number_ = Union[Fraction, int]
@@ -734,7 +735,7 @@ class ByParts(Transform):
         # which is invalid
         integrand2 = du * v * -1
         factor = integrand2 / node.expr
-        if factor == 1:
+        if ByParts._is_one(factor):
             return False
 
         # check for more layers above -- if any of the integrands is the same, factor = 1 and it's a nogo.
@@ -749,11 +750,20 @@ class ByParts(Transform):
         parent_byparts = ByParts._get_last_byparts_parent(node)
         if parent_byparts:
             second_factor = integrand2 / parent_byparts.expr
-            if not second_factor.contains(node.var):
-                if ByParts._get_first_factor(parent_byparts, node) * second_factor == 1:
+            first_factor = ByParts._get_first_factor(parent_byparts, node)
+            if first_factor is not None and not second_factor.contains(node.var):
+                if ByParts._is_one(first_factor * second_factor):
                     return False
         return True
 
+    @staticmethod
+    def _is_one(factor: Expr) -> bool:
+        # symbolic constants can hide it: -(-y - 1)/(y + 1)
+        diff = 1 - factor
+        if isinstance(diff, Sum):
+            diff = rewrite_as_one_fraction(diff)
+        return diff == 0
+
     def __init__(self):
         self._stuff = []
 
@@ -794,12 +804,17 @@ class ByParts(Transform):
         return _check(a, b) or _check(b, a)
 
     @staticmethod
-    def _get_first_factor(parent_byparts: Node, node: Node) -> Expr:
-        if parent_byparts.children[1] == node:
-            return Rat(1)
-        elif isinstance(node.transform, PullConstant) and parent_byparts.children[1].child == node:
-            return node.transform._constant
-        raise ValueError
+    def _get_first_factor(parent_byparts: Node, node: Node) -> Optional[Expr]:
+        """The constants that were pulled out between integrating by parts and node.
+        None if node is only one of the terms of the integral that was left over.
+        """
+        factor = Rat(1)
+        while node is not parent_byparts.children[1]:
+            if not isinstance(node.transform, PullConstant):
+                return None
+            factor *= node.transform._constant
+            node = node.parent
+        return factor
 
     def forward(self, node: Node) -> None:
         # This is tricky bc you have 2 layers of children here.
@@ -835,8 +850,8 @@ class ByParts(Transform):
             parent_byparts = self._get_last_byparts_parent(node)
             if parent_byparts:
                 second_factor = integrand2 / parent_byparts.expr
-                if not second_factor.contains(node.var):
-                    first_factor = self._get_first_factor(parent_byparts, node)
+                first_factor = self._get_first_factor(parent_byparts, node)
+                if first_factor is not None and not second_factor.contains(node.var):
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
                     other_uv.solution /= 1 - factor  # mutating is sus
-- 
2.43.0


From 7ef44c69988d7c886731542cc7cfe31a4ea74bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 23/39] fix: sign of the root in substitutions u = sin(x), u =
 cos(x)

---
 src/simpy/transforms.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index c7438fd..092f683 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -409,6 +409,28 @@ class TrigUSub2(USub):
 
         self._u = cls(node.var)
 
+    def backward(self, node: Node) -> None:
+        super().backward(node)
+        if self._key not in ("sin", "cos"):
+            return
+
+        # The sqrt(1 - u^2) of dx stands for the other function, also where that one is negative.
+        other = (cos if self._key == "sin" else sin)(node.parent.var)
+        base = 1 - self._u**2
+
+        def condition(expr: Expr) -> bool:
+            return (
+                isinstance(expr, Power)
+                and expr.base == base
+                and isinstance(expr.exponent, Rat)
+                and expr.exponent.value.denominator == 2
+            )
+
+        def perform(expr: Expr) -> Expr:
+            return other ** (expr.exponent * 2)
+
+        node.parent.solution = replace_factory(condition, perform)(node.parent.solution)
+
     def check(self, node: Node) -> bool:
         if super().check(node) is False:
             return False
-- 
2.43.0


From 5211c575dfab449eed256849cdd4026f9fecb64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 24/39] fix: safe transforms were applied to the filler nodes
 of an integration by parts

---
 src/simpy/integration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 11c634b..5334c8f 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -301,7 +301,8 @@ def _integrate_safely(node: Node):
     """Applies all possible safe transforms to a node..
     If a safe transform is applied, we keep applying safe transforms to the new children.
     """
-    for transform in SAFE_TRANSFORMS:
+    # The expr of a filler is a copy of its parent's. It's not to be integrated, only its children are.
+    for transform in SAFE_TRANSFORMS if not node.is_filler else []:
         tr = transform()
         if tr.check(node):
             tr.forward(node)
-- 
2.43.0


From fd73960e5131413e773e890de0da4d9456c65b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:02 +0000
Subject: [PATCH 25/39] fix: powers of linear expressions in the denominator
 were expanded and then not integrated

---
 src/simpy/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 092f683..0f4e3be 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -330,6 +330,11 @@ class Expand(SafeTransform):
         if isinstance(t, CompleteTheSquare):
             return False
 
+        # A power in a denominator is easier to integrate the way it is: (x+1)^-2 takes a linear
+        # u-substitution, while the expanded 1/(x^2+2x+1) can't be solved.
+        if isinstance(node.expr, Power) and isinstance(node.expr.exponent, Rat) and node.expr.exponent < 0:
+            return False
+
         return node.expr.expandable()
 
     def backward(self, node: Node) -> None:
-- 
2.43.0


From 2e8f316530897a6f20d85aefecb2222ffe4b1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 26/39] fix: a node that a heuristic has simplified takes no
 second, safe child

InverseTrigUSub gives its new node a simplified child; the safe transforms then
added an alternative to the same node, and the node failed as soon as one failed.
---
 src/simpy/integration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 5334c8f..210231f 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -302,7 +302,9 @@ def _integrate_safely(node: Node):
     If a safe transform is applied, we keep applying safe transforms to the new children.
     """
     # The expr of a filler is a copy of its parent's. It's not to be integrated, only its children are.
-    for transform in SAFE_TRANSFORMS if not node.is_filler else []:
+    # A heuristic may have transformed its new node already (InverseTrigUSub simplifies). A second child would
+    # have to be solved as well.
+    for transform in SAFE_TRANSFORMS if not node.is_filler and not node.children else []:
         tr = transform()
         if tr.check(node):
             tr.forward(node)
-- 
2.43.0


From b6b52d3385379a84a52a681dd9c0453d2dc18d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 27/39] fix: x^(1/y) was printed as x^1/y

---
 src/simpy/expr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 393ac0d..b7cbf12 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1370,6 +1370,9 @@ class Power(Expr):
         def _term_repr(term):
             if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
                 return "(" + repr(term) + ")"
+            # powers that are printed as a reciprocal, 1/...
+            if isinstance(term, Power) and isinstance(term.exponent, (Rat, Float)) and term.exponent < 0:
+                return "(" + repr(term) + ")"
             return repr(term)
 
         # represent negative powers as reciprocals
-- 
2.43.0


From bb59a874239965d5b647644a5e4739e7df2ef668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 28/39] fix: functions of products of sums were printed without
 their brackets, sin(x + 1)*(y + 2)

---
 src/simpy/expr.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b7cbf12..9260721 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1560,10 +1560,7 @@ class SingleFunc(Expr):
 
 
 def _repr(inner: Expr, label: str) -> str:
-    inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
-        return f"{label}{inner_repr}"
-    return f"{label}({inner_repr})"
+    return f"{label}({inner.__repr__()})"
 
 
 @dataclass
-- 
2.43.0


From a17a338263fe22a335303ba71f3950778285769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:46 +0000
Subject: [PATCH 29/39] fix: printing products of a negative number and a power
 of -1 raised exceptions

---
 src/simpy/expr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9260721..0222859 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1209,9 +1209,8 @@ class Prod(Associative, Expr):
             if not isinstance(new_prod, Prod):
                 return f"-{_term_repr(new_prod)}"
             if new_prod.is_subtraction:
-                from .debug.utils import debug_repr
-
-                raise ValueError(f"Cannot get repr of {debug_repr(self)}")
+                # the -1 went into the exponent of a power of -1
+                new_prod = Prod([-self.terms[0]] + self.terms[1:], skip_checks=True)
             return "-" + new_prod.__repr__()
 
         numerator, denominator = self.numerator_denominator
@@ -1240,6 +1239,9 @@ class Prod(Associative, Expr):
             new = self * -1
             if not isinstance(new, Prod):
                 return "-" + _term_latex(new)
+            if new.is_subtraction:
+                # the -1 went into the exponent of a power of -1
+                new = Prod([-self.terms[0]] + self.terms[1:], skip_checks=True)
             return "-" + new.latex()
 
         numerator, denominator = self.numerator_denominator
-- 
2.43.0


From 9971a785901a7974f7be5847e3225c0146e40fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 30/39] fix: sin(2*pi - x) and the like were left with the sign
 in their argument

---
 src/simpy/expr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0222859..d48a96f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1783,9 +1783,7 @@ class TrigFunction(SingleFunc, ABC):
                     if t.has(Pi):
                         coeff = t / pi
                         if isinstance(coeff, Rat) and coeff % cls._period == 0:
-                            instance = super().__new__(cls)
-                            instance.inner = inner - t
-                            return instance
+                            return cls(inner - t)
 
         # 2. Check if inner is trigfunction
         # things like sin(cos(x)) cannot be more simplified.
-- 
2.43.0


From f25ad5f7fa6ae52cf65beeced966071888b0042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:38 +0000
Subject: [PATCH 31/39] fix: matching up to a sum looked at the names of the
 terms instead of their matches

---
 src/simpy/regex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..5092109 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -213,7 +213,11 @@ class Eq:
                     for expr_term in expr.terms:
                         output = Eq(expr_term, query_term, decompose_singles=False)()
                         is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y) for y in query_matches.values()):
+                        if is_eq and all(
+                            any(_matches_eq(x, anyfinds) for x in y.values())
+                            for k, y in query_matches.items()
+                            if k != repr(query_term)
+                        ):
                             query_matches[repr(query_term)][repr(expr_term)] = anyfinds
 
                     if len(query_matches[repr(query_term)]) == 0:
-- 
2.43.0


From fe05de9c221e031d05447feff80dfe358c5379ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 32/39] fix: diff() required the variable it says may be
 omitted, and returned its error

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d48a96f..7d4e4f9 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2096,7 +2096,7 @@ def symbols(symbols: str) -> Union[Symbol, List[Symbol]]:
 
 
 @cast
-def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
+def diff(expr: Expr, var: Optional[Symbol] = None) -> Expr:
     """Takes the derivative of expr relative to var. If expr has only one symbol in it, var doesn't need to be specified."""
     if not hasattr(expr, "diff"):
         raise NotImplementedError(f"Differentiation of {expr} not implemented")
@@ -2104,7 +2104,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From 1aa4a412d5762cac859ccb3ba2419290820f0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:51 +0000
Subject: [PATCH 33/39] fix: simpy.latex was replaced by the submodule of that
 name once something had been printed

---
 src/simpy/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simpy/__init__.py b/src/simpy/__init__.py
index d6dcff2..d3eabcd 100644
--- a/src/simpy/__init__.py
+++ b/src/simpy/__init__.py
@@ -1,2 +1,4 @@
+# The submodule has to be loaded first: loading it later would replace the function of the same name.
+from . import latex as _latex_module  # isort: skip
 from .expr import Rat, acos, asin, atan, cos, cot, csc, diff, e, latex, log, pi, sec, sin, sqrt, symbols, tan
 from .integration import integrate
-- 
2.43.0


From c04cd86670833d97f9e967f7ddb740ed8e945cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:30 +0000
Subject: [PATCH 34/39] fix: LinearUSub substitutes every occurrence of the
 variable when u = ax is found before (ax)^n

---
 src/simpy/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 0f4e3be..688227c 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -666,8 +666,8 @@ class LinearUSub(USub):
             result = _is_a_linear_sum_or_prod(e)
             if result is not None:
                 u, u_inverse = result
-                if self._u is not None:
-                    return u == self._u
+                if self._u is not None and u != self._u:
+                    return False
                 self._u = u
 
                 # If u_inverse exists, set it.
-- 
2.43.0


From acd19c170b03ec5aee79e3c29de2c5c1126e38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 35/39] fix: pythagorean simplification dropped the squares of
 terms that hold both a sine and a cosine

---
 src/simpy/simplify/simplify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 71822fe..2767fe7 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -106,7 +106,8 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
 
     both_inners = sin_cos_condition(sum)
     if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
+        # a term may have both, as in sin^2(x)*cos^2(y)
+        new_terms = [t for t in sum.terms if not any(is_thing_squared(t, cls) in both_inners for cls in (sin, cos))]
         new_terms += [el[1] for el in both_inners]
         return Sum(new_terms)
 
-- 
2.43.0


From 361426fa045a5143ae56e8efedf4982a8a85f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:54 +0000
Subject: [PATCH 36/39] fix: roots of rationals beyond the range of floats
 raised OverflowError

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 7d4e4f9..17e4c10 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -575,7 +575,8 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
+        # not for fractional exponents: these go through floats, which overflow
+        if isinstance(other, Rat) and other.is_int:
             value = self.value**other.value
             if isinstance(value, Fraction):
                 return Rat(value)
-- 
2.43.0


From 74cfb78eeff3cd4f1c6d010217b2af8c88e9bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:40 +0000
Subject: [PATCH 37/39] fix: negative floats as bases of powers were printed
 without brackets

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 17e4c10..c2fa722 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1093,7 +1093,7 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: isinstance(x, Rat) and x.value.denominator != 1 or isinstance(x, (Rat, Float)) and x < 0
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
-- 
2.43.0


From 36dfe9762f2028c1d4f092fa71565af01d94eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:28 +0000
Subject: [PATCH 38/39] fix: integrate raised NotImplementedError for products
 with x^x instead of returning None

---
 src/simpy/transforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 688227c..be8222e 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -816,7 +816,11 @@ class ByParts(Transform):
         def _check(u: Expr, dv: Expr) -> bool:
             if is_polynomial(dv, node.var):
                 return False
-            du = u.diff(node.var)
+            try:
+                du = u.diff(node.var)
+            except NotImplementedError:
+                # the variable in both the base and the exponent of a power
+                return False
             v = self._integrate_dv_check(dv, node.var)
             if v is None:
                 return False
-- 
2.43.0


From 88e6da036646d5c2fb47bdf41b7d2f7bd0f0c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:10 +0000
Subject: [PATCH 39/39] fix: definite integrals were nan where only the
 unsimplified antiderivative has no value at a bound

---
 src/simpy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 210231f..e5b6ba4 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -122,7 +122,7 @@ class Integration:
     def integrate_bounds(self, expr: Expr, bounds: Tuple[Symbol, Expr, Expr]) -> Optional[Expr]:
         """Performs definite integral."""
         x, a, b = bounds
-        integral = self.integrate(expr, bounds[0], final=False)
+        integral = self.integrate(expr, bounds[0])
         if integral is None:
             return None
         return (integral.subs({x.name: b}) - integral.subs({x.name: a})).simplify()
-- 
2.43.0

