From 491fb34c261a6756e06cf171f346d4c59135e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:01 +0000
Subject: [PATCH 01/97] fix: keep the product of the constant terms when
 distributing multiplication over addition

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8b864ea..aca5deb 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -789,7 +789,7 @@ class RingAlgebraAddLike(RingAlgebra):
         pos += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.neg)]
         neg += [op.subop.combine(x, y) for x, y in itertools.product(left.neg, right.pos)]
 
-        return op.collect(op(op.identity, tuple(pos), tuple(neg)))
+        return op.collect(op(op.subop.calcval(left.const, right.const), tuple(pos), tuple(neg)))
 
     def simplify(self):
         out = self.__class__(self.const, self.pos, self.neg)
-- 
2.43.0


From 14e2485a57f065ffc5b831da6c584415e66ecd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:03 +0000
Subject: [PATCH 02/97] fix: cancel each common factor against the factors that
 are still left

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index aca5deb..7197b7c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -723,7 +723,7 @@ class RingAlgebraAddLike(RingAlgebra):
             pos, neg = list(x.pos), []
             for y in x.neg:
                 try:
-                    i = x.pos.index(y)
+                    i = pos.index(y)
                 except ValueError:
                     neg.append(y)
                 else:
-- 
2.43.0


From e95c650ddc84fb2860168656fc65050db784c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:05 +0000
Subject: [PATCH 03/97] fix: negate boolean fields that appear under 'not' when
 filling

---
 histbook/instr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index 15ab458..e650622 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -159,9 +159,15 @@ def totree(expr):
 
         return histbook.expr.Call(fcn, left, right)
 
-    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name, histbook.expr.Predicate)):
+    if isinstance(expr, (histbook.expr.Const, histbook.expr.Name)):
         return expr
 
+    elif isinstance(expr, histbook.expr.Predicate):
+        if expr.positive:
+            return histbook.expr.Name(expr.value)
+        else:
+            return histbook.expr.Call("numpy.logical_not", histbook.expr.Name(expr.value))
+
     elif isinstance(expr, histbook.expr.Call):
         return histbook.expr.Call(expr.fcn, *(totree(x) for x in expr.args))
 
-- 
2.43.0


From c07457fbf6736aedfcafb21c85220769482b9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:29 +0000
Subject: [PATCH 04/97] fix: evaluate 'in' and 'not in' against the elements of
 the set

---
 histbook/calc/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 12fb2eb..f10154a 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -44,9 +44,10 @@ library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
 library["numpy.less_equal"] = numpy.less_equal
 try:
-    library["numpy.isin"] = numpy.isin
+    isin = numpy.isin
 except AttributeError:
-    library["numpy.isin"] = numpy.in1d
+    isin = numpy.in1d
+library["numpy.isin"] = lambda values, container: isin(values, list(container))    # Numpy would take a set to be a single element
 library["numpy.logical_or"] = numpy.logical_or
 library["numpy.logical_and"] = numpy.logical_and
 library["numpy.logical_not"] = numpy.logical_not
-- 
2.43.0


From 01552463f748025c7e6bc53cd754b6e571ebb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:32 +0000
Subject: [PATCH 05/97] fix: fold constant '//', '%', '**' and '^' instead of
 raising KeyError

---
 histbook/expr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 7197b7c..383898c 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -229,15 +229,15 @@ class Expr(object):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
             elif isinstance(node, ast.BinOp):
-                if   isinstance(node.op, ast.Add):      fcn = "+"
-                elif isinstance(node.op, ast.Sub):      fcn = "-"
-                elif isinstance(node.op, ast.Mult):     fcn = "*"
-                elif isinstance(node.op, ast.Div):      fcn = "/"
+                if   isinstance(node.op, ast.Add):      op = fcn = "+"
+                elif isinstance(node.op, ast.Sub):      op = fcn = "-"
+                elif isinstance(node.op, ast.Mult):     op = fcn = "*"
+                elif isinstance(node.op, ast.Div):      op = fcn = "/"
                 elif isinstance(node.op, ast.FloorDiv): op, fcn = "//", "numpy.floor_divide"
                 elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "fmod"
                 elif isinstance(node.op, ast.Pow):      op, fcn = "**", "pow"
-                elif isinstance(node.op, ast.BitOr):    fcn = "|"
-                elif isinstance(node.op, ast.BitAnd):   fcn = "&"
+                elif isinstance(node.op, ast.BitOr):    op = fcn = "|"
+                elif isinstance(node.op, ast.BitAnd):   op = fcn = "&"
                 elif isinstance(node.op, ast.BitXor):   op, fcn = "^",  "xor"
                 else:
                     raise ExpressionError("only binary operators supported: '+', '-', '*', '/', '//', '%', '**', '|', '&', and '^': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -246,7 +246,7 @@ class Expr(object):
                 right = recurse(node.right)
 
                 if isinstance(left, Const) and isinstance(right, Const):
-                    return Const(calculate[fcn](left.value, right.value))
+                    return Const(calculate[op](left.value, right.value))
 
                 if fcn == "+":
                     return PlusMinus.combine(left, right).simplify()
-- 
2.43.0


From 076bd09d35d1270e674fca144174c010ba6c2583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:35 +0000
Subject: [PATCH 06/97] fix: raise the error for unhandled syntax in an
 expression instead of parsing it as None

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 383898c..22f6d96 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -321,7 +321,7 @@ class Expr(object):
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
 
             else:
-                ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
+                raise ExpressionError("unhandled syntax in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
         return recurse(pyast, relations=True)
         
-- 
2.43.0


From 8d114a33f14943ba5d5e988004db70d423f1019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:37 +0000
Subject: [PATCH 07/97] fix: provide the floor_divide, xor and round functions
 that expressions can refer to

---
 histbook/calc/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index f10154a..91963fb 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -39,6 +39,8 @@ library["numpy.add"] = numpy.add
 library["numpy.subtract"] = numpy.subtract
 library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
+library["numpy.floor_divide"] = numpy.floor_divide
+library["xor"] = numpy.bitwise_xor
 library["numpy.equal"] = numpy.equal
 library["numpy.not_equal"] = numpy.not_equal
 library["numpy.less"] = numpy.less
@@ -95,6 +97,7 @@ library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
 library["rint"] = numpy.rint
+library["round"] = numpy.round
 library["sign"] = numpy.sign
 library["sinh"] = numpy.sinh
 library["sin"] = numpy.sin
-- 
2.43.0


From 7c894585eaacb40e9017461405e46af7e2ee5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:39 +0000
Subject: [PATCH 08/97] fix: min and max of more than two fields no longer
 overwrite the third with the result

---
 histbook/calc/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 91963fb..6a1193b 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -28,6 +28,8 @@
 # OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+import functools
+
 import histbook.expr
 
 import numpy
@@ -91,8 +93,8 @@ library["log2"] = numpy.log2
 library["logaddexp2"] = numpy.logaddexp2
 library["logaddexp"] = numpy.logaddexp
 library["log"] = numpy.log
-library["max"] = numpy.maximum;           library["fmax"] = numpy.maximum
-library["min"] = numpy.minimum;           library["fmin"] = numpy.minimum
+library["max"] = lambda *args: functools.reduce(numpy.maximum, args);           library["fmax"] = numpy.maximum
+library["min"] = lambda *args: functools.reduce(numpy.minimum, args);           library["fmin"] = numpy.minimum
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
 library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
-- 
2.43.0


From effce6c48692c9062816ac03f61d692658b0f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:59 +0000
Subject: [PATCH 09/97] fix: fmod is the C remainder (sign of the dividend),
 distinct from mod and '%'

---
 histbook/calc/__init__.py | 2 +-
 histbook/expr.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 6a1193b..c1a571b 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -97,7 +97,7 @@ library["max"] = lambda *args: functools.reduce(numpy.maximum, args);
 library["min"] = lambda *args: functools.reduce(numpy.minimum, args);           library["fmin"] = numpy.minimum
 library["pow"] = numpy.power
 library["rad2deg"] = numpy.rad2deg
-library["mod"] = numpy.remainder;         library["fmod"] = numpy.remainder
+library["mod"] = numpy.remainder
 library["rint"] = numpy.rint
 library["round"] = numpy.round
 library["sign"] = numpy.sign
diff --git a/histbook/expr.py b/histbook/expr.py
index 22f6d96..8c6d717 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -234,7 +234,7 @@ class Expr(object):
                 elif isinstance(node.op, ast.Mult):     op = fcn = "*"
                 elif isinstance(node.op, ast.Div):      op = fcn = "/"
                 elif isinstance(node.op, ast.FloorDiv): op, fcn = "//", "numpy.floor_divide"
-                elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "fmod"
+                elif isinstance(node.op, ast.Mod):      op, fcn = "%",  "mod"
                 elif isinstance(node.op, ast.Pow):      op, fcn = "**", "pow"
                 elif isinstance(node.op, ast.BitOr):    op = fcn = "|"
                 elif isinstance(node.op, ast.BitAnd):   op = fcn = "&"
@@ -375,7 +375,7 @@ _recognize(math, "exp", "exp")
 _recognize(math, "expm1", "expm1")
 _recognize(math, "factorial", "factorial")    # not in numexpr
 _recognize(math, "floor", "floor")
-_recognize(math, "fmod", "mod")
+_recognize(math, "fmod", "fmod")
 _recognize(math, "gamma", "gamma")    # not in numexpr (has lgamma and tgamma)
 _recognize(math, "hypot", "hypot")
 _recognize(math, "isinf", "isinf")
-- 
2.43.0


From d6d273880a08ed99e8e79dbb7c290a9f88b9b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:01 +0000
Subject: [PATCH 10/97] fix: compare string-valued fields, for which the Numpy
 comparison ufuncs have no loop

---
 histbook/calc/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index c1a571b..7be7f24 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -29,6 +29,7 @@
 # OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 import functools
+import operator
 
 import histbook.expr
 
@@ -43,10 +44,10 @@ library["numpy.multiply"] = numpy.multiply
 library["numpy.true_divide"] = numpy.true_divide
 library["numpy.floor_divide"] = numpy.floor_divide
 library["xor"] = numpy.bitwise_xor
-library["numpy.equal"] = numpy.equal
-library["numpy.not_equal"] = numpy.not_equal
-library["numpy.less"] = numpy.less
-library["numpy.less_equal"] = numpy.less_equal
+library["numpy.equal"] = operator.eq
+library["numpy.not_equal"] = operator.ne
+library["numpy.less"] = operator.lt
+library["numpy.less_equal"] = operator.le
 try:
     isin = numpy.isin
 except AttributeError:
-- 
2.43.0


From 7e134f6233c046211e204d50831f2d434e424547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 11/97] fix: do not report constant axis expressions as
 required fields

---
 histbook/fill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/fill.py b/histbook/fill.py
index 2b67ecd..821c0e2 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -54,7 +54,7 @@ class Fillable(object):
             fields = histbook.instr.sources(goals, table)
 
             self._instructions = self._streamline(0, list(histbook.instr.instructions(fields, goals)))
-            self._fields = sorted(x.goal.value for x in fields)
+            self._fields = sorted(x.goal.value for x in fields if not isinstance(x.goal, histbook.expr.BroadcastConst))
 
         return self._fields
 
-- 
2.43.0


From 24cc3023db4201be9e674d29fe4e259ff3481aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 12/97] fix: compute bin indexes in double precision and clip
 them before casting to integers

---
 histbook/calc/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 7be7f24..c4ceddd 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -219,7 +219,7 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
         shift = 0
 
     def bin(values, numbins, low, high):
-        indexes = values - float(low)
+        indexes = numpy.subtract(values, float(low), dtype=numpy.float64)
         numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
 
         if closedlow:
@@ -230,7 +230,7 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.add(indexes, shift - 1, indexes)
 
-        out = numpy.ma.array(indexes, dtype=INDEXTYPE)
+        out = numpy.ma.array(numpy.clip(indexes, -1, numbins + shift), dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
             if underflow:
                 numpy.maximum(out, 0, out)
-- 
2.43.0


From 51b3ddca3033970146406a3fb7fa015eb9d3cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 13/97] fix: keep infinite, large and narrow-integer values
 from wrapping around into the wrong intbin

---
 histbook/calc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index c4ceddd..00f0dd5 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -269,7 +269,8 @@ def histbook_intbin(underflow, overflow):
         shift = 0
 
     def intbin(values, min, max):
-        indexes = numpy.ma.array((values + (shift - min)), dtype=INDEXTYPE)
+        values = numpy.floor(numpy.asarray(values, dtype=numpy.float64))
+        indexes = numpy.ma.array(numpy.clip(values + (shift - min), -1, shift + 1 + max - min), dtype=INDEXTYPE)
 
         if underflow:
             numpy.maximum(indexes, 0, indexes)
@@ -281,6 +282,7 @@ def histbook_intbin(underflow, overflow):
         else:
             indexes[indexes > (shift + max - min)] = numpy.ma.masked
 
+        indexes[numpy.isnan(values)] = numpy.ma.masked
         return indexes
 
     return intbin
-- 
2.43.0


From 46af49d9ae9e91b79d811dccb87345f0f28a6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 14/97] fix: compute sparse bin edges in double precision,
 whatever the type of the input

---
 histbook/calc/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 00f0dd5..36538c7 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -163,9 +163,9 @@ library["histbook.groupby"] = histbook_groupby
 def histbook_groupbin(nanflow, closedlow):
     def groupbin(values, binwidth, origin):
         if origin == 0:
-            indexes = numpy.multiply(values, 1.0/float(binwidth))
+            indexes = numpy.multiply(values, 1.0/float(binwidth), dtype=numpy.float64)
         else:
-            indexes = values - float(origin)
+            indexes = numpy.subtract(values, float(origin), dtype=numpy.float64)
             numpy.multiply(indexes, 1.0/float(binwidth), indexes)
 
         if closedlow:
-- 
2.43.0


From 3863ebbb078b04b402903ad9498369257d4f5ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:33 +0000
Subject: [PATCH 15/97] fix: fill profiles when some events fall outside of the
 bins, accumulating in double precision

---
 histbook/hist.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 3178c92..47fe2e8 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -400,8 +400,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         axissumx, axissumx2 = [], []
         for axis in self._profile:
-            axissumx.append(self._destination[0][j])
-            axissumx2.append(self._destination[0][j + 1])
+            axissumx.append(numpy.asarray(self._destination[0][j], dtype=self.COUNTTYPE))
+            axissumx2.append(numpy.square(axissumx[-1]))
             j += 2
 
         if self._weightparsed is None:
@@ -411,27 +411,25 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             weight = numpy.ones(length) * self._weightparsed.value
             weight2 = numpy.ones(length) * self._weightparsed.value**2
         else:
-            weight = self._destination[0][j]
-            weight2 = self._destination[0][j + 1]
+            weight = numpy.asarray(self._destination[0][j], dtype=self.COUNTTYPE)
             selection = numpy.isnan(weight)
             if selection.any():
                 weight = weight.copy()
-                weight2 = weight2.copy()
                 weight[selection] = 0.0
-                weight2[selection] = 0.0
+            weight2 = numpy.square(weight)
 
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
             for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
                 if indexes is None:
                     indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
-                if weight2 is not None:
-                    selection = numpy.ma.getmask(indexes)
-                    if selection is not numpy.ma.nomask:
-                        selection = numpy.bitwise_not(selection)
-                        weight = weight[selection]
-                        weight2 = weight2[selection]
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumx * weight)
-                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumx2 * weight)
+                sumwx, sumwx2 = sumx * weight, sumx2 * weight
+                selection = numpy.ma.getmask(indexes)
+                if selection is not numpy.ma.nomask:
+                    selection = numpy.bitwise_not(selection)
+                    sumwx = sumwx[selection]
+                    sumwx2 = sumwx2[selection]
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwxindex], indexes.compressed(), sumwx)
+                numpy.add.at(content.reshape((-1, self._shape[-1]))[:, axis._sumwx2index], indexes.compressed(), sumwx2)
 
             if weight2 is None:
                 if indexes is None:
-- 
2.43.0


From e66eeedd41c1a4af91c74e2289f45337abbe4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:13 +0000
Subject: [PATCH 16/97] fix: do not share axis objects among histograms, whose
 positions differ

---
 histbook/hist.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 47fe2e8..902ab05 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -155,12 +155,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         newaxis = []
         for old in axis:
-            if isinstance(old, histbook.axis._nullaxis) or hasattr(old, "_parsed"):
+            if isinstance(old, histbook.axis._nullaxis):
                 newaxis.append(old)
             else:
-                expr = histbook.expr.Expr.parse(old._expr, defs=defs)
                 new = old.copy()
-                new._parsed = expr
+                new._parsed = old._parsed if hasattr(old, "_parsed") else histbook.expr.Expr.parse(old._expr, defs=defs)
                 newaxis.append(new)
 
         self._goals = set()
-- 
2.43.0


From 09217d7a7dbf3d57bf97ef9c1ec734b8db3db4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:15 +0000
Subject: [PATCH 17/97] fix: '+' returns an independent histogram and rejects a
 mixture of weighted and unweighted

---
 histbook/hist.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 902ab05..275112c 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -497,6 +497,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can not be added to unweighted histograms")
+
         def add(selfcontent, othercontent):
             if selfcontent is None and othercontent is None:
                 return None
@@ -517,14 +520,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     if n in othercontent:
                         out[n] = add(selfcontent[n], othercontent[n])
                     else:
-                        out[n] = selfcontent[n]
+                        out[n] = Hist._copycontent(selfcontent[n])
                 for n in othercontent:
                     if n not in selfcontent:
-                        out[n] = othercontent[n]
+                        out[n] = Hist._copycontent(othercontent[n])
                 return out
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = add(self._content, other._content)
         return out
 
@@ -535,6 +537,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
+        if self._shape != other._shape:
+            raise TypeError("weighted histograms can not be added to unweighted histograms")
+
         def add(selfcontent, othercontent):
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
-- 
2.43.0


From b4a4ff8673a5eed003222fe09ea3d5bbbfa9a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:17 +0000
Subject: [PATCH 18/97] fix: '*' returns an independent histogram and accepts a
 histogram that was never filled

---
 histbook/hist.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 275112c..94ca9ce 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -571,13 +571,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                return None
+            elif isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
             else:
                 return content * value
 
-        out = self.__class__.__new__(self.__class__)
-        out.__dict__.update(self.__dict__)
+        out = self.cleared()
         out._content = recurse(self._content)
         return out
 
@@ -589,7 +590,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("Hist can only be multiplied by a scalar number.")
 
         def recurse(content):
-            if isinstance(content, dict):
+            if content is None:
+                pass
+            elif isinstance(content, dict):
                 for x in content.values():
                     recurse(x)
             else:
-- 
2.43.0


From 3666be33c8e00a3e2f7f17408560a79fe457ea6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:18 +0000
Subject: [PATCH 19/97] fix: a copyonfill copy and its original no longer share
 later changes

---
 histbook/hist.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 94ca9ce..ae58f20 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -87,8 +87,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = Hist(*(self._group + self._fixed + self._profile), weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
         out._copyonfill = True
         out._content = self._content
+        self._copyonfill = True     # both share the content, so whichever changes first has to copy it
         return out
 
+    def _owncontent(self):
+        if self._copyonfill:
+            self._content = self.__class__._copycontent(self._content)
+            self._copyonfill = False
+
     def clear(self):
         """Effectively reset all bins to zero."""
         self._content = None
@@ -346,9 +352,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         **more : Numpy arrays or numbers
             more field values
         """
-        if self._copyonfill:
-            self._content = Hist._copycontent(self._content)
-            self._copyonfill = False
+        self._owncontent()
 
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
@@ -552,6 +556,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._owncontent()
+
         if other._content is None:
             pass
 
@@ -598,6 +604,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             else:
                 content *= value
 
+        self._owncontent()
         recurse(self._content)
         return self
 
-- 
2.43.0


From fcabcc83699306abb440cede61bc3b54aee5e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:20 +0000
Subject: [PATCH 20/97] fix: filling a book copies the content of its
 copyonfill histograms first

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 830e0bc..8f201cd 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -579,6 +579,7 @@ class Book(GenericBook, histbook.fill.Fillable):
                 arrays = histbook.util.ChainedDict(arrays, more)
 
             for x in self.itervalues(recursive=True, onlyhist=True):
+                x._owncontent()
                 x._prefill()
             length = self._fill(arrays)
             for x in self.itervalues(recursive=True, onlyhist=True):
-- 
2.43.0


From 8ea3ce8f91182d265583a6fdc8343bb753a7833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:22 +0000
Subject: [PATCH 21/97] fix: deleting a wildcard pattern from a book only
 deletes what matches the pattern

---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 8f201cd..57c8f75 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -282,7 +282,8 @@ class GenericBook(collections.MutableMapping):
 
         if "*" in name or "?" in name or "[" in name:
             for n in self.allkeys():
-                self._del(n, "")
+                if fnmatch.fnmatchcase(n, name) and self._get(n) is not None:
+                    self._del(n, "")
         else:
             self._del(name, "")
 
-- 
2.43.0


From 341fdcbffd5a2a11dba5d012ba8443b1cd70975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:24 +0000
Subject: [PATCH 22/97] fix: adding books copies the histograms that only one
 of them has

---
 histbook/book.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 57c8f75..c3f5b3e 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -446,10 +446,10 @@ class GenericBook(collections.MutableMapping):
             if n in other:
                 content[n] = x + other[n]
             else:
-                content[n] = x
+                content[n] = x.copy()
         for n, x in other.iteritems():
             if n not in self:
-                content[n] = x
+                content[n] = x.copy()
 
         attachment = dict(self._attachment)
         attachment.update(other._attachment)
@@ -461,7 +461,7 @@ class GenericBook(collections.MutableMapping):
         
         for n, x in other.iteritems():
             if n not in self:
-                self[n] = x
+                self[n] = x.copy()
             else:
                 self[n] += x
         return self
-- 
2.43.0


From 6a676a0ee13244b3b10da8ac97f7bbac9a632f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:26 +0000
Subject: [PATCH 23/97] fix: fill the current histograms of a book, also after
 changes in nested books

---
 histbook/book.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index c3f5b3e..8f33b82 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -526,9 +526,18 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    @property
+    def fields(self):
+        """Names of fields that must be provided in the ``fill`` method."""
+        hists = self.values(recursive=True, onlyhist=True)
+        if self._fields is not None and [id(x) for x in hists] != [id(x) for x in self._compiled]:
+            self._fields = None     # a nested book has changed since the instructions were compiled
+        self._compiled = hists
+        return super(Book, self).fields
+
     @property
     def _goals(self):
-        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)))
+        return functools.reduce(set.union, (x._goals for x in self.itervalues(recursive=True, onlyhist=True)), set())
 
     def _streamline(self, i, instructions):
         self._destination = []
@@ -642,3 +651,4 @@ class SystematicsBook(Book):
         self.assertcompatible()
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
+        super(SystematicsBook, self)._changed()
-- 
2.43.0


From 17cd9f16557775bee584a3da6892693e54bf0334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 24/97] fix: import threading, which filling a book from Spark
 needs

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index 8f33b82..53822b5 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -32,6 +32,7 @@ import collections
 import fnmatch
 import functools
 import sys
+import threading
 
 import numpy
 
-- 
2.43.0


From 03cae9e7372559ee4095c591a1a2fd1892cd8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:32 +0000
Subject: [PATCH 25/97] fix: Hist.group of filtered and of unfilled histograms;
 reject a mixture of weighted and unweighted

---
 histbook/hist.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index ae58f20..a530cfb 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -379,12 +379,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             length = self._fill(arrays)
             self._postfill(arrays, length)
 
+    def _zerocontent(self):
+        if len(self._group) == 0:
+            return numpy.zeros(self._shape, dtype=self.COUNTTYPE)
+        else:
+            return {}
+
     def _prefill(self):
         if self._content is None:
-            if len(self._group) == 0:
-                self._content = numpy.zeros(self._shape, dtype=self.COUNTTYPE)
-            else:
-                self._content = {}
+            self._content = self._zerocontent()
 
     def _postfill(self, arrays, length):
         j = len(self._group)
@@ -641,15 +644,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.axis.groupby(by) in axis:
             raise ValueError("groupby({0}) already exists in these histograms; use hist.togroup(other) to add to a group".format(repr(by)))
 
-        weight = None
+        weight = hist._weightoriginal
         for x in hists.values():
-            if weight is None:
-                weight = x._weightoriginal
-            elif x._weightoriginal is None:
+            if x._shape != hist._shape:
                 raise TypeError("histograms can only be grouped with the same weight specifications")
             elif weight != x._weightoriginal:
                 weight = 1.0
-                
+        if weight is None and hist._weightparsed is not None:
+            weight = 1.0                # filtered, but not weighted: the filters don't apply to the group
+
         defs = {}
         for x in hists.values():
             defs.update(x._defs)
@@ -657,7 +660,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         out = cls(*((histbook.axis.groupby(by),) + hist._group + hist._fixed + hist._profile), weight=weight, filter=None, defs=dict(defs), attachment=None)
         out._content = {}
         for n, x in hists.items():
-            out._content[n] = cls._copycontent(x._content)
+            out._content[n] = x._zerocontent() if x._content is None else cls._copycontent(x._content)
         return out
 
     def togroup(**hists):
-- 
2.43.0


From 23b28a2f18f0b3498adca126f8c2cb6f54e7076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:33 +0000
Subject: [PATCH 26/97] fix: Hist.togroup had no self and referred to an
 undefined variable

---
 histbook/hist.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index a530cfb..6796631 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -663,7 +663,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             out._content[n] = x._zerocontent() if x._content is None else cls._copycontent(x._content)
         return out
 
-    def togroup(**hists):
+    def togroup(self, **hists):
         u"""
         Add histograms to the :py:class:`groupby <histbook.axis.groupby>` that is the first axis.
 
@@ -683,8 +683,13 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for x in hists.values():
             if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
                 raise TypeError("histograms can only be grouped with the same axis specifications")
+            if self._shape != x._shape:
+                raise TypeError("histograms can only be grouped with the same weight specifications")
 
         def add(selfcontent, othercontent):
+            if isinstance(selfcontent, numpy.ndarray):
+                selfcontent += othercontent
+                return
             assert isinstance(selfcontent, dict) and isinstance(othercontent, dict)
             for n in selfcontent:
                 if n in othercontent:
@@ -696,11 +701,14 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if n not in selfcontent:
                     selfcontent[n] = Hist._copycontent(othercontent[n])
 
+        self._owncontent()
+        self._prefill()
         for n, x in hists.items():
+            content = x._zerocontent() if x._content is None else Hist._copycontent(x._content)
             if n in self._content:
-                add(self._content[n], other._content)
+                add(self._content[n], content)
             else:
-                self._content[n] = Hist._copycontent(other._content)
+                self._content[n] = content
 
     def tojson(self):
         out = {"type": "Hist", "axis": [x.tojson() for x in self._group + self._fixed + self._profile]}
-- 
2.43.0


From a6d252200afab5dbe6993a5741f78045b8ea201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:35 +0000
Subject: [PATCH 27/97] fix: JSON preserves numerical and boolean group keys

---
 histbook/hist.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 6796631..1347baf 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -721,7 +721,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
-                    return dict((n, recurse(x)) for n, x in node.items())
+                    # pairs, rather than an object, because JSON can't have numbers or booleans as keys
+                    return [[n.item() if isinstance(n, numpy.generic) else n, recurse(x)] for n, x in node.items()]
                 else:
                     return node.tolist()
             out["content"] = recurse(self._content)
@@ -732,16 +733,18 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     @staticmethod
     def fromjson(obj):
         assert obj["type"] == "Hist"
-        def recurse(node):
+        def recurse(node, depth):
             if node is None:
                 return None
             elif isinstance(node, dict):
-                return dict((n, recurse(x)) for n, x in node.items())
+                return dict((n, recurse(x, depth - 1)) for n, x in node.items())
+            elif depth > 0:
+                return dict((n, recurse(x, depth - 1)) for n, x in node)
             else:
                 return numpy.array(node, dtype=Hist.COUNTTYPE)
 
         out = Hist(*[histbook.axis.Axis.fromjson(x) for x in obj["axis"]], weight=obj.get("weight", None), filter=obj.get("filter", None), defs=obj.get("defs", None), attachment=obj.get("attachment", None))
-        out._content = recurse(obj.get("content", None))
+        out._content = recurse(obj.get("content", None), len(out._group))
         return out
 
     def __getstate__(self):
-- 
2.43.0


From ac19903cc2f741825afb4983c681bcbc880b6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:37 +0000
Subject: [PATCH 28/97] fix: a histogram that was read before it was filled is
 equal to one that was not read

---
 histbook/hist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 1347baf..08c5221 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -758,8 +758,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def __eq__(self, other):
         def recurse(one, two):
-            if one is None and two is None:
-                return True
+            if one is None or two is None:
+                content = two if one is None else one
+                return content is None or (len(content) == 0 if isinstance(content, dict) else not content.any())
             elif isinstance(one, dict) and isinstance(two, dict):
                 return set(one.keys()) == set(two.keys()) and all(recurse(one[n], two[n]) for n in one)
             elif isinstance(one, numpy.ndarray) and isinstance(two, numpy.ndarray):
-- 
2.43.0


From dc4981a4aff4b8327b76b15c4b8e804eef2a15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:39 +0000
Subject: [PATCH 29/97] fix: groupkeys of a histogram that was never filled is
 empty

---
 histbook/hist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 08c5221..786a3f5 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -818,5 +818,6 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 for x in content.values():
                     recurse(j + 1, x)
         
-        recurse(0, self._content)
+        if self._content is not None:
+            recurse(0, self._content)
         return out
-- 
2.43.0


From c0ccc0bb4cde317b2263200c3b9cdcb99b164c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:41 +0000
Subject: [PATCH 30/97] fix: drop keeps the content of the remaining profiles;
 fraction without profiles

---
 histbook/proj.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 6063808..2caa2cd 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -194,20 +194,21 @@ class Projectable(object):
         """
         if len(profile) == 0:
             raise IndexError("no profile axis given")
-        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis.profile(x) for x in profile]
+        profile = [x if isinstance(x, histbook.axis.Axis) else self.axis[x] if isinstance(x, (numbers.Integral, numpy.integer)) else self.axis.profile(x) for x in profile]
         for prof in profile:
             if prof not in self._profile:
                 raise IndexError("no such profile axis: {0}".format(prof))
         
         axis = []
         index = []
-        for i, prof in enumerate(self._profile):
+        for prof in self._profile:
             if prof not in profile:
                 axis.append(prof)
-                index.append(i)
+                index.append(prof._sumwxindex)
+                index.append(prof._sumwx2index)
 
         index.append(self._sumwindex)
-        if self._weightoriginal is not None:
+        if self._weightparsed is not None:
             index.append(self._sumw2index)
 
         slc = (slice(None),) * (len(self._shape) - 1) + (index,)
@@ -682,7 +683,7 @@ class Projectable(object):
                 cutindex.append(self._fixed.index(c))
         cut = [self._fixed[i] for i in cutindex]
 
-        noprofiles = self.drop(*self._profile)
+        noprofiles = self.drop(*self._profile) if len(self._profile) > 0 else self
         denomhist = noprofiles.project(*[x for x in self._group + self._fixed if x not in cut])
         cuthist = []
         for c in cut:
-- 
2.43.0


From f0118aeb275b741af43085508815e7232c4ffeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:35 +0000
Subject: [PATCH 31/97] fix: project over group axes that have any number of
 keys

---
 histbook/proj.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 2caa2cd..6a8a944 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -258,25 +258,20 @@ class Projectable(object):
             else:
                 return left + right
 
-        def addall(values):
-            assert len(values) != 0
-            left = values[:len(values) // 2]
-            right = values[len(values) // 2:]
-            if len(left) == 0:
-                return right
-            elif len(right) == 0:
-                return left
-            elif len(left) == 1 and len(right) == 1:
-                return addany(left[0], right[0])
+        def addall(j, values):
+            if len(values) == 0:
+                return {} if any(x in axis for x in self._group[j:]) else numpy.zeros(out._shape, dtype=self.COUNTTYPE)
+            elif len(values) == 1:
+                return values[0]
             else:
-                return addall([addall(left)] + [addall(right)])
-            
+                return addany(addall(j, values[:len(values) // 2]), addall(j, values[len(values) // 2:]))
+
         def projcontent(j, content):
             if j < len(self._group):
                 if allaxis[j] in axis:
                     return dict((n, projcontent(j + 1, x)) for n, x in content.items())
                 else:
-                    return addall([projcontent(j + 1, x) for x in content.values()])
+                    return addall(j + 1, [projcontent(j + 1, x) for x in content.values()])
             else:
                 return projarray(content)
 
-- 
2.43.0


From 9adc56db913654faf1de0df7db1944e70d3dda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:37 +0000
Subject: [PATCH 32/97] fix: rebinby combines bins (it never got as far)

---
 histbook/axis.py | 38 ++++++++++++++++++--------------------
 histbook/proj.py |  4 ++--
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index edb672f..ac4f576 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -430,33 +430,31 @@ class groupbin(GroupAxis, _RebinFactor):
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
 
-        newaxis = groupbin(self._expr, float(self._binwidth) / float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
+        newaxis = groupbin(self._expr, float(self._binwidth) * float(factor), origin=self._origin, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             newaxis._original = self._original
         if hasattr(self, "_parsed"):
             newaxis._parsed = self._parsed
 
+        def merge(one, two):
+            if isinstance(one, dict):
+                out = dict(one)
+                for n, x in two.items():
+                    out[n] = merge(out[n], x) if n in out else x
+                return out
+            else:
+                return one + two
+
         def recurse(j, content):
             if j == index:
                 out = {}
                 for n, x in content.items():
-                    if n == "NaN":
-                        out[n] = recurse(j + 1, x)
-
-                    else:
-                        index = (n - float(self._origin)) / float(self._binwidth)
-                        if self._closedlow:
-                            index = int(numpy.floor(index))
-                        else:
-                            index = int(numpy.ceil(index)) - 1
-
-                        index = index // int(factor)
+                    if n != "NaN" and numpy.isfinite(n):
+                        num = int(round((n - float(self._origin)) / float(self._binwidth))) // int(factor)
+                        n = num * float(newaxis._binwidth) + float(newaxis._origin)
 
-                        n = index * float(newindex._binwidth) + float(newaxis._origin)
-                        if n not in out:
-                            out[n] = recurse(j + 1, x)
-                        else:
-                            out[n] += recurse(j + 1, x)
+                    x = recurse(j + 1, x)
+                    out[n] = merge(out[n], x) if n in out else x
 
                 return out
                         
@@ -464,7 +462,7 @@ class groupbin(GroupAxis, _RebinFactor):
                 return dict((n, recurse(j + 1, x)) for n, x in content.items())
 
             else:
-                return content
+                return content.copy()
 
         if content is None:
             return newaxis, None
@@ -909,7 +907,7 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
         return self.bin()._rebinsplit(edges, content, index)
 
     def _rebinfactor(self, factor, content, index):
-        return self.bin()._rebinfactor(edges, content, index)
+        return self.bin()._rebinfactor(factor, content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -1208,7 +1206,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1], content, index)
+        return self._rebinsplit(self.edges[0:-1:factor] + self.edges[-1:], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
diff --git a/histbook/proj.py b/histbook/proj.py
index 6a8a944..8d137d7 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -169,9 +169,9 @@ class Projectable(object):
             raise IndexError("no such rebinnable axis: {0}".format(axis))
 
         if isinstance(axis, histbook.axis.GroupAxis):
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index)
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index)
         else:
-            newaxis, newcontent = axis._rebinsplit(factor, self._content, index - len(self._group))
+            newaxis, newcontent = axis._rebinfactor(factor, self._content, index - len(self._group))
 
         outaxis = [newaxis if i == index else x for i, x in enumerate(self._group + self._fixed + self._profile)]
         out = self.__class__(*outaxis, weight=self._weightoriginal, filter=self._filteroriginal, defs=dict(self._defs), attachment=dict(self._attachment))
-- 
2.43.0


From f82f636dc759e131294aef79b86b284742eef17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:39 +0000
Subject: [PATCH 33/97] fix: rebin and rebinby accept the position of an axis,
 as documented

---
 histbook/proj.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 8d137d7..0689ae1 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -110,7 +110,9 @@ class Projectable(object):
         :py:class:`Hist <histbook.hist.Hist>`
             a rebinned histogram.
         """
-        if not isinstance(axis, histbook.axis.Axis):
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+        elif not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
                 if isinstance(x, histbook.axis._RebinSplit) and expr == x._parsed:
@@ -154,7 +156,9 @@ class Projectable(object):
         if not isinstance(factor, (numbers.Integral, numpy.integer)) or factor <= 0:
             raise TypeError("factor must be a positive integer")
 
-        if not isinstance(axis, histbook.axis.Axis):
+        if isinstance(axis, (numbers.Integral, numpy.integer)):
+            axis = self.axis[axis]
+        elif not isinstance(axis, histbook.axis.Axis):
             expr = histbook.expr.Expr.parse(axis, defs=self._defs)
             for x in self._group + self._fixed:
                 if isinstance(x, histbook.axis._RebinFactor) and expr == x._parsed:
-- 
2.43.0


From 380691d5efd9cd237af5286950837f0a8919085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:41 +0000
Subject: [PATCH 34/97] fix: select with three or more alternatives, and the
 errors of selections that do not fit

---
 histbook/proj.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 0689ae1..33f0720 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -394,7 +394,13 @@ class Projectable(object):
 
         allaxis = self._group + self._fixed
 
-        def logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis):
+        def both(one, two):
+            return lambda x: one(x) and two(x)
+
+        def either(one, two):
+            return lambda x: one(x) or two(x)
+
+        def logical(cutexpr, cutcmp, cutvalue, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis):
             if isinstance(axis, (histbook.axis.groupby, histbook.axis.groupbin)) and isinstance(cutexpr, histbook.expr.LogicalOr):
                 good = True
                 orslice = None
@@ -402,24 +408,21 @@ class Projectable(object):
                     andslice = None
                     for xpr in andexpr.args:
                         xpr, cmp, value = normalizeexpr(xpr)
-                        check, _, slice1, _, _, _ = logical(xpr, cmp, value, axis, cutaxis, newaxis, cutslice, closest, closestaxis, wrongcmpaxis)
+                        check, _, slice1, _, _, _ = logical(xpr, cmp, value, axis, cutaxis, newaxis, cutslice, closest, wrongcmpaxis, closestaxis)
                         if check is None:
                             good = False
                             break
                         elif andslice is None:
                             andslice = slice1
                         else:
-                            slice2 = andslice
-                            andslice = lambda x: slice1(x) and slice2(x)
+                            andslice = both(andslice, slice1)
 
                     if not good:
                         break
                     elif orslice is None:
                         orslice = andslice
                     else:
-                        slice1 = andslice
-                        slice2 = orslice
-                        orslice = lambda x: slice1(x) or slice2(x)
+                        orslice = either(orslice, andslice)
 
                 if good:
                     return axis, axis, orslice, None, None, None
@@ -449,7 +452,7 @@ class Projectable(object):
                 break
         else:
             if wrongcmpaxis is not None:
-                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if wrongcmpaxis.closedlow else "open"))
+                raise ValueError("no axis can select {0} (axis {1} has the wrong inequality; low edges are {2})".format(repr(str(expr)), wrongcmpaxis, "closed" if getattr(wrongcmpaxis, "closedlow", True) else "open"))
             elif closestaxis is not None:
                 raise ValueError("no axis can select {0} (axis {1} has an edge at {2})".format(repr(str(expr)), closestaxis, repr(closest)))
             else:
-- 
2.43.0


From 1146aa27de28feb7bfe69531f6d158629d4675ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:43 +0000
Subject: [PATCH 35/97] fix: a selection of group keys does not share its
 content with the original histogram

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 33f0720..8dadc71 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -469,7 +469,7 @@ class Projectable(object):
 
             if isinstance(allaxis[i], (histbook.axis.groupby, histbook.axis.groupbin)):
                 if allaxis[i] is cutaxis:
-                    return dict((n, x) for n, x in content.items() if cutslice(n))
+                    return dict((n, self._copycontent(x)) for n, x in content.items() if cutslice(n))
                 else:
                     return dict((n, cutcontent(i + 1, x)) for n, x in content.items())
 
-- 
2.43.0


From 7ff4a35dd3a31dc1b94929f713fc6c9f148c3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:47 +0000
Subject: [PATCH 36/97] fix: normalized tables with group axes and with a split
 axis that is not the last

---
 histbook/proj.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index 8dadc71..af62ce2 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -557,17 +557,30 @@ class Projectable(object):
             for axis in self._group:
                 if isinstance(axis, histbook.axis.groupbin):
                     groupbins *= axis.binwidth
-            binwidths[tuple(axis.finiteslice for axis in self._group + self._fixed)] = groupbins
+            binwidths[tuple(axis.finiteslice for axis in self._fixed)] = groupbins
 
             for i, axis in enumerate(self._fixed):
-                if callable(axis.binwidth):
-                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)])
+                if axis.numbins == 0:
+                    continue
+                elif callable(axis.binwidth):
+                    binwidth = numpy.array([axis.binwidth(k) for k in range(axis.numbins)]).reshape((-1,) + (1,)*(len(self._fixed) - 1 - i))
                 else:
                     binwidth = axis.binwidth
 
                 binwidths[tuple(axis.finiteslice if i == j else slice(None) for j, axis in enumerate(self._fixed))] *= binwidth
 
-        def handlearray(content):
+            def isfinite(j, n):
+                return not isinstance(self._group[j], histbook.axis.groupbin) or (n != "NaN" and numpy.isfinite(n))
+
+            def sumfinite(j, content):
+                if isinstance(content, dict):
+                    return sum(sumfinite(j + 1, x) for n, x in content.items() if isfinite(j, n))
+                else:
+                    return (content[..., self._sumwindex] / binwidths).sum()
+
+            total = sumfinite(0, self._content)
+
+        def handlearray(content, finite):
             content = content.reshape((-1, self._shape[-1]))
 
             out = numpy.zeros((content.shape[0], len(columns)), dtype=content.dtype)
@@ -588,9 +601,7 @@ class Projectable(object):
                     outindex += 1
 
                 if normalized:
-                    shaped = binwidths.reshape(content.shape[:-1])
-                    total = (out[:, countindex] / shaped).sum()
-                    correction = total * shaped
+                    correction = total * (binwidths.reshape(content.shape[:-1]) if finite else numpy.inf)
                     out[:, countindex] /= correction
                     if error:
                         out[:, errorindex] /= correction
@@ -619,13 +630,13 @@ class Projectable(object):
             else:
                 return out.reshape(self._shape[:-1] + (outindex,))
 
-        def handle(content):
+        def handle(j, content, finite):
             if isinstance(content, dict):
-                return dict((n, handle(x)) for n, x in content.items())
+                return dict((n, handle(j + 1, x, finite and (not normalized or isfinite(j, n)))) for n, x in content.items())
             else:
-                return handlearray(content)
+                return handlearray(content, finite)
 
-        out = handle(self._content)
+        out = handle(0, self._content, True)
 
         if showcolumns:
             return out, columns
-- 
2.43.0


From 8fedc9045b63a513ae88280a8bcb6f428ab56592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:50 +0000
Subject: [PATCH 37/97] fix: number of sigmas of a confidence level when SciPy
 is not available

---
 histbook/proj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index af62ce2..d73b190 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -729,7 +729,10 @@ class Projectable(object):
                 a7 = math.pi**3 * 127.0/40320.0
                 a9 = math.pi**4 * 4369.0/5806080.0
                 a11 = math.pi**5 * 34807.0/182476800.0
-                return 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                x = 0.5*math.sqrt(math.pi)*(level + a3*level**3 + a5*level**5 + a7*level**7 + a9*level**9 + a11*level**11)
+                for i in range(20):   # the series is only good for small levels
+                    x += 0.5*math.sqrt(math.pi)*math.exp(x**2)*(level - math.erf(x))
+                return x * math.sqrt(2)
             else:
                 return float(erfinv(level) * math.sqrt(2))
 
-- 
2.43.0


From 69b60788ef483ee2b8e1a8641c835971da8475b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:52 +0000
Subject: [PATCH 38/97] fix: keys and items of a sparse axis that has a NaN bin

---
 histbook/axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index ac4f576..fc2484c 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -520,7 +520,10 @@ class groupbin(GroupAxis, _RebinFactor):
         """Returns (key, value) pairs of the content."""
         if not isinstance(content, dict):
             raise TypeError("groupbin content must be a dict")
-        return [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(content)]
+        out = [IntervalPair((Interval(n, n + float(self._binwidth), closedlow=self._closedlow, closedhigh=(not self._closedlow)), content[n])) for n in sorted(x for x in content if x != "NaN")]
+        if "NaN" in content:
+            out.append(IntervalPair((IntervalNaN(), content["NaN"])))
+        return out
 
 class bin(FixedAxis, _RebinFactor, _RebinSplit):
     """
-- 
2.43.0


From c416d8d6328471cd96d94216ab1f8e2da5896efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:53 +0000
Subject: [PATCH 39/97] fix: select on a sparse axis that has NaN or infinite
 bins

---
 histbook/axis.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index fc2484c..0794eb0 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -474,19 +474,19 @@ class groupbin(GroupAxis, _RebinFactor):
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("-inf") and cmp == ">":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x > value, None, False
 
         elif value == float("-inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != value, None, False
 
         elif value == float("inf") and cmp == "<=":
             return self, lambda x: x != "NaN", None, False
 
         elif value == float("inf") and cmp == "<":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != "NaN" and x < value, None, False
 
         elif value == float("inf") and cmp == "!=":
-            return self, lambda x: x != "NaN", None, False
+            return self, lambda x: x != value, None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "!=":
             return self, lambda x: x != "NaN", None, False
@@ -494,17 +494,17 @@ class groupbin(GroupAxis, _RebinFactor):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             return self, lambda x: x == "NaN", None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
             close = round((value - float(self._origin)) / float(self._binwidth)) * float(self._binwidth) + float(self._origin)
             if abs(value - close) < tolerance:
                 if self._closedlow and cmp == "<":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 elif self._closedlow and cmp == ">=":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == ">":
-                    return self, lambda x: x >= close, close, False
+                    return self, lambda x: x != "NaN" and x >= close, close, False
                 elif not self._closedlow and cmp == "<=":
-                    return self, lambda x: x < close, close, False
+                    return self, lambda x: x != "NaN" and x < close, close, False
                 else:
                     return None, None, close, True
             else:
-- 
2.43.0


From 23748e415d424d3b69a7d5a9c922575d284b6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:55 +0000
Subject: [PATCH 40/97] fix: select '== nan' keeps the axis in step with its
 content

---
 histbook/axis.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 0794eb0..c5f4617 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -715,7 +715,10 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._numbins = 0
+            out._high = out._low
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
@@ -1236,7 +1239,9 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isnan(value) and cmp == "==":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
-            out._nanflow = False
+            out._edges = self._edges[:1]
+            out._underflow = False
+            out._overflow = False
             out._checktot()
             return out, slice(len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0), len(self._edges) - 1 + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-- 
2.43.0


From 5f94158d0f518ab4c5b577e71ff0bde1c02e7903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 41/97] fix: fill and select an axis that has only underflow or
 overflow left, or select at infinity

---
 histbook/axis.py          | 4 ++--
 histbook/calc/__init__.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index c5f4617..4d2a1c7 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -722,8 +722,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
             out._checktot()
             return out, slice(self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0), self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0) + 1), None, False
 
-        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
-            scale = float(self._numbins) / float(self._high - self._low)
+        elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
+            scale = float(self._numbins) / float(self._high - self._low) if self._numbins > 0 else 1.0
             edgenum = int(round((value - float(self._low)) * scale))
             close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
 
diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 36538c7..b96bf1a 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -220,7 +220,8 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
 
     def bin(values, numbins, low, high):
         indexes = numpy.subtract(values, float(low), dtype=numpy.float64)
-        numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
+        if numbins > 0:
+            numpy.multiply(indexes, float(numbins) / float(high - low), indexes)
 
         if closedlow:
             numpy.floor(indexes, indexes)
-- 
2.43.0


From f9a8aa9fb714d143ac3978fcfd22629536c42942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 42/97] fix: select on an intbin axis at infinity

---
 histbook/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 4d2a1c7..6faefbe 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -921,28 +921,28 @@ class intbin(FixedAxis, _RebinFactor, _RebinSplit):
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("-inf") and cmp == ">":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<=":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif value == float("inf") and cmp == "<":
             out = self.__class__.__new__(self.__class__)
             out.__dict__.update(self.__dict__)
             out._nanflow = False
             out._checktot()
-            return out, slice(0, self._numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
+            return out, slice(0, self.numbins + (1 if self._underflow else 0) + (1 if self._overflow else 0)), None, False
 
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)):
             if value + tolerance < self._min:
-- 
2.43.0


From 2653d11547f3a67e5f4fb1e408a3e2c8ade517f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:08 +0000
Subject: [PATCH 43/97] fix: heatmaps with a vertical intbin axis

---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 8b37bbe..eaed06f 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -834,7 +834,7 @@ class Plotable2d(PlotableFrontends):
             ybin = {"extent": [self._last.yaxis.low, self._last.yaxis.high], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.intbin):
             ytype = "quantitative"
-            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.may + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
+            ybin = {"extent": [self._last.yaxis.min - 0.5, self._last.yaxis.max + 0.5], "minstep": self._last.yaxis.binwidth, "maxbins": self._last.yaxis.numbins + 1, "nice": False}
         elif isinstance(self._last.yaxis, histbook.axis.split):
             raise NotImplementedError("Vega-Lite doesn't support heatmaps of explicit axis splitting (yet?)")
         else:
-- 
2.43.0


From 4cfd9d56ccd4092d6f957dccb6d74f9889c805b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:10 +0000
Subject: [PATCH 44/97] fix: plots with error bars draw only their own data
 when combined with beside, below or grid

---
 histbook/vega.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index eaed06f..05c502f 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -1040,7 +1040,7 @@ class beside(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1081,7 +1081,7 @@ class below(Combination):
                 if len(marks) == 1:
                     tofill.append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
                 else:
-                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill.append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
                 i += 1
 
         return i
@@ -1123,7 +1123,7 @@ class grid(Combination):
                     tofill[-1]["hconcat"].append(plotable._options({"mark": marks[0], "encoding": encodings[0], "transform": transforms[0] + thislayer}, config=False))
 
                 else:
-                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
+                    tofill[-1]["hconcat"].append({"layer": [plotable._options({"mark": m, "encoding": e, "transform": t + thislayer}, config=False) for m, e, t in zip(marks, encodings, transforms)]})
 
                 i += 1
 
-- 
2.43.0


From 5d210be2a120283b8a935fdb6c67c306977f421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:12 +0000
Subject: [PATCH 45/97] fix: colors of overlaid and stacked cut and intbin axes
 refer to the labels in the data

---
 histbook/vega.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 05c502f..b9f1e49 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -560,11 +560,13 @@ class Plotable1d(PlotableFrontends):
                 axis = projectedorder[j]
                 if axis not in domains:
                     domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
 
+                domain.update(axis.keys(content))
+
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
                         if j == lastj and xtype == "quantitative":
@@ -651,14 +653,17 @@ class Plotable1d(PlotableFrontends):
 
         encoding = {"x": {"field": varname + str(axis.index(self._last.axis)), "type": xtype, "scale": {"zero": False}, "axis": {"title": xtitle}},
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
+        def label(x):
+            return ("pass" if x else "fail") if isinstance(x, (bool, numpy.bool_)) else str(x)
+
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [str(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [label(x) for x in sorted(domains[channel.axis])]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [str(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [label(x) for x in sorted(domains[channel.axis])]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
@@ -794,11 +799,13 @@ class Plotable2d(PlotableFrontends):
                 axis = projectedorder[j]
                 if axis not in domains:
                     domains[axis] = set()
-                domains[axis].update(axis.keys(content))
+                domain = domains[axis]
 
                 if isinstance(axis, histbook.axis.intbin):
                     axis = axis.bin()
 
+                domain.update(axis.keys(content))
+
                 for i, (n, x) in enumerate(axis.items(content)):
                     if isinstance(n, histbook.axis.Interval):
                         if j in lastj:
-- 
2.43.0


From 01aaacf702aeead9218e71d81c9623af3b36ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:57 +0000
Subject: [PATCH 46/97] fix: events that are filtered out do not contribute to
 profiles, even if undefined

---
 histbook/hist.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index 786a3f5..beb4687 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -429,6 +429,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 if indexes is None:
                     indexes = numpy.ma.zeros(len(sumx), dtype=histbook.calc.INDEXTYPE)
                 sumwx, sumwx2 = sumx * weight, sumx2 * weight
+                if weight2 is not None:
+                    sumwx[weight == 0] = 0.0        # even if the profile is NaN or infinite
+                    sumwx2[weight == 0] = 0.0
                 selection = numpy.ma.getmask(indexes)
                 if selection is not numpy.ma.nomask:
                     selection = numpy.bitwise_not(selection)
-- 
2.43.0


From 546ef94ac6342b94deff892ff412ee8f84887c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 47/97] fix: error of a profile is zero, not NaN, if rounding
 makes its variance negative

---
 histbook/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/proj.py b/histbook/proj.py
index d73b190..f61987b 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -622,7 +622,7 @@ class Projectable(object):
                 out[good, outindex] = content[good, prof._sumwxindex] / sumw
                 outindex += 1
                 if error:
-                    out[good, outindex] = numpy.sqrt(((content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
+                    out[good, outindex] = numpy.sqrt(numpy.maximum(0, (content[good, prof._sumwx2index] / sumw) - numpy.square(out[good, outindex - 1])) / effcnt)
                     outindex += 1
 
             if recarray:
-- 
2.43.0


From 4f95cfd11579c700a905757c1fa4b9aa13bb19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:37 +0000
Subject: [PATCH 48/97] fix: split with open low edges compares single
 precision values with the edges in double precision

---
 histbook/calc/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index b96bf1a..83cb742 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -295,9 +295,7 @@ library["histbook.intbin__"] = histbook_intbin(False, False)
 
 def histbook_split(underflow, overflow, nanflow, closedlow):
     def split(values, edges):
-        indexes = numpy.ma.array(numpy.digitize(values, edges), dtype=INDEXTYPE)
-        if not closedlow:
-            indexes[library["numpy.isin"](values, edges)] -= 1
+        indexes = numpy.ma.array(numpy.digitize(values, edges, right=(not closedlow)), dtype=INDEXTYPE)
 
         if not overflow:
             indexes[indexes == len(edges)] = numpy.ma.masked
-- 
2.43.0


From 5f61f05c1d1134548a628bb501824ab33471f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:34 +0000
Subject: [PATCH 49/97] fix: constant bit operations are Python integers, whose
 negation doesn't wrap around

---
 histbook/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 8c6d717..4b32339 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -110,9 +110,9 @@ class Expr(object):
                      "//": lambda x, y: int(x // y),
                      "%": lambda x, y: x % y,
                      "**": lambda x, y: x ** y,
-                     "|": lambda x, y: numpy.uint64(x) | numpy.uint64(y),
-                     "&": lambda x, y: numpy.uint64(x) & numpy.uint64(y),
-                     "^": lambda x, y: numpy.uint64(x) ^ numpy.uint64(y)}
+                     "|": lambda x, y: x | y,
+                     "&": lambda x, y: x & y,
+                     "^": lambda x, y: x ^ y}
 
         env = dict(globals())
         def resolve(node):
-- 
2.43.0


From 5165c8bc8d1168f5ecb89b73b176e0ae0f5b852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:36 +0000
Subject: [PATCH 50/97] fix: do not ignore keyword arguments of functions in
 expressions

---
 histbook/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 4b32339..68785e9 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -315,7 +315,7 @@ class Expr(object):
                             fcn = x
                             break
                     
-                if fcn is None:
+                if fcn is None or len(node.keywords) != 0:
                     raise ExpressionError("unhandled function in expression: {0}".format(histbook.util.astunparse.tostring(node).strip()))
 
                 return Call(fcn, *(recurse(x, relations=(i == 0 and fcn == "where")) for i, x in enumerate(node.args)))
-- 
2.43.0


From 6fab10ca93f6e84742b1af575bb99040ca31d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:38 +0000
Subject: [PATCH 51/97] fix: too many arguments of a function raise an error
 instead of overwriting the caller's array

---
 histbook/calc/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 83cb742..b28bec3 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -359,7 +359,10 @@ def calculate(expr, symbols):
         return expr.value
 
     elif isinstance(expr, histbook.expr.Call) and expr.fcn in library:
-        return library[expr.fcn](*(calculate(arg, symbols) for arg in expr.args))
+        fcn = library[expr.fcn]
+        if isinstance(fcn, numpy.ufunc) and len(expr.args) != fcn.nin:      # Numpy would take the next one to be its output
+            raise TypeError("{0} takes {1} arguments but {2} were given".format(expr.fcn, fcn.nin, len(expr.args)))
+        return fcn(*(calculate(arg, symbols) for arg in expr.args))
             
     else:
         raise AssertionError(repr(expr))
-- 
2.43.0


From bf8e6a5176e75e9f24eb5be53f582d5c0c32e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:39 +0000
Subject: [PATCH 52/97] fix: compute function calls whose arguments are all
 constants instead of silently skipping them

---
 histbook/instr.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/histbook/instr.py b/histbook/instr.py
index e650622..818d73b 100644
--- a/histbook/instr.py
+++ b/histbook/instr.py
@@ -234,10 +234,20 @@ def totree(expr):
     else:
         raise AssertionError(expr)
 
+def broadcast(tree):
+    """Gives function calls without any fields, which would otherwise have no source to be computed from, a constant that is broadcast to the length of field data."""
+    if isinstance(tree, histbook.expr.Call):
+        args = [broadcast(x) for x in tree.args]
+        if len(args) > 0 and all(isinstance(x, histbook.expr.Const) for x in args):
+            args[0] = histbook.expr.BroadcastConst(None, args[0].value)
+        return histbook.expr.Call(tree.fcn, *args)
+    else:
+        return tree
+
 class CallGraphGoal(CallGraphNode):
     """Goal node of a call graph: something to histogram."""
     def __init__(self, goal):
-        super(CallGraphGoal, self).__init__(totree(goal))
+        super(CallGraphGoal, self).__init__(broadcast(totree(goal)))
         self.original = goal
 
 def sources(goals, table):
-- 
2.43.0


From 091e32f79686f501353ca5e7ef0f6e76aecbec40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:52 +0000
Subject: [PATCH 53/97] fix: order set constants totally so that and/or terms
 with them have one normal form

---
 histbook/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 68785e9..5d07fa0 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -506,7 +506,9 @@ class Const(Expr):
 
     def __lt__(self, other):
         if self.__class__.__name__ == other.__class__.__name__:
-            if type(self.value).__name__ == type(other.value).__name__:
+            if isinstance(self.value, set) and isinstance(other.value, set):
+                return sorted(self.value) < sorted(other.value)         # for sets, < would be "is a proper subset of"
+            elif type(self.value).__name__ == type(other.value).__name__:
                 return self.value < other.value
             else:
                 return type(self.value).__name__ < type(other.value).__name__
-- 
2.43.0


From ba74f80c765ff10cae5e0e6ff792d61244c1efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:34 +0000
Subject: [PATCH 54/97] fix: a histogram does not share its attachment and defs
 with the caller's dicts

---
 histbook/hist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index beb4687..46fe13a 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -145,16 +145,17 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif "systematic" in attachment:
                 raise ValueError("systematic provided as a keyword option and also found in attachment")
             else:
+                attachment = dict(attachment)
                 attachment["systematic"] = systematic
 
         if defs is None:
             self._defs = {}
         else:
-            self._defs = defs
+            self._defs = dict(defs)
         if attachment is None:
             self._attachment = {}
         else:
-            self._attachment = attachment
+            self._attachment = dict(attachment)
         self._group = []
         self._fixed = []
         self._profile = []
-- 
2.43.0


From 8f7078eafaa5b0e071525a7e0d028571b5560356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:28 +0000
Subject: [PATCH 55/97] fix: a book fill that fails in one histogram does not
 fill the others

---
 histbook/book.py | 5 +++--
 histbook/hist.py | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 53822b5..d092d7f 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -593,8 +593,9 @@ class Book(GenericBook, histbook.fill.Fillable):
                 x._owncontent()
                 x._prefill()
             length = self._fill(arrays)
-            for x in self.itervalues(recursive=True, onlyhist=True):
-                x._postfill(arrays, length)
+            collected = [(x, x._collect(length)) for x in self.itervalues(recursive=True, onlyhist=True)]
+            for x, args in collected:
+                x._accumulate(length, *args)
 
 ################################################################ for constructing fillable views
 
diff --git a/histbook/hist.py b/histbook/hist.py
index 46fe13a..9dfeff9 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -391,6 +391,10 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             self._content = self._zerocontent()
 
     def _postfill(self, arrays, length):
+        self._accumulate(length, *self._collect(length))
+
+    def _collect(self, length):
+        # everything that depends on the input and can fail, before any content is changed
         j = len(self._group)
         step = 0
         indexes = None
@@ -425,6 +429,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 weight[selection] = 0.0
             weight2 = numpy.square(weight)
 
+        return indexes, axissumx, axissumx2, weight, weight2
+
+    def _accumulate(self, length, indexes, axissumx, axissumx2, weight, weight2):
         def fillblock(content, indexes, axissumx, axissumx2, weight, weight2):
             for sumx, sumx2, axis in zip(axissumx, axissumx2, self._profile):
                 if indexes is None:
-- 
2.43.0


From df5148268e9cef9d62412a0c4f17686688b88d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:30 +0000
Subject: [PATCH 56/97] fix: += of books that can not be added changes nothing

---
 histbook/book.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/book.py b/histbook/book.py
index d092d7f..83a5d38 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -460,6 +460,7 @@ class GenericBook(collections.MutableMapping):
         if not isinstance(other, GenericBook):
             raise TypeError("histogram books can only be added to other histogram books")
         
+        self.cleared() + other.cleared()    # raises an error, before changing anything, if they can't be added
         for n, x in other.iteritems():
             if n not in self:
                 self[n] = x.copy()
-- 
2.43.0


From 07deec518c092accd4343fbeae512006fd55e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:32 +0000
Subject: [PATCH 57/97] fix: a SystematicsBook does not keep a histogram that
 it refuses

---
 histbook/book.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index 83a5d38..dafed6e 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -655,3 +655,19 @@ class SystematicsBook(Book):
         if not all(x.has("systematic") for x in self.itervalues(recursive=True, onlyhist=True)):
             raise ValueError("all histograms in a SystematicsBook must have a 'systematic' attachment")
         super(SystematicsBook, self)._changed()
+
+    def _unlessrefused(self, change, *args):
+        books = [self] + [x for x in self.itervalues(recursive=True) if isinstance(x, GenericBook)]
+        before = [x._content.copy() for x in books]
+        try:
+            change(*args)
+        except Exception:
+            for x, content in zip(books, before):
+                x._content = content
+            raise
+
+    def _set(self, name, value, path):
+        self._unlessrefused(super(SystematicsBook, self)._set, name, value, path)
+
+    def _del(self, name, path):
+        self._unlessrefused(super(SystematicsBook, self)._del, name, path)
-- 
2.43.0


From 938e9291f4515ba3b79b8b047747e8b323ef3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:50 +0000
Subject: [PATCH 58/97] fix: tojson and fromjson do not share attachments with
 the JSON object

---
 histbook/book.py | 4 ++--
 histbook/hist.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index dafed6e..9707285 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -183,7 +183,7 @@ class GenericBook(collections.MutableMapping):
             return node
         out = {"type": self.__class__.__name__, "content": [merge(n, x.tojson()) for n, x in self._content.items()]}
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
@@ -195,7 +195,7 @@ class GenericBook(collections.MutableMapping):
                 content[node["name"]] = histbook.hist.Hist.fromjson(node)
             else:
                 content[node["name"]] = GenericBook.fromjson(node)
-        return cls.fromdicts(content, obj.get("attachment", {}))
+        return cls.fromdicts(content, dict(obj.get("attachment", {})))
 
     def __len__(self):
         return len(self._content)
diff --git a/histbook/hist.py b/histbook/hist.py
index 9dfeff9..db8ce09 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -728,7 +728,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if self._filteroriginal is not None:
             out["filter"] = self._filteroriginal
         if self._defs is not None and len(self._defs) != 0:
-            out["defs"] = self._defs
+            out["defs"] = dict(self._defs)
         if self._content is not None:
             def recurse(node):
                 if isinstance(node, dict):
@@ -738,7 +738,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                     return node.tolist()
             out["content"] = recurse(self._content)
         if len(self._attachment) != 0:
-            out["attachment"] = self._attachment
+            out["attachment"] = dict(self._attachment)
         return out
 
     @staticmethod
-- 
2.43.0


From 6d5e3c8dfd6f482ccff5a274aae777436867f5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:04 +0000
Subject: [PATCH 59/97] fix: histograms scaled by a Fraction keep double
 precision contents

---
 histbook/hist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index db8ce09..a1cf42e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -596,7 +596,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif isinstance(content, dict):
                 return dict((n, recurse(x)) for n, x in content.items())
             else:
-                return content * value
+                return content * float(value)
 
         out = self.cleared()
         out._content = recurse(self._content)
@@ -616,7 +616,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 for x in content.values():
                     recurse(x)
             else:
-                content *= value
+                content *= float(value)
 
         self._owncontent()
         recurse(self._content)
-- 
2.43.0


From a9cffd7c037e4e7c87e2feda83104d133996709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:32 +0000
Subject: [PATCH 60/97] fix: histograms with the same contents are equal even
 if a profile sum is NaN

---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index a1cf42e..fc0f91e 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -775,7 +775,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             elif isinstance(one, dict) and isinstance(two, dict):
                 return set(one.keys()) == set(two.keys()) and all(recurse(one[n], two[n]) for n in one)
             elif isinstance(one, numpy.ndarray) and isinstance(two, numpy.ndarray):
-                return numpy.array_equal(one, two)
+                return one.shape == two.shape and bool(((one == two) | (numpy.isnan(one) & numpy.isnan(two))).all())
             else:
                 return False
 
-- 
2.43.0


From 8e00fe6bda79fcc8753f9f963d3b8ace5f319854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:05 +0000
Subject: [PATCH 61/97] fix: intervals have a consistent order (unequal ones
 are either less or greater, NaN is not less than itself)

---
 histbook/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 6faefbe..e751226 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -85,7 +85,7 @@ class Interval(object):
             if isinstance(other, IntervalNaN):
                 return True
             else:
-                return self._low < other._low
+                return (self._low, not self._closedlow, self._high, self._closedhigh) < (other._low, not other._closedlow, other._high, other._closedhigh)
         else:
             return self.__class__ < other.__class__
 
@@ -144,7 +144,7 @@ class IntervalNaN(Interval):
 
     def __lt__(self, other):
         if isinstance(other, Interval):
-            return isinstance(other, IntervalNaN)
+            return False
         else:
             return self.__class__ < other.__class__
 
-- 
2.43.0


From 98f6d48fcea4bdea92700ebf57c16e0b485dfd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:14 +0000
Subject: [PATCH 62/97] fix: the last regular bin ends at exactly the high edge
 where the overflow begins

---
 histbook/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/axis.py b/histbook/axis.py
index e751226..307063c 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -773,6 +773,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
     def keys(self, content=None):
         """Returns key labels in the order of the bin content, to index the content."""
         def i2x(i):
+            if i == self._numbins:
+                return float(self._high)        # exactly, so that it adjoins the overflow
             return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
                              [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
-- 
2.43.0


From 91f9ba8e3c494dd97c79efa7a9d1c68e836f635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 63/97] fix: a cut on numbers counts nonzero as passing instead
 of using the number as an index

---
 histbook/calc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index b28bec3..65d1269 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -330,7 +330,7 @@ library["histbook.split__NH"] = histbook_split(False, False, True, False)
 library["histbook.split___L"] = histbook_split(False, False, False, True)
 library["histbook.split___H"] = histbook_split(False, False, False, False)
 
-library["histbook.cut"] = lambda values: numpy.ma.array(values, dtype=INDEXTYPE)
+library["histbook.cut"] = lambda values: numpy.ma.array(numpy.asarray(values, dtype=numpy.bool_), dtype=INDEXTYPE)    # an index must be 0 or 1
 
 def calculate(expr, symbols):
     u"""
-- 
2.43.0


From 1e82cbdbcc6becce37a7f4cfc9e8b83a5238fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:08 +0000
Subject: [PATCH 64/97] fix: a fill with unhashable categories leaves no empty
 groups behind

---
 histbook/hist.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/hist.py b/histbook/hist.py
index fc0f91e..cd13a73 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -395,6 +395,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def _collect(self, length):
         # everything that depends on the input and can fail, before any content is changed
+        for uniques, inverse in self._destination[0][:len(self._group)]:
+            for unique in uniques:
+                hash(unique)
         j = len(self._group)
         step = 0
         indexes = None
-- 
2.43.0


From df4815bd92bcb9ab7b2bb4d489b9783441fcbe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 65/97] fix: error bars of label and bar axes are drawn on the
 same kind of axis as the marks

---
 histbook/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index b9f1e49..1e8f102 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -712,7 +712,7 @@ class Plotable1d(PlotableFrontends):
             else:
                 errx = varname + str(axis.index(self._last.axis))
 
-            encoding2 = {"x": {"field": errx, "type": "quantitative"},
+            encoding2 = {"x": {"field": errx, "type": xtype},
                          "y": {"field": "error-down", "type": "quantitative"},
                          "y2": {"field": "error-up", "type": "quantitative"}}
 
-- 
2.43.0


From 1d1e7b1de4f5e64c684f479962a795c3ef7c08d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:19 +0000
Subject: [PATCH 66/97] fix: plots find the profile named by an expression even
 if a binning axis has the same expression

---
 histbook/vega.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index 1e8f102..b18897d 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -208,6 +208,12 @@ class PlottingChain(object):
         else:
             return self._source.axis[axis]
 
+    def _asprofile(self, profile):
+        if profile is None or isinstance(profile, (histbook.axis.Axis, numbers.Integral, numpy.integer)):
+            return self._asaxis(profile)
+        else:
+            return self._source.axis.profile(profile)
+
     def overlay(self, axis):
         """
         Display bins in ``axis`` overlaid on each other in different colors.
@@ -306,7 +312,7 @@ class PlottingChain(object):
         """
         if error and any(isinstance(x, (BesideChannel, BelowChannel)) for x in self._chain):
             raise NotImplementedError("error bars are currently incompatible with splitting beside or below")
-        return Plotable1d(self, BarChannel(self._asaxis(self._singleaxis(axis)), self._asaxis(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
+        return Plotable1d(self, BarChannel(self._asaxis(self._singleaxis(axis)), self._asprofile(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
 
     def step(self, axis=None, profile=None, error=False, normalized=False, width=None, height=None, title=None, config=None, xscale=None, yscale=None, colorscale=None, shapescale=None):
         """
@@ -337,7 +343,7 @@ class PlottingChain(object):
             raise TypeError("only area and bar can be stacked")
         if error and any(isinstance(x, (BesideChannel, BelowChannel)) for x in self._chain):
             raise NotImplementedError("error bars are currently incompatible with splitting beside or below")
-        return Plotable1d(self, StepChannel(self._asaxis(self._singleaxis(axis)), self._asaxis(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
+        return Plotable1d(self, StepChannel(self._asaxis(self._singleaxis(axis)), self._asprofile(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
 
     def area(self, axis=None, profile=None, error=False, normalized=False, width=None, height=None, title=None, config=None, xscale=None, yscale=None, colorscale=None, shapescale=None):
         """
@@ -366,7 +372,7 @@ class PlottingChain(object):
         """
         if error and any(isinstance(x, (BesideChannel, BelowChannel)) for x in self._chain):
             raise NotImplementedError("error bars are currently incompatible with splitting beside or below")
-        return Plotable1d(self, AreaChannel(self._asaxis(self._singleaxis(axis)), self._asaxis(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
+        return Plotable1d(self, AreaChannel(self._asaxis(self._singleaxis(axis)), self._asprofile(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
 
     def line(self, axis=None, profile=None, error=False, normalized=False, width=None, height=None, title=None, config=None, xscale=None, yscale=None, colorscale=None, shapescale=None):
         """
@@ -397,7 +403,7 @@ class PlottingChain(object):
             raise TypeError("only area and bar can be stacked")
         if error and any(isinstance(x, (BesideChannel, BelowChannel)) for x in self._chain):
             raise NotImplementedError("error bars are currently incompatible with splitting beside or below")
-        return Plotable1d(self, LineChannel(self._asaxis(self._singleaxis(axis)), self._asaxis(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
+        return Plotable1d(self, LineChannel(self._asaxis(self._singleaxis(axis)), self._asprofile(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
 
     def marker(self, axis=None, profile=None, error=True, normalized=False, width=None, height=None, title=None, config=None, xscale=None, yscale=None, colorscale=None, shapescale=None):
         """
@@ -428,7 +434,7 @@ class PlottingChain(object):
             raise TypeError("only area and bar can be stacked")
         if error and any(isinstance(x, (BesideChannel, BelowChannel)) for x in self._chain):
             raise NotImplementedError("error bars are currently incompatible with splitting beside or below")
-        return Plotable1d(self, MarkerChannel(self._asaxis(self._singleaxis(axis)), self._asaxis(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
+        return Plotable1d(self, MarkerChannel(self._asaxis(self._singleaxis(axis)), self._asprofile(profile), error, normalized, width, height, title, config, xscale, yscale, colorscale, shapescale))
 
     def heatmap(self, xaxis=None, yaxis=None, profile=None, width=None, height=None, title=None, config=None, xscale=None, yscale=None, colorscale=None):
         """
@@ -465,7 +471,7 @@ class PlottingChain(object):
         elif xaxis is None or yaxis is None:
             raise TypeError("xaxis and yaxis must both be None or neither be None")
 
-        return Plotable2d(self, HeatmapChannel(self._asaxis(xaxis), self._asaxis(yaxis), self._asaxis(profile), width, height, title, config, xscale, yscale, colorscale))
+        return Plotable2d(self, HeatmapChannel(self._asaxis(xaxis), self._asaxis(yaxis), self._asprofile(profile), width, height, title, config, xscale, yscale, colorscale))
 
 class PlotableFrontends(object):
     def to(self, fcn):
-- 
2.43.0


From a064a19d992de585b460b0bd6d3825f9cd35f865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:22 +0000
Subject: [PATCH 67/97] fix: histograms without any groups yet can be overlaid
 and stacked

---
 histbook/vega.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/vega.py b/histbook/vega.py
index b18897d..f4651f0 100644
--- a/histbook/vega.py
+++ b/histbook/vega.py
@@ -655,7 +655,7 @@ class Plotable1d(PlotableFrontends):
             elif len(values) > 1:
                 return "if(datum.{0} === {1}, {2}, {3})".format(var, repr(values[0]), i, makeorder(i + 1, var, values[1:]))
             else:
-                raise AssertionError(values)
+                return str(i)       # nothing filled, nothing to order
 
         encoding = {"x": {"field": varname + str(axis.index(self._last.axis)), "type": xtype, "scale": {"zero": False}, "axis": {"title": xtitle}},
                     "y": {"field": varname + str(len(axis)), "type": "quantitative", "axis": {"title": ytitle}}}
@@ -664,12 +664,12 @@ class Plotable1d(PlotableFrontends):
 
         for channel in self._chain[:-1]:
             if isinstance(channel, OverlayChannel):
-                overlayorder = [label(x) for x in sorted(domains[channel.axis])]
+                overlayorder = [label(x) for x in sorted(domains.get(channel.axis, ()))]
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": overlayorder}}
 
             elif isinstance(channel, StackChannel):
                 if channel.order is None:
-                    stackorder = [label(x) for x in sorted(domains[channel.axis])]
+                    stackorder = [label(x) for x in sorted(domains.get(channel.axis, ()))]
                 else:
                     stackorder = channel.order
                 encoding["color"] = {"field": varname + str(axis.index(channel.axis)), "type": "nominal", "legend": {"title": channel.axis.expr}, "scale": {"domain": list(reversed(stackorder))}}
-- 
2.43.0


From 9fd2d314480fad3b7ef41b6bb2746f3e83e596f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:37 +0000
Subject: [PATCH 68/97] fix: narrow bins far from zero have distinct labels
 (plots merged bins of the same label)

---
 histbook/axis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 307063c..5b5eb73 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -71,11 +71,14 @@ class Interval(object):
         """If ``True``, the interval includes the high edge."""
         return self._closedhigh
 
-    def _num(self, n):
-        return "{0:4g}".format(n).strip()
+    def _num(self, n, digits):
+        return "{0:.{1}g}".format(float(n), digits)
 
     def __str__(self):
-        return "{0}{1}, {2}{3}".format(("[" if self._closedlow else "("), (" " if self._low == float("-inf") else "") + self._num(self._low), self._num(self._high), ("]" if self._closedhigh else ")"))
+        digits = 6
+        while digits < 17 and self._low != self._high and self._num(self._low, digits) == self._num(self._high, digits):
+            digits += 1         # enough to tell the edges (and hence the bins of an axis) apart
+        return "{0}{1}, {2}{3}".format(("[" if self._closedlow else "("), (" " if self._low == float("-inf") else "") + self._num(self._low, digits), self._num(self._high, digits), ("]" if self._closedhigh else ")"))
 
     def __eq__(self, other):
         return self.__class__ == other.__class__ and self._low == other._low and self._high == other._high and self._closedlow == other._closedlow and self._closedhigh == other._closedhigh
-- 
2.43.0


From 9f8406ab963de1f69a3c76764e55df822c53d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:01 +0000
Subject: [PATCH 69/97] fix: compatible is False, not an AttributeError, for a
 book against a histogram

---
 histbook/book.py | 2 +-
 histbook/hist.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 9707285..446963a 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -152,7 +152,7 @@ class GenericBook(collections.MutableMapping):
 
     def compatible(self, other):
         """Returns True if the books have the same set of histogram names and those histograms with matching names are compatible."""
-        return set(self.iterkeys()) == set(other.iterkeys()) and all(self[n].compatible(other[n]) for n in self.iterkeys())
+        return isinstance(other, GenericBook) and set(self.iterkeys()) == set(other.iterkeys()) and all(self[n].compatible(other[n]) for n in self.iterkeys())
 
     def assertcompatible(self):
         """Raises ``ValueError`` if not all books have the same set of histogram names and those histograms with matching names are compatible."""
diff --git a/histbook/hist.py b/histbook/hist.py
index cd13a73..67ed1f8 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -789,7 +789,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
     def compatible(self, other):
         """Returns True if the histograms have the same non-profile axis types and binning, regardless of the expressions used to compute them."""
-        return len(self._group) == len(other._group) and len(self._fixed) == len(other._fixed) and all(y.compatible(z) for y, z in zip(self._group + self._fixed, other._group + other._fixed))
+        return isinstance(other, Hist) and len(self._group) == len(other._group) and len(self._fixed) == len(other._fixed) and all(y.compatible(z) for y, z in zip(self._group + self._fixed, other._group + other._fixed))
 
     def __getitem__(self, where):
         if not isinstance(where, tuple):
-- 
2.43.0


From 67f515c4b3706e31740b701c511e3df2a71d865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:16 +0000
Subject: [PATCH 70/97] fix: pandas() of fractions without binned axes (the
 values were lost) or without any axes

---
 histbook/export.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index fe38c83..e44bc73 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -73,7 +73,7 @@ class Exportable(object):
 
         def index(j, content, key):
             if j == len(allaxis):
-                if len(self._fixed) == 0:
+                if not any(isinstance(x, histbook.axis.FixedAxis) for x in allaxis):
                     arrays.append(numpy.array([content]))
 
                 for j, k in enumerate(key):
@@ -146,14 +146,15 @@ class Exportable(object):
 
         index(0, content, ())
 
+        multiindex = pd.MultiIndex.from_arrays(keys, names=names) if len(allaxis) > 0 else None
         if len(arrays) == 0:
-            return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
+            return pd.DataFrame(index=multiindex,
                                 columns=columns)
         else:
             arrays = numpy.concatenate(arrays)
-            return pd.DataFrame(index=pd.MultiIndex.from_arrays(keys, names=names),
+            return pd.DataFrame(index=multiindex,
                                 columns=arrays.dtype.names,
-                                data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(len(keys[0]), -1))
+                                data=arrays.view(arrays.dtype[arrays.dtype.names[0]]).reshape(-1, len(arrays.dtype.names)))
 
     def root(self, *axis, **opts):
         """
-- 
2.43.0


From 0c8b3e274dfec7a3d93918a268828d841da1230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:19 +0000
Subject: [PATCH 71/97] fix: pandas() of a groupbin axis with a NaN bin (raised
 TypeError)

---
 histbook/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/export.py b/histbook/export.py
index e44bc73..9abfe2e 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -89,7 +89,7 @@ class Exportable(object):
 
                 elif isinstance(axis, histbook.axis.groupbin):
                     closed = "left" if axis.closedlow else "right"
-                    for n in sorted(content):
+                    for n in sorted(content, key=lambda x: (x == "NaN", x)):
                         if n == "NaN":
                             index(j + 1, content[n], key + ("{NaN}",))
                         else:
-- 
2.43.0


From 923d268260ee99d607ca7cd06023cee7632c773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:21 +0000
Subject: [PATCH 72/97] fix: root() exports the edges of a split axis (as if
 regular) and intbin axes (raised AttributeError)

---
 histbook/export.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/histbook/export.py b/histbook/export.py
index 9abfe2e..be30790 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -253,9 +253,15 @@ class Exportable(object):
 
         elif len(binaxis) == 1:
             xaxis = binaxis[0]
+            if isinstance(xaxis, histbook.axis.intbin):
+                xaxis = xaxis.bin()
+            if isinstance(xaxis, histbook.axis.split):
+                limits = (numpy.array(xaxis.edges, dtype=numpy.float64),)
+            else:
+                limits = (xaxis.low, xaxis.high)
 
             if profile is None:
-                out = ROOT.TH1D(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TH1D(name, title, xaxis.numbins, *limits)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content["count()"][: (-1 if xaxis.nanflow else None)]
@@ -268,7 +274,7 @@ class Exportable(object):
                     out.SetError(errors)
 
             else:
-                out = ROOT.TProfile(name, title, xaxis.numbins, xaxis.low, xaxis.high)
+                out = ROOT.TProfile(name, title, xaxis.numbins, *limits)
 
                 entries = numpy.zeros(xaxis.numbins + 2, dtype=numpy.float64)
                 entries[(0 if xaxis.underflow else 1) : (None if xaxis.overflow else -1)] = content[content.dtype.names[0]][: (-1 if xaxis.nanflow else None)]
-- 
2.43.0


From 4c77f12ec10e41894843cdf224e25b28de400680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:52 +0000
Subject: [PATCH 73/97] fix: Book.fill fills a histogram that has two names in
 the book once (twice, or TypeError after a half fill with group axes)

---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index 446963a..9b97c30 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -594,7 +594,8 @@ class Book(GenericBook, histbook.fill.Fillable):
                 x._owncontent()
                 x._prefill()
             length = self._fill(arrays)
-            collected = [(x, x._collect(length)) for x in self.itervalues(recursive=True, onlyhist=True)]
+            distinct = collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True))   # one histogram may have several names
+            collected = [(x, x._collect(length)) for x in distinct.values()]
             for x, args in collected:
                 x._accumulate(length, *args)
 
-- 
2.43.0


From aacae5e262cee6c823def7874d3fab4e71a92d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:00 +0000
Subject: [PATCH 74/97] fix: histograms unpickled, deep-copied or
 shallow-copied together with their copyonfill() share no bins

---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 67ed1f8..fac8d1b 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -768,7 +768,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
     def __setstate__(self, state):
         packed, weight, filter, defs, content, attachment = state
         self.__init__(*[histbook.axis.Axis._unpack(x) for x in packed], weight=weight, filter=filter, defs=defs, attachment=attachment)
-        self._content = content
+        self._content = Hist._copycontent(content)      # pickle and copy keep sharing what was shared (copyonfill)
 
     def __eq__(self, other):
         def recurse(one, two):
-- 
2.43.0


From 0c057f9971f4d041f48a447573e3917b51fa98b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:33 +0000
Subject: [PATCH 75/97] fix: a book that is pickled or deep-copied after a fill
 can be filled (filled all bins, or raised TypeError)

---
 histbook/book.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/book.py b/histbook/book.py
index 9b97c30..6f63cb0 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -528,6 +528,9 @@ class Book(GenericBook, histbook.fill.Fillable):
     def _changed(self):
         self._fields = None
 
+    def __getstate__(self):
+        return {"_content": self._content, "_attachment": self._attachment, "_fields": None}    # compiled instructions refer to these histograms, not to their copies
+
     @property
     def fields(self):
         """Names of fields that must be provided in the ``fill`` method."""
-- 
2.43.0


From 53bb98376222ac60a29ab317cb6069b37779279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:36 +0000
Subject: [PATCH 76/97] fix: bin and groupbin refuse edges, widths and origins
 that are not finite, split refuses NaN edges (were accepted, without meaning)

---
 histbook/axis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 5b5eb73..20c98ee 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -358,9 +358,11 @@ class groupbin(GroupAxis, _RebinFactor):
     def __init__(self, expr, binwidth, origin=0, nanflow=True, closedlow=True):
         self._expr = expr
         self._binwidth = self._real(binwidth, "binwidth")
-        if self._binwidth <= 0:
-            raise ValueError("binwidth must be positive")
+        if not self._binwidth > 0 or not numpy.isfinite(self._binwidth):
+            raise ValueError("binwidth must be positive and finite")
         self._origin = self._real(origin, "origin")
+        if not numpy.isfinite(self._origin):
+            raise ValueError("origin must be finite")
         self._nanflow = self._bool(nanflow, "nanflow")
         self._closedlow = self._bool(closedlow, "closedlow")
 
@@ -565,6 +567,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         self._numbins = self._nonnegint(numbins, "numbins")
         self._low = self._real(low, "low")
         self._high = self._real(high, "high")
+        if not numpy.isfinite(self._low) or not numpy.isfinite(self._high):
+            raise ValueError("low and high must be finite")
         if (self._numbins > 0 and self._low >= self._high) or (self._low > self._high):
             raise ValueError("low must not be greater than than high")
         self._underflow = self._bool(underflow, "underflow")
@@ -1034,6 +1038,8 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
             if len(edges) < 1 or not all(isinstance(x, (numbers.Real, numpy.floating)) for x in edges):
                 raise TypeError("edges must be a non-empty list of real numbers")
             self._edges = tuple(sorted(float(x) for x in edges),)
+        if any(numpy.isnan(x) for x in self._edges):
+            raise ValueError("edges must not be NaN")
         if len(self._edges) != len(set(self._edges)):
             raise ValueError("edges must all be distinct")
         self._underflow = self._bool(underflow, "underflow")
-- 
2.43.0


From fa71fb70ab8159b1c5c26c1b84fb142e5f0c2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 77/97] fix: split.binwidth refuses every index that is out of
 bounds (negative ones gave another bin's width)

---
 histbook/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 20c98ee..333ce29 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -1113,7 +1113,7 @@ class split(FixedAxis, _RebinFactor, _RebinSplit):
         else:
             normindex = index
 
-        if normindex >= self.numbins:
+        if not 0 <= normindex < self.numbins:
             raise IndexError("index {0} out of bounds for split with {1} finite bins".format(index, self.numbins))
 
         return self._edges[normindex + 1] - self._edges[normindex]
-- 
2.43.0


From 08b94d367a6952f86116a3cf9d42510cd5b782ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:28 +0000
Subject: [PATCH 78/97] fix: Hist(fill=array) takes the array as the only
 field, as documented (refused for an axis of an expression, or two axes of
 one field)

---
 histbook/hist.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index fac8d1b..68b4249 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -264,10 +264,11 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
 
         if fill is not None:
             if not histbook.calc.spark.isspark(fill, {}) and not isinstance(fill, dict):
-                if len(self._group + self._fixed + self._profile) == 1:
-                    fill = {str((self._group + self._fixed + self._profile)[0]._parsed): fill}
+                fields = [x for x in self.fields if x not in histbook.expr.Expr.maybeconstants] or self.fields
+                if len(fields) == 1:
+                    fill = {fields[0]: fill}
                 else:
-                    raise TypeError("fill must be a dict for histograms of more than one axis")
+                    raise TypeError("fill must be a dict for histograms of more than one field")
             self.fill(fill)
 
     @property
-- 
2.43.0


From 0c27184d8e293b3ecec1b93f9d63e779d5e431a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:04 +0000
Subject: [PATCH 79/97] fix: fraction refuses an unknown error option (showed
 errors of zero)

---
 histbook/proj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/histbook/proj.py b/histbook/proj.py
index f61987b..aef77e0 100644
--- a/histbook/proj.py
+++ b/histbook/proj.py
@@ -683,6 +683,8 @@ class Projectable(object):
         showcolumns = opts.pop("columns", False)
         if len(opts) > 0:
             raise TypeError("unrecognized options for Hist.table: {0}".format(" ".join(opts)))
+        if error and error not in ("clopper-pearson", "normal", "wilson", "agresti-coull", "feldman-cousins", "jeffrey", "bayesian-uniform"):
+            raise ValueError("unrecognized error option for Hist.fraction: {0}".format(error))
 
         self._prefill()
 
-- 
2.43.0


From d5e45a97dfdb5cbf14513e9ab994558ed8140818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:27 +0000
Subject: [PATCH 80/97] fix: exact edges of a bin axis are computed exactly
 (bin('x', 100, -1, 49) had an edge at 13.499999999999998)

---
 histbook/axis.py   | 18 ++++++++++--------
 histbook/export.py |  3 +--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/histbook/axis.py b/histbook/axis.py
index 333ce29..0cad26d 100644
--- a/histbook/axis.py
+++ b/histbook/axis.py
@@ -665,8 +665,14 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         """Returns a :py:class:bin` <histbook.axis.bin>` with a new ``expr``."""
         return bin(label, self._numbins, self._low, self._high, underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
 
+    def _edge(self, i):
+        # multiplied before it is divided: an edge that has an exact representation comes out exactly
+        if i == self._numbins:
+            return float(self._high)        # exactly, so that it adjoins the overflow
+        return float(i) * float(self._high - self._low) / float(self._numbins) + float(self._low)
+
     def split(self):
-        splitaxis = split(self._expr, [(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(self._numbins)] + [self._high], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
+        splitaxis = split(self._expr, [self._edge(i) for i in range(self._numbins + 1)], underflow=self._underflow, overflow=self._overflow, nanflow=self._nanflow, closedlow=self._closedlow)
         if hasattr(self, "_original"):
             splitaxis._original = self._original
         if hasattr(self, "_parsed"):
@@ -695,7 +701,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
 
     def _rebinfactor(self, factor, content, index):
         assert factor > 0
-        return self._rebinsplit([(float(i) / float(self._numbins)) * (self._high - self._low) + self._low for i in range(0, self._numbins, factor)] + [self._high], content, index)
+        return self._rebinsplit([self._edge(i) for i in range(0, self._numbins, factor)] + [self._high], content, index)
 
     def _select(self, cmp, value, tolerance):
         if value == float("-inf") and cmp == ">=":
@@ -732,7 +738,7 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
         elif isinstance(value, (numbers.Real, numpy.floating, numpy.integer)) and numpy.isfinite(value):
             scale = float(self._numbins) / float(self._high - self._low) if self._numbins > 0 else 1.0
             edgenum = int(round((value - float(self._low)) * scale))
-            close = min(self._numbins, max(0, edgenum)) / scale + float(self._low)
+            close = self._edge(min(self._numbins, max(0, edgenum)))
 
             if abs(value - close) < tolerance:
                 out = self.__class__.__new__(self.__class__)
@@ -779,12 +785,8 @@ class bin(FixedAxis, _RebinFactor, _RebinSplit):
 
     def keys(self, content=None):
         """Returns key labels in the order of the bin content, to index the content."""
-        def i2x(i):
-            if i == self._numbins:
-                return float(self._high)        # exactly, so that it adjoins the overflow
-            return (float(i) / float(self._numbins)) * float(self._high - self._low) + float(self._low)
         return IntervalTuple(([Interval(float("-inf"), float(self._low), closedlow=True, closedhigh=(not self._closedlow))] if self.underflow else []) +
-                             [Interval(i2x(i), i2x(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
+                             [Interval(self._edge(i), self._edge(i + 1), closedlow=self._closedlow, closedhigh=(not self._closedlow)) for i in range(self._numbins)] +
                              ([Interval(float(self._high), float("inf"), closedlow=self._closedlow, closedhigh=True)] if self.overflow else []) +
                              ([IntervalNaN()] if self.nanflow else []))
             
diff --git a/histbook/export.py b/histbook/export.py
index be30790..cbea43d 100644
--- a/histbook/export.py
+++ b/histbook/export.py
@@ -104,8 +104,7 @@ class Exportable(object):
                         if axis.underflow:
                             index(j + 1, None, key + (pd.Interval(float("-inf"), axis.low, closed=closed),))
                         last = axis.low
-                        for i in range(axis.numbins):
-                            this = (float(i + 1) / float(axis.numbins)) * float(axis.high - axis.low) + float(axis.low)
+                        for this in axis.split().edges[1:]:
                             index(j + 1, None, key + (pd.Interval(last, this, closed=closed),))
                             last = this
                         if axis.overflow:
-- 
2.43.0


From 4501c06f9613fb9698d22f7084f35b6745c31851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 81/97] fix: a value at an edge of a bin axis is counted above
 (closedlow) or below it, whatever the rounding (49 in bin('x', 2, 0, 98))

---
 histbook/calc/__init__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index 65d1269..d8a0b63 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -225,11 +225,21 @@ def histbook_bin(underflow, overflow, nanflow, closedlow):
 
         if closedlow:
             numpy.floor(indexes, indexes)
-            if shift != 0:
-                numpy.add(indexes, shift, indexes)
         else:
             numpy.ceil(indexes, indexes)
-            numpy.add(indexes, shift - 1, indexes)
+            numpy.subtract(indexes, 1, indexes)
+
+        if numbins > 0:
+            # rounding can put a value at an edge, or next to it, into the wrong bin
+            def edge(i):
+                return numpy.where(i == numbins, float(high), i * float(high - low) / float(numbins) + float(low))
+
+            with numpy.errstate(invalid="ignore", over="ignore"):
+                numpy.subtract(indexes, (values < edge(indexes)) if closedlow else (values <= edge(indexes)), indexes)
+                numpy.add(indexes, (values >= edge(indexes + 1)) if closedlow else (values > edge(indexes + 1)), indexes)
+
+        if shift != 0:
+            numpy.add(indexes, shift, indexes)
 
         out = numpy.ma.array(numpy.clip(indexes, -1, numbins + shift), dtype=INDEXTYPE)
         with numpy.errstate(invalid="ignore"):
-- 
2.43.0


From c923f46ca97da61e0a37a8e6307643a3aeabd9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:20 +0000
Subject: [PATCH 82/97] fix: a value at an edge of a groupbin axis is counted
 above (closedlow) or below it, whatever the rounding (49 in groupbin('x',
 49))

---
 histbook/calc/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/histbook/calc/__init__.py b/histbook/calc/__init__.py
index d8a0b63..0c1087a 100644
--- a/histbook/calc/__init__.py
+++ b/histbook/calc/__init__.py
@@ -174,6 +174,13 @@ def histbook_groupbin(nanflow, closedlow):
             numpy.ceil(indexes, indexes)
             numpy.subtract(indexes, 1, indexes)
 
+        # rounding can put a value at an edge, or next to it, into the wrong bin
+        with numpy.errstate(invalid="ignore", over="ignore"):
+            edges = indexes * float(binwidth) + float(origin)
+            numpy.subtract(indexes, (values < edges) if closedlow else (values <= edges), indexes)
+            edges = (indexes + 1) * float(binwidth) + float(origin)
+            numpy.add(indexes, (values >= edges) if closedlow else (values > edges), indexes)
+
         numpy.multiply(indexes, float(binwidth), indexes)
         if origin != 0:
             numpy.add(indexes, float(origin), indexes)
-- 
2.43.0


From c68a5eedd26db450b03f78d467c80d0db86aa7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:41 +0000
Subject: [PATCH 83/97] fix: the definitions of a histogram apply to axes taken
 from another histogram, too

---
 histbook/hist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 68b4249..09058bc 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -166,7 +166,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
                 newaxis.append(old)
             else:
                 new = old.copy()
-                new._parsed = old._parsed if hasattr(old, "_parsed") else histbook.expr.Expr.parse(old._expr, defs=defs)
+                new._parsed = histbook.expr.Expr.parse(old._expr, defs=defs)
                 newaxis.append(new)
 
         self._goals = set()
-- 
2.43.0


From da888401e8c74aca48c9b0ee07ea76955465ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:36 +0000
Subject: [PATCH 84/97] fix: histograms whose axes are defined differently
 can't be added or grouped

---
 histbook/hist.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/histbook/hist.py b/histbook/hist.py
index 09058bc..c0fd747 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -512,11 +512,15 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         for j in range(len(self._destination[0])):
             self._destination[0][j] = None
 
+    def _axismeanings(self, start=0):
+        # with the definitions substituted: axes of the same name can be different expressions
+        return [(x, getattr(x, "_parsed", None)) for x in (self._group + self._fixed + self._profile)[start:]]
+
     def __add__(self, other):
         if not isinstance(other, Hist):
             raise TypeError("histograms can only be added to other histograms")
 
-        if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
+        if self._axismeanings() != other._axismeanings():
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
         if self._shape != other._shape:
@@ -556,7 +560,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if not isinstance(other, Hist):
             raise TypeError("histograms can only be added to other histograms")
 
-        if self._group + self._fixed + self._profile != other._group + other._fixed + other._profile:
+        if self._axismeanings() != other._axismeanings():
             raise TypeError("histograms can only be added to other histograms with the same axis specifications")
 
         if self._shape != other._shape:
@@ -650,7 +654,8 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             hist = x
             if axis is None:
                 axis = x._group + x._fixed + x._profile
-            elif axis != x._group + x._fixed + x._profile:
+                meanings = x._axismeanings()
+            elif meanings != x._axismeanings():
                 raise TypeError("histograms can only be grouped with the same axis specifications")
             
         if axis is None:
@@ -696,7 +701,7 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
             raise TypeError("only histograms can be grouped")
 
         for x in hists.values():
-            if self._group[1:] + self._fixed + self._profile != x._group + x._fixed + x._profile:
+            if self._axismeanings(1) != x._axismeanings():
                 raise TypeError("histograms can only be grouped with the same axis specifications")
             if self._shape != x._shape:
                 raise TypeError("histograms can only be grouped with the same weight specifications")
-- 
2.43.0


From 0d191b46ce7668d012b12651651e45f5fc858673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:40 +0000
Subject: [PATCH 85/97] fix: arrays that are not one-dimensional can't be
 filled (intbin counted all of their elements)

---
 histbook/fill.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/histbook/fill.py b/histbook/fill.py
index 821c0e2..2a3d123 100644
--- a/histbook/fill.py
+++ b/histbook/fill.py
@@ -140,6 +140,9 @@ class Fillable(object):
                 if array.shape == ():
                     array = full(length, array)
 
+                if len(array.shape) != 1:
+                    raise ValueError("array {0} is not one-dimensional".format(repr(str(instruction.extern))))
+
                 if length != array.shape[0]:
                     raise ValueError("array {0} has len {1} but other arrays have len {2}".format(repr(str(instruction.extern)), len(array), length))
 
-- 
2.43.0


From 8d2a3a3d7ef048b6890e8109e0eb15e811455c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 86/97] fix: groups can be filled from a Spark DataFrame
 (AttributeError)

---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 46f6562..5b98449 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -269,7 +269,7 @@ def fillspark(hist, df):
         elif isinstance(nextaxis, histbook.axis.GroupAxis):
             return {}
         else:
-            return numpy.zeros(hist._shape, dtype=histbook.hist.COUNTTYPE)
+            return numpy.zeros(hist._shape, dtype=hist.COUNTTYPE)
 
     def recurse(index, columns, axis, content):
         if len(axis) == 0:
-- 
2.43.0


From 38920c196d3fc612ebbe8d7404f9819e681884b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 87/97] fix: a filter without a weight applies to Spark
 DataFrames, too

---
 histbook/calc/spark.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 5b98449..3696397 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -241,18 +241,18 @@ def fillspark(hist, df):
     index = alias(fcns.struct(*indexes))
 
     selectcols = [index]
-    if hist._weightoriginal is not None:
+    if hist._weightparsed is not None:
         weightcol = tocolumns(df, histbook.instr.totree(hist._weightparsed))
     for axis in hist._profile:
         exprcol = tocolumns(df, histbook.instr.totree(axis._parsed))
-        if hist._weightoriginal is None:
+        if hist._weightparsed is None:
             selectcols.append(alias(exprcol))
             selectcols.append(alias(exprcol*exprcol))
         else:
             selectcols.append(alias(exprcol*weightcol))
             selectcols.append(alias(exprcol*exprcol*weightcol))
 
-    if hist._weightoriginal is None:
+    if hist._weightparsed is None:
         df2 = df.select(*selectcols)
     else:
         selectcols.append(alias(weightcol))
@@ -260,7 +260,7 @@ def fillspark(hist, df):
         df2 = df.select(*selectcols)
 
     aggs = [fcns.sum(df2[n]) for n in df2.columns[1:]]
-    if hist._weightoriginal is None:
+    if hist._weightparsed is None:
         aggs.append(fcns.count(df2[df2.columns[0]]))
 
     def getornew(content, key, nextaxis):
-- 
2.43.0


From 92025ea8804473537b385ae8bf7bf33cd83834a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 88/97] fix: set membership in Spark DataFrames (ValueError)

---
 histbook/calc/spark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 3696397..d71dfbc 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -166,7 +166,7 @@ def tocolumns(df, expr):
         elif expr.fcn == "numpy.less_equal":
             return tocolumns(df, expr.args[0]) <= tocolumns(df, expr.args[1])
         elif expr.fcn == "numpy.isin":
-            return tocolumns(df, expr.args[0]) in tocolumns(df, expr.args[1])
+            return tocolumns(df, expr.args[0]).isin(*expr.args[1].value)
         elif expr.fcn == "numpy.logical_not":
             return ~tocolumns(df, expr.args[0])
         elif expr.fcn == "numpy.add":
-- 
2.43.0


From 10762bdedc22c63d35918588aaefbe9ce0eb0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 89/97] fix: a modulus in Spark DataFrames has the sign of the
 divisor, as in Python

---
 histbook/calc/spark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index d71dfbc..0d0c711 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -148,7 +148,8 @@ def tocolumns(df, expr):
         elif expr.fcn == "logaddexp":
             raise NotImplementedError(expr.fcn)  # FIXME
         elif expr.fcn == "mod" or expr.fcn == "fmod":
-            return tocolumns(df, expr.args[0]) % tocolumns(df, expr.args[1])
+            left, right = tocolumns(df, expr.args[0]), tocolumns(df, expr.args[1])
+            return (left % right + right) % right      # with the sign of the divisor, as in Python
         elif expr.fcn == "right_shift" and isinstance(expr.args[1], histbook.expr.Const):
             return fcns.shiftRight(tocolumns(df, expr.args[0]), expr.args[1].value)
         elif expr.fcn == "rint":
-- 
2.43.0


From 648078af58d032208cd965157b4c7c76cce83d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 90/97] fix: overflow and numbers that are not integers in an
 intbin axis filled from a Spark DataFrame

---
 histbook/calc/spark.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 0d0c711..0c0cd9d 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -215,7 +215,9 @@ def fillspark(hist, df):
             indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), int(axis.numbins) + 2).otherwise(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.numbins) + 1), discretized))))
 
         elif isinstance(axis, histbook.axis.intbin):
-            indexes.append(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.max) - int(axis.min) + 1), fcns.round(exprcol - int(axis.min) + 1))))
+            numbins = int(axis.max) - int(axis.min) + 1
+            scaled = fcns.greatest(fcns.lit(-1.0), fcns.least(fcns.lit(float(numbins)), exprcol - int(axis.min)))      # infinity can't be an integer
+            indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), numbins + 2).otherwise(fcns.floor(scaled) + 1))
 
         elif isinstance(axis, histbook.axis.split):
             def build(x, i):
-- 
2.43.0


From 329ae8a9f052d10825502c18ace6bd8dd098ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 91/97] fix: infinities in a bin axis filled from a Spark
 DataFrame

---
 histbook/calc/spark.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 0c0cd9d..59ffd1f 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -209,10 +209,10 @@ def fillspark(hist, df):
         elif isinstance(axis, histbook.axis.bin):
             scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)))
             if axis.closedlow:
-                discretized = fcns.floor(scaled) + 1
+                discretized = fcns.floor(fcns.greatest(fcns.lit(-1.0), fcns.least(fcns.lit(float(axis.numbins)), scaled))) + 1     # infinity can't be an integer
             else:
-                discretized = fcns.ceil(scaled)
-            indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), int(axis.numbins) + 2).otherwise(fcns.greatest(fcns.lit(0), fcns.least(fcns.lit(int(axis.numbins) + 1), discretized))))
+                discretized = fcns.ceil(fcns.greatest(fcns.lit(0.0), fcns.least(fcns.lit(float(axis.numbins) + 1), scaled)))
+            indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), int(axis.numbins) + 2).otherwise(discretized))
 
         elif isinstance(axis, histbook.axis.intbin):
             numbins = int(axis.max) - int(axis.min) + 1
-- 
2.43.0


From 099bba4096e09197f9702208868852cd8a42bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 92/97] fix: axes without underflow, overflow or nanflow filled
 from a Spark DataFrame

---
 histbook/calc/spark.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 59ffd1f..114733e 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -285,9 +285,15 @@ def fillspark(hist, df):
                 del content[None]
 
         elif isinstance(axis[0], (histbook.axis.bin, histbook.axis.intbin, histbook.axis.split)):
-            i = index[0] - (1 if not axis[0].underflow else 0)
-            if int(i) < axis[0].totbins:
-                recurse(index[1:], columns, axis[1:], content[int(i)])
+            flows = [getattr(axis[0], n, False) for n in ("underflow", "overflow", "nanflow")]
+            i, numbins = int(index[0]), axis[0].totbins - sum(flows)
+            if (i == 0 and not flows[0]) or (i == numbins + 1 and not flows[1]) or (i == numbins + 2 and not flows[2]):
+                return content      # no bin for it
+            if not flows[0]:
+                i -= 1
+            if index[0] == numbins + 2 and not flows[1]:
+                i -= 1
+            recurse(index[1:], columns, axis[1:], content[i])
 
         elif isinstance(axis[0], histbook.axis.cut):
             recurse(index[1:], columns, axis[1:], content[0 if index[0] else 1])
-- 
2.43.0


From 57b9d65e62152cc7e409d09301459c7ded29b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 93/97] fix: NaN in a groupbin axis filled from a Spark
 DataFrame

---
 histbook/calc/spark.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 114733e..629e285 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -204,7 +204,7 @@ def fillspark(hist, df):
                 discretized = fcns.floor(scaled)
             else:
                 discretized = fcns.ceil(scaled) - 1
-            indexes.append(fcns.nanvl(discretized * float(axis.binwidth) + float(axis.origin), fcns.lit("NaN")))
+            indexes.append(fcns.when(fcns.isnull(exprcol) | fcns.isnan(exprcol), None).otherwise(discretized * float(axis.binwidth) + float(axis.origin)))
 
         elif isinstance(axis, histbook.axis.bin):
             scaled = (exprcol - float(axis.low)) * (int(axis.numbins) / (float(axis.high) - float(axis.low)))
@@ -279,10 +279,12 @@ def fillspark(hist, df):
             content += columns
 
         elif isinstance(axis[0], (histbook.axis.groupby, histbook.axis.groupbin)):
-            content[index[0]] = recurse(index[1:], columns, axis[1:], getornew(content, index[0], axis[1] if len(axis) > 1 else None))
-            if isinstance(axis[0], histbook.axis.groupbin) and None in content:
-                content["NaN"] = content[None]
-                del content[None]
+            key = index[0]
+            if isinstance(axis[0], histbook.axis.groupbin) and key is None:
+                if not axis[0].nanflow:
+                    return content
+                key = "NaN"
+            content[key] = recurse(index[1:], columns, axis[1:], getornew(content, key, axis[1] if len(axis) > 1 else None))
 
         elif isinstance(axis[0], (histbook.axis.bin, histbook.axis.intbin, histbook.axis.split)):
             flows = [getattr(axis[0], n, False) for n in ("underflow", "overflow", "nanflow")]
-- 
2.43.0


From da732a52d169e9fcebe77fb0b9f173fa2fcd9ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:09 +0000
Subject: [PATCH 94/97] fix: a failing Spark query fails the fill of the book,
 and changes nothing; copies of a book aren't filled with it, nor a histogram
 of two names twice

---
 histbook/book.py       | 18 +++++++++++++++---
 histbook/calc/spark.py |  9 +++++++--
 histbook/hist.py       |  3 ++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/histbook/book.py b/histbook/book.py
index 6f63cb0..c36fc05 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -570,13 +570,25 @@ class Book(GenericBook, histbook.fill.Fillable):
 
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
-            threads = [threading.Thread(target=histbook.calc.spark.fillspark(x, arrays)) for x in self.itervalues(recursive=True, onlyhist=True)]
-            for x in self.itervalues(recursive=True, onlyhist=True):
-                x._prefill()
+            distinct = collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True))   # one histogram may have several names
+            waits = dict((i, histbook.calc.spark.fillspark(x, arrays)) for i, x in distinct.items())
+            updates, errors = {}, []
+            def run(i):
+                try:
+                    updates[i] = waits[i]()
+                except Exception as err:
+                    errors.append(err)
+            threads = [threading.Thread(target=run, args=(i,)) for i in distinct]
             for x in threads:
                 x.start()
             for x in threads:
                 x.join()
+            if len(errors) > 0:
+                raise errors[0]
+            for i, x in distinct.items():
+                x._owncontent()
+                x._prefill()
+                updates[i]()
 
         elif arrays.__class__.__name__ == "DataFrame" and arrays.__class__.__module__ == "pandas.core.frame":
             # pandas.DataFrame
diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 629e285..3470405 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -308,7 +308,12 @@ def fillspark(hist, df):
     query = df2.groupBy(df2[df2.columns[0]]).agg(*aggs)
 
     def wait():
-        for row in query.collect():
-            recurse(row[0], row[1:], hist._group + hist._fixed, hist._content)
+        rows = query.collect()
+
+        def update():
+            for row in rows:
+                recurse(row[0], row[1:], hist._group + hist._fixed, hist._content)
+
+        return update
 
     return wait
diff --git a/histbook/hist.py b/histbook/hist.py
index c0fd747..d72b404 100644
--- a/histbook/hist.py
+++ b/histbook/hist.py
@@ -359,8 +359,9 @@ class Hist(histbook.fill.Fillable, histbook.proj.Projectable, histbook.export.Ex
         if histbook.calc.spark.isspark(arrays, more):
             # pyspark.DataFrame
             wait = histbook.calc.spark.fillspark(self, arrays)
+            update = wait()
             self._prefill()
-            wait()
+            update()
 
         elif arrays.__class__.__name__ == "DataFrame" and arrays.__class__.__module__ == "pandas.core.frame":
             # pandas.DataFrame
-- 
2.43.0


From 56bd72fcb2690ccf3822a06554e88c97b3e86937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:58 +0000
Subject: [PATCH 95/97] fix: weights that are NaN count as zero in Spark
 DataFrames, too

---
 histbook/calc/spark.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/histbook/calc/spark.py b/histbook/calc/spark.py
index 3470405..263334d 100644
--- a/histbook/calc/spark.py
+++ b/histbook/calc/spark.py
@@ -246,6 +246,7 @@ def fillspark(hist, df):
     selectcols = [index]
     if hist._weightparsed is not None:
         weightcol = tocolumns(df, histbook.instr.totree(hist._weightparsed))
+        weightcol = fcns.when(fcns.isnan(weightcol), 0.0).otherwise(weightcol)
     for axis in hist._profile:
         exprcol = tocolumns(df, histbook.instr.totree(axis._parsed))
         if hist._weightparsed is None:
-- 
2.43.0


From 7324accd14d3cf09bcb771279d88ac3f9595a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:09 +0000
Subject: [PATCH 96/97] fix: unsupported expressions raise ExpressionError (was
 AttributeError or NameError with Python 3.8 and later)

---
 histbook/expr.py            | 4 ++--
 histbook/util/astunparse.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/histbook/expr.py b/histbook/expr.py
index 5d07fa0..967ce29 100644
--- a/histbook/expr.py
+++ b/histbook/expr.py
@@ -223,7 +223,7 @@ class Expr(object):
                 if isinstance(content, Const):
                     return Const(~content.value)
                 else:
-                    return BitAnd.negate(content).simplify()
+                    raise NotImplementedError
 
             elif isinstance(node, ast.UnaryOp):
                 raise ExpressionError("only unary operators supported: 'not', '-', '+', and '~': {0}".format(histbook.util.astunparse.tostring(node).strip()))
@@ -306,7 +306,7 @@ class Expr(object):
             elif isinstance(node, ast.Call):
                 fcn = Expr.recognized.get(resolve(node.func), None)
 
-                if fcn is None and node.func.id in Expr.recognized.values():
+                if fcn is None and isinstance(node.func, ast.Name) and node.func.id in Expr.recognized.values():
                     fcn = node.func.id
 
                 elif fcn is not None:
diff --git a/histbook/util/astunparse.py b/histbook/util/astunparse.py
index 63c6b2d..8dafc23 100644
--- a/histbook/util/astunparse.py
+++ b/histbook/util/astunparse.py
@@ -562,6 +562,12 @@ class Unparser(object):
     def _NameConstant(self, t):
         self.write(repr(t.value))
 
+    def _Constant(self, t):         # Python 3.8+: numbers, strings, bytes, None, True, False, and ...
+        if t.value is Ellipsis:
+            self.write("...")
+        else:
+            self.write(repr(t.value).replace("inf", INFSTR) if isinstance(t.value, (float, complex)) else repr(t.value))
+
     def _Repr(self, t):
         self.write("`")
         self.dispatch(t.value)
-- 
2.43.0


From 39486ea2b7c17e9b5e974becf3e6a8c8001b3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:19 +0000
Subject: [PATCH 97/97] fix: book *= number multiplies a histogram of two names
 once (was once for each name)

---
 histbook/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/histbook/book.py b/histbook/book.py
index c36fc05..6328507 100644
--- a/histbook/book.py
+++ b/histbook/book.py
@@ -478,7 +478,8 @@ class GenericBook(collections.MutableMapping):
         return self.__mul__(value)
 
     def __imul__(self, value):
-        for x in self.itervalues():
+        distinct = collections.OrderedDict((id(x), x) for x in self.itervalues(recursive=True, onlyhist=True))   # one histogram may have several names
+        for x in distinct.values():
             x.__imul__(value)
         return self
 
-- 
2.43.0

