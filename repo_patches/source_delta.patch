From edcdbfc86bb8504cd86b977c90ee87f8f2f25f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 1/7] fix: elimination must not drop an all-zero row whose b is
 positive

Such a row (0 = b > 0) proves that the system has no solution. It was
removed together with the harmless 0 = 0 rows, so solve_question yielded
rows that do not satisfy A @ x = b (e.g. A=[[0],[1]], b=[1,0] -> [0], and
26430 of the 72282 candidate rows met while solving v < 22).
---
 srg/gauss_elim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index d2b1726..e2cd5b7 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -6,6 +6,8 @@ from . import srg
 
 
 def _remove_zerokeys(h: list) -> None:
+    if any(k == 0 and v > 0 for k, i, v in h):
+        raise srg.NoSolution('an all-zero row cannot equate a positive b')
     hnz = [(k, i, v) for k, i, v in h if k > 0]
     h.clear()
     h += hnz
-- 
2.43.0


From 4156f7c1c2ddeb0300796048323cf54fe716b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 2/7] fix: encode columns and rows as exact integers

The 64 bit codes lost every bit above the 63rd, so with more than 63 rows
distinct columns were taken for equal: solving (70, 68, 66, 68) yielded
nothing although that graph exists.
---
 srg/gauss_elim.py | 4 ++--
 srg/unique.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/srg/gauss_elim.py b/srg/gauss_elim.py
index e2cd5b7..5335b08 100644
--- a/srg/gauss_elim.py
+++ b/srg/gauss_elim.py
@@ -89,9 +89,9 @@ def _encode(A: np.array, b: np.array) -> list:
     R, C = A.shape
     assert b.size == R, f'{b.size} != {R}'
 
-    _sum = A[:, -1].copy().astype(int)
+    _sum = A[:, -1].copy().astype(object)  # exact python ints: C can exceed 63
     for c in reversed(range(C - 1)):
-        delta = A[:, c].astype(int) << (C - 1 - c)
+        delta = A[:, c].astype(object) << (C - 1 - c)
         _sum += delta
 
     return list(zip(_sum, range(R), b))
diff --git a/srg/unique.py b/srg/unique.py
index 4240a68..78854b3 100644
--- a/srg/unique.py
+++ b/srg/unique.py
@@ -13,7 +13,7 @@ def _encode(A: np.array) -> list:
     :return: array([7, 7, 5, 5, 3, 3, 1], dtype=int16)
     '''
     R, C = A.shape
-    _A = A.astype(int)
+    _A = A.astype(object)  # exact python ints: R can exceed 63
     _sum = _A[-1, :]
     for r in reversed(range(R - 1)):
         _sum += _A[r, :] << (R - 1 - r)
-- 
2.43.0


From c404ebb897a87897084eb0c3c3bac45a008232d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 3/7] fix: maximize a graph whose first vertex is adjacent to
 all others

A range without a zero had no division index; the comparison with None
raised TypeError.
---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index b547696..497a9b4 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -74,7 +74,7 @@ class AdjMat:
         s = S[row, colrange[0]:colrange[1]]
         zero_indices = np.where(s == 0)[0]  # where returns a tuple. take the 1st element, which is an array
 
-        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else None
+        first_zero_index = zero_indices[0] + colrange[0] if len(zero_indices) > 0 else colrange[1]
 
         return first_zero_index
 
-- 
2.43.0


From e2d5996469c21097de3b01d6d846cad2ae608142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 4/7] fix: maximize must not shuffle equal elements

The default argsort is not stable for longer rows, so sorting an already
sorted row relabelled the later vertices arbitrarily and the encoding could
become smaller than that of the input.
---
 srg/sorter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/sorter.py b/srg/sorter.py
index 497a9b4..b0ec0e7 100755
--- a/srg/sorter.py
+++ b/srg/sorter.py
@@ -58,7 +58,7 @@ class AdjMat:
 
         M = self.Mat
         a = M[row, colrange[0]:colrange[1]]
-        i = np.argsort(-a)  # large element first, so negate a.
+        i = np.argsort(-a, kind='stable')  # large element first, so negate a.
 
         ii = np.arange(self.v)
         ii[colrange[0]: colrange[1]] = i + colrange[0]
-- 
2.43.0


From 3868488bb976d005fac5dcbae94392e077cdbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 5/7] fix: srg.database command imports a module that does not
 exist

Every documented 'python -m srg.database' invocation failed with ImportError.
---
 srg/database/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/srg/database/__main__.py b/srg/database/__main__.py
index 445980e..c3b3916 100644
--- a/srg/database/__main__.py
+++ b/srg/database/__main__.py
@@ -1,5 +1,5 @@
 from srg.database import list_problems, get_solutions, draw
-from srg import util
+from srg import utils
 import sys
 from pprint import pprint
 
@@ -17,7 +17,7 @@ except ValueError:
 if v is None:
     pprint(list_problems())
 else:
-    util.assert_arg(v,k,l,u)
+    utils.assert_srg(v,k,l,u)
     if cmd == 'list':
         pprint(get_solutions(v,k,l,u))
     elif cmd == 'draw':
-- 
2.43.0


From 13701e79624bfa93a8ba93241f06bb04bb51cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 6/7] fix: exact determinant of conference graphs

The product of powers of irrational eigenvalues was taken in floating point
and rounded, which is wrong from (33, 16, 7, 8) on: (37, 18, 8, 9) gave
2701703435345978368 instead of 18 * 9**18 = 2701703435345984178.
---
 srg/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srg/utils.py b/srg/utils.py
index 8370ccc..d30a8bf 100644
--- a/srg/utils.py
+++ b/srg/utils.py
@@ -22,6 +22,9 @@ def conference(v: int, k: int, l: int, u: int):
     return 2 * k + (v - 1) * (l - u)
 
 def determinant(v: int, k: int, l: int, u: int):
+    if conference(v, k, l, u) == 0:  # the eigenvalues other than k come in equal numbers, and their product is u - k
+        return k * (u - k) ** ((v - 1) // 2)
+
     prod = 1
     for e, m in eig(v, k, l, u):
         prod *= e ** m
-- 
2.43.0


From 363e461d200d93026aeedaece6e6ec239970df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 7/7] fix: fork enumeration does not use more than the
 remaining quota

The largest value tried for a forked unknown was its bound, even where the
quota left was smaller: the next quota was negative, and building the child
question raised an AssertionError instead of yielding the children that are
possible.
---
 srg/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srg/fork.py b/srg/fork.py
index e53d332..e2ea2a7 100644
--- a/srg/fork.py
+++ b/srg/fork.py
@@ -19,7 +19,7 @@ def enum(quota: int, bounds: np.array, loc: int):
     m, bounds_rest = _pop_ele(bounds, loc)
 
     start_from = max(0, quota - bounds_rest.sum())
-    for quota_used in range(start_from, m + 1):  # q = 0,1,2
+    for quota_used in range(start_from, min(m, quota) + 1):  # q = 0,1,2
         quota_rest = quota - quota_used
         yield quota_used, quota_rest
 
-- 
2.43.0

