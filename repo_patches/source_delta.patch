From efbaad1e39af3f1664479a6ca7a092dce4a91558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 1/4] fix: assemble the Riesz matrix of a dual set in a local
 array

DualSet.to_riesz accumulated into an attribute of the dual set while it was
being filled, so two threads mapping polynomial sets with one shared dual set
(or a nested call) mixed their matrices.
---
 FIAT/dual_set.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FIAT/dual_set.py b/FIAT/dual_set.py
index 215048b..63f1f14 100644
--- a/FIAT/dual_set.py
+++ b/FIAT/dual_set.py
@@ -78,7 +78,9 @@ class DualSet(object):
 
         riesz_shape = tuple([num_nodes] + list(tshape) + [num_exp])
 
-        self.mat = numpy.zeros(riesz_shape, "d")
+        # Accumulate into a local array: a dual set may be shared between
+        # callers, so its partially assembled matrix must stay private.
+        mat = numpy.zeros(riesz_shape, "d")
 
         # Dictionaries mapping pts to which functionals they come from
         pts_to_ells = collections.OrderedDict()
@@ -110,7 +112,7 @@ class DualSet(object):
 
                 for i in range(num_exp):
                     for (w, c) in wc_list:
-                        self.mat[k][c][i] += w*expansion_values[i, j]
+                        mat[k][c][i] += w*expansion_values[i, j]
 
         # Tabulate the derivative values that are needed
         max_deriv_order = max([ell.max_deriv_order for ell in self.nodes])
@@ -131,9 +133,9 @@ class DualSet(object):
 
                     for i in range(num_exp):
                         for (w, alpha, c) in wac_list:
-                            self.mat[k][c][i] += w*dexpansion_values[alpha][i, j]
+                            mat[k][c][i] += w*dexpansion_values[alpha][i, j]
 
-        return self.mat
+        return mat
 
 
 def make_entity_closure_ids(ref_el, entity_ids):
-- 
2.43.0


From 917b507b7674d9159f8764e49b8fdc817c069ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 2/4] fix: do not change the process-wide warning filters from
 an element constructor

Constructing an element without a variant installed an 'always' filter for
every DeprecationWarning of the process, overriding the user's filters. A
FutureWarning is shown to users by default, without touching the filters.
---
 FIAT/check_format_variant.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FIAT/check_format_variant.py b/FIAT/check_format_variant.py
index 14c5ba5..722cd7e 100644
--- a/FIAT/check_format_variant.py
+++ b/FIAT/check_format_variant.py
@@ -5,9 +5,8 @@ import warnings
 def check_format_variant(variant, degree, element):
     if variant is None:
         variant = "point"
-        warnings.simplefilter('always', DeprecationWarning)
         warnings.warn('Variant of ' + element + ' element will change from point evaluation to integral evaluation.'
-                      ' You should project into variant="integral"', DeprecationWarning)
+                      ' You should project into variant="integral"', FutureWarning)
 
     match = re.match(r"^integral(?:\((\d+)\))?$", variant)
     if match:
-- 
2.43.0


From 2d3d9a2504e4e095beffc6a10bbdf9f9160f72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 3/4] fix: scale the highest derivatives of Bernstein
 polynomials by the factorial of the degree

---
 FIAT/bernstein.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 7fe6cfd..687adfb 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -134,8 +134,6 @@ def bernstein_db(points, ks, alpha=None):
     ls = ks - alpha
     if any(k < 0 for k in ls):
         return numpy.zeros(len(points))
-    elif all(k == 0 for k in ls):
-        return numpy.ones(len(points))
     else:
         # Calculate coefficient
         coeff = math.factorial(ks.sum())
-- 
2.43.0


From e21af5653cefe99f9704e4064e050f7b41ca02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 4/4] fix: do not overwrite the caller's recursion coefficients
 in lobatto

---
 FIAT/orthopoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 58ae24d..fe094ad 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -93,9 +93,9 @@ def lobatto(alpha, beta, xl1, xl2):
     xl = np.array((xl1, xl2))
     ab = solve(C, xl)
 
-    alphal = alpha
+    alphal = np.array(alpha)
     alphal[-1] = ab[0]
-    betal = beta
+    betal = np.array(beta)
     betal[-1] = ab[1]
     x, w = gauss(alphal, betal)
     return x, w
-- 
2.43.0

