From f08219b9865e6711652beaf4e58f70084b7867c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 01/26] fix: change kernels evaluate the sub-kernels whose
 parameters are optimised

ChangeKernelBase (and the two alternative change-window bases) linked COPIES of
the sub-kernels but computed K from the originals, so no sub-kernel parameter of
a CP/CW had any effect on the covariance nor was ever optimised.
---
 GPy_ABCD/Kernels/changeOperators.py          | 3 +--
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 3 +--
 GPy_ABCD/Kernels/changeWindowThreePart.py    | 4 +---
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/GPy_ABCD/Kernels/changeOperators.py b/GPy_ABCD/Kernels/changeOperators.py
index 0029514..c6a5a3d 100644
--- a/GPy_ABCD/Kernels/changeOperators.py
+++ b/GPy_ABCD/Kernels/changeOperators.py
@@ -15,8 +15,7 @@ class ChangeKernelBase(CombinationKernel):
     def __init__(self, first, second, sigmoidal, location: float = 0., slope: float = 0.5, name = 'change_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeKernelBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies: the ones whose parameters are actually optimised and reported
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index fc81511..8bb6616 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -16,8 +16,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
                  name = 'change_window_shifted_sides_base', fixed_slope = False):
         _newkerns = [kern.copy() for kern in (first, second)]
         super(ChangeWindowShiftedSidesBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
+        self.first, self.second = _newkerns # I.e. the linked copies
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
diff --git a/GPy_ABCD/Kernels/changeWindowThreePart.py b/GPy_ABCD/Kernels/changeWindowThreePart.py
index 41ef1b0..fd61d81 100644
--- a/GPy_ABCD/Kernels/changeWindowThreePart.py
+++ b/GPy_ABCD/Kernels/changeWindowThreePart.py
@@ -17,9 +17,7 @@ class ChangeWindowIndependentBase(CombinationKernel):
         third = deepcopy(first) if third is None else third
         _newkerns = [kern.copy() for kern in (first, second, third)]
         super(ChangeWindowIndependentBase, self).__init__(_newkerns, name)
-        self.first = first
-        self.second = second
-        self.third = third
+        self.first, self.second, self.third = _newkerns # I.e. the linked copies
 
         self._fixed_slope = fixed_slope # Note: here to be used by subclasses, and changing it from the outside does not link the parameter
         if self._fixed_slope: self.slope = slope
-- 
2.43.0


From 42bf9096c918f4d735a325b9cea569967fe289f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:09 +0000
Subject: [PATCH 02/26] fix: expanding a raw left leaf of a change expression
 replaces that leaf

traverse wraps raw-string leaves in new nodes, so reassign_child never recognised
a left leaf and the right branch was replaced instead (left-leaf edits were never
generated and right branches of any complexity were discarded).
---
 GPy_ABCD/KernelExpressions/change.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/change.py b/GPy_ABCD/KernelExpressions/change.py
index 0c8afcc..668d73b 100644
--- a/GPy_ABCD/KernelExpressions/change.py
+++ b/GPy_ABCD/KernelExpressions/change.py
@@ -35,11 +35,16 @@ class ChangeKE(KernelExpression):
     def extract_if_singleton(self):
         return self
 
+    def _leaf_as_node(self, branch): # Raw-string leaf as a SumKE singleton, which remembers which branch it stands for (see reassign_child)
+        node = SumKE([getattr(self, branch)]).set_root(self.root).set_parent(self)
+        node.leaf_branch = branch
+        return node
+
     def traverse(self):
         res = [self]
         # NOTE: this version adds new elements for raw string leaves (making them SumKE singletons); replace by comments to remove that behaviour
-        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [SumKE([self.left]).set_root(self.root).set_parent(self)]#[]
-        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [SumKE([self.right]).set_root(self.root).set_parent(self)]#[]
+        res += self.left.traverse() if isinstance(self.left, KernelExpression) else [self._leaf_as_node('left')]#[]
+        res += self.right.traverse() if isinstance(self.right, KernelExpression) else [self._leaf_as_node('right')]#[]
         return res
 
     def reduce(self, func, acc):
@@ -69,7 +74,8 @@ class ChangeKE(KernelExpression):
         return all([ct.parent is self and ct._check_all_parents() for ct in [self.left, self.right] if isinstance(ct, KernelExpression)])
 
     def reassign_child(self, old_child, new_child):
-        if self.left is old_child: self.left = new_child # NOT A deepcopy!
+        is_left_leaf = isinstance(self.left, str) and getattr(old_child, 'leaf_branch', None) == 'left'
+        if self.left is old_child or is_left_leaf: self.left = new_child # NOT A deepcopy!
         else: self.right = new_child # NOT A deepcopy! # I.e. elif self.right is old_child
         return new_child # NOTE THIS RETURN VALUE (used by new_tree_with_self_replaced)
 
-- 
2.43.0


From f7c8def1b34573ab2353fc01a6c414a650a64bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 03/26] fix: replacing a base term by itself does not add a
 second one

Counter({bt: -1, B: 1}) collapses to {B: 1} when bt == B, so replace_base grew
e.g. PER + WN into PER + PER + WN; the change-expression case already skips it.
---
 GPy_ABCD/KernelExpansion/kernelExpressionOperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
index 0414a18..ea62486 100644
--- a/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
+++ b/GPy_ABCD/KernelExpansion/kernelExpressionOperations.py
@@ -84,7 +84,7 @@ def multiply(k1, k2, with_nested_case = True): # Simple multiplication, NOT DIST
 def swap_base(S, B):
     res = []
     if isinstance(S, SumKE) or isinstance(S, ProductKE):
-        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys()]
+        res = [type(S)((+S.base_terms) + Counter({bt: -1, B: 1}), S.composite_terms) for bt in (+S.base_terms).keys() if bt != B]
     elif isinstance(S, ChangeKE):
         res += [ChangeKE(S.CP_or_CW, B, S.right)] if isinstance(S.left, str) and S.left != B else []
         res += [ChangeKE(S.CP_or_CW, S.left, B)] if isinstance(S.right, str) and S.right != B else []
-- 
2.43.0


From e530a5c2c712eb26f41c0e46f9fc768505a9db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 04/26] fix: one simplification pass reaches the normal form

Singletons were extracted after absorbing homogeneous composites, so an extracted
sum within a sum stayed nested (e.g. after remove_some_term), and absorbed
composites were still counted as factors, so C * (C) could lose every factor.
---
 GPy_ABCD/KernelExpressions/commutative_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 1f4c1a8..3680178 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -35,7 +35,7 @@ class SumOrProductKE(KernelExpression): # Abstract
 
     def simplify(self):
         self.composite_terms = [ct.simplify() for ct in self.composite_terms]
-        return self.absorb_homogeneous_composites().absorb_singletons().simplify_base_terms()
+        return self.absorb_singletons().absorb_homogeneous_composites().simplify_base_terms() # Singletons first since extracted ones can be homogeneous
 
     @abstractmethod
     def simplify_base_terms(self):
@@ -57,11 +57,11 @@ class SumOrProductKE(KernelExpression): # Abstract
     def absorb_homogeneous_composites(self):
         homogeneous_composites = [ct for ct in self.composite_terms if isinstance(ct, type(self))] # Annoyingly less problematic than lambda-using-self filter
         for hc in homogeneous_composites:
+            self.composite_terms.remove(hc) # Before simplifying base terms since it should not count as one of the terms anymore
             self.base_terms.update(hc.base_terms)
             self.simplify_base_terms()
             for hcct in hc.composite_terms: hcct.parent = self
             self.composite_terms += hc.composite_terms
-            self.composite_terms.remove(hc)
         return self
 
     def traverse(self):
-- 
2.43.0


From 49bb684078713d96f4dc3ff5571135be51f6f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 05/26] fix: sum-of-products form of expressions with only
 composite terms

Nodes without base terms hold no parameters of their own, which tripped the
'fitted' assertion and made interpret() fail on e.g. PER * LIN + LIN * LIN.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 46bedf9..ffbaa36 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -36,7 +36,7 @@ class SumKE(SumOrProductKE):
         return self
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not self.base_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         cts = [ct.sum_of_prods_form() for ct in self.composite_terms]
         self.composite_terms.clear()
         for ct in cts: # Only SumKEs or ProductKEs now
@@ -134,7 +134,7 @@ class ProductKE(SumOrProductKE):
         return ProductKE([]).new_bases_with_parameters([(key, p) for kex in [k0] + ks for key, ps in list(kex.parameters.items()) for p in ps])
 
     def sum_of_prods_form(self):
-        assert self.parameters, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
+        assert self.parameters or not self.base_terms, 'A sum-of-products form can only be generated when parameters are present (i.e. after .match_up_fit_parameters has been triggered), and should only be called indirectly through GPModel.sum_of_prods_kex or GPModel.interpret()'
         sops = SumKE([])
         if not self.composite_terms:
             sops.composite_terms.append(ProductKE(self.base_terms)._new_parameters(self.parameters)) # Avoid triggering simplify()
-- 
2.43.0


From f45fd733226bcf7751fec64912aa8c89ab83633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 06/26] fix: white-noise products keep the parameters of their
 linear factors

WN absorbs stationary factors only; simplify_base_terms keeps LIN but its
parameters were dropped, and with them its part of the description.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index ffbaa36..19d3845 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -92,7 +92,7 @@ class ProductKE(SumOrProductKE):
     def simplify_base_terms_params(self):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
-                if bt not in ['WN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+                if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From d7904415e2bcb606b7bced44419708a153ea4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 07/26] fix: lengthscale of a product of SE kernels

exp(-r^2/2a^2) exp(-r^2/2b^2) has lengthscale ab/sqrt(a^2+b^2).
---
 GPy_ABCD/KernelExpressions/commutatives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index 19d3845..fae7225 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -97,7 +97,7 @@ class ProductKE(SumOrProductKE):
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
         if 'SE' in self.parameters and len(self.parameters['SE']) > 1:
-            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc + l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
+            self.parameters['SE'] = [{'lengthscale': reduce(lambda acc, l: (acc * l) / np.sqrt(acc ** 2 + l ** 2), [ps['lengthscale'] for ps in self.parameters['SE']])}]
         return self
 
     def match_up_fit_parameters(self, param_dict, prefix = ''):
-- 
2.43.0


From 71bdc5eaa5a467129206a7ad37da6219872e9c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 08/26] fix: intersecting change-window complements does not
 fail

Hole intervals have a start_slope and an end_slope, never a 'slope', so products
of two reversed indicator sigmoids whose hole borders matter raised KeyError.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 0fc42de..d820330 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -156,16 +156,16 @@ def intersect_segment_semiline(segment, semiline, res = None):
 def intersect_segment_hole(segment, hole, res = []):
     if segment['start'] < hole['end']:
         if segment['end'] < hole['end']: res.append(segment)
-        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['slope']})
+        else:res.append({'start': segment['start'], 'end': hole['end'], 'start_slope': segment['start_slope'], 'end_slope': hole['end_slope']})
     if segment['end'] > hole['start']:
         if segment['start'] > hole['start']: res.append(segment)
-        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['slope'], 'end_slope': segment['end_slope']})
+        else: res.append({'start': hole['start'], 'end': segment['end'], 'start_slope': hole['start_slope'], 'end_slope': segment['end_slope']})
     return res
 
 def intersect_semiline_hole(semiline, hole, res = []):
     if 'start' not in semiline:
         if hole['end'] < semiline['end']:
-            res.append({'end': hole['end'], 'end_slope': hole['slope']})
+            res.append({'end': hole['end'], 'end_slope': hole['end_slope']})
             if hole['start'] < semiline['end']: res.append({'start': hole['start'], 'end': semiline['end'], 'start_slope': hole['start_slope'], 'end_slope': semiline['end_slope']})
         else: res.append(semiline)
     else: # elif 'end' not in semiline:
-- 
2.43.0


From 4ffd7e68501cf3167884932f87ec7be1fd25349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 09/26] fix: sigmoidal factors with no common active interval
 can be described

Disjoint indicator sigmoids gave None intervals, and an empty running
intersection was mistaken for a reversed indicator at the next step; both made
interpret() raise. Such components are now described as applying nowhere.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index d820330..3c9eae6 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -71,6 +71,7 @@ def postmodifier_interpretation(bps):
             else: res = 'with linearly varying amplitude'
     elif b == 'sigmoidal_intervals':
         if not isinstance(ps, list): ps = [ps]
+        if not ps: return 'nowhere' # The sigmoidal factors have no active interval in common
         interval_ress = []
         for interval in ps:
             if 'start' not in interval:
@@ -130,7 +131,7 @@ def SI_overlap(SI_params):
     start = S_overlap(SI_params)
     end = Sr_overlap(SI_params)
     interval = {'start': start['start'], 'end': end['end'], 'start_slope': start['start_slope'], 'end_slope': end['end_slope']}
-    return interval if interval['end'] > interval['start'] else None
+    return interval if interval['end'] > interval['start'] else []
 
 def SIr_overlap_step(acc, p): # Acc is a list of dictionaries representing intervals
     new_acc = []
@@ -182,9 +183,8 @@ def intersect_semiline_hole(semiline, hole, res = []):
 def simplify_sigmoidal_intervals(sigmoidals): return reduce(simplify_sigmoidal_intervals_step, sigmoidals.items())[1]
 
 def simplify_sigmoidal_intervals_step(acc, new):
-    if acc is None: return acc
-    step_res = simplify_sigmoidal_interval_pair(acc, new)
-    return None if step_res is None else identify_interval_type(step_res)
+    if not acc[1] or not new[1]: return identify_interval_type([]) # No active interval in at least one of the two
+    return identify_interval_type(simplify_sigmoidal_interval_pair(acc, new))
 
 # Intersect two DIFFERENT TYPES of sigmoid parameters (apply after reducing same type ones)
 def simplify_sigmoidal_interval_pair(b_ips1, b_ips2): # Arguments are tuples of (sigmoid_str, parameters)
-- 
2.43.0


From b9f1f5fd127d0cc8882ebee2735bb1bfb0ec2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 10/26] fix: interval descriptions mention change slopes only
 when they are fitted

The two semi-infinite cases do; the finite one had the condition inverted and
reported a made-up slope of 1.00 whenever slopes are fixed.
---
 GPy_ABCD/KernelExpansion/kernelInterpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpansion/kernelInterpretation.py b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
index 3c9eae6..6e4e26b 100644
--- a/GPy_ABCD/KernelExpansion/kernelInterpretation.py
+++ b/GPy_ABCD/KernelExpansion/kernelInterpretation.py
@@ -82,7 +82,7 @@ def postmodifier_interpretation(bps):
                 else: interval_ress.append('from {:.2f} (with change slope {:.2f})'.format(interval['start'], interval['start_slope']))
             else:
                 interval_ress.append('between {:.2f} and {:.2f}'.format(interval['start'], interval['end']))
-                if __FIX_SIGMOIDAL_KERNELS_SLOPE:
+                if not __FIX_SIGMOIDAL_KERNELS_SLOPE:
                     if interval['start_slope'] == interval['end_slope']: interval_ress[-1] += ' (with same change slopes {:.2f})'.format(interval['start_slope'])
                     else: interval_ress[-1] += ' (with change slopes {:.2f} and {:.2f})'.format(interval['start_slope'], interval['end_slope'])
         if len(interval_ress) > 1: interval_ress[-1] = 'and ' + interval_ress[-1]
-- 
2.43.0


From 40d6648bcc6a04290f14404931285ea8a2fbba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 11/26] fix: refitting a model discards what was derived from
 the previous fit

interpret() and the cached utility kept describing the first fit for ever, and a
failed fit left an unfitted model behind which passed for a fitted one.
---
 GPy_ABCD/Models/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/Models/model.py b/GPy_ABCD/Models/model.py
index 37762bd..c9848c9 100644
--- a/GPy_ABCD/Models/model.py
+++ b/GPy_ABCD/Models/model.py
@@ -25,10 +25,12 @@ class GPModel():
         if restarts is None:
             if self.restarts is None: raise ValueError('No restarts value specified')
         else: self.restarts = restarts
-        self.model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
+        model = GPRegression(self.X, self.Y, self.kernel_expression.to_kernel())
         with warnings.catch_warnings(): # Ignore known numerical warnings
             warnings.simplefilter('ignore')
-            self.model.optimize_restarts(num_restarts = self.restarts, verbose = verbose, robust = robust, optimizer = optimiser, **kwargs)
+            model.optimize_restarts(num_restarts = self.restarts, verbose = verbose, robust = robust, optimizer = optimiser, **kwargs)
+        self.model = model # Only once fitted; the values derived from any previous fit are then out of date
+        self._sum_of_prods_kex = self.cached_utility_function = self.cached_utility_function_type = None
         return self
 
     @property
-- 
2.43.0


From 241a24638ba0983b62add0ee4dd17e753bd5c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 12/26] fix: verbose searches can log an empty list of models

A round without new (or without unexpanded) models raised IndexError, but only
with verbose = True.
---
 GPy_ABCD/Models/modelSearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 000046b..65317ec 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -20,7 +20,7 @@ from GPy_ABCD.Util.genericUtil import flatten, diff, unique
 
 
 def print_k_list(k_or_model_list):
-    return ', '.join([str(m.kernel_expression) for m in k_or_model_list] if isinstance(k_or_model_list[0], GPModel) else [str(k) for k in k_or_model_list])
+    return ', '.join([str(km.kernel_expression if isinstance(km, GPModel) else km) for km in k_or_model_list])
 
 
 def fit_one_model(X, Y, kex, restarts, optimiser = GPy_optimisers[0], max_retries = 1):
-- 
2.43.0


From 8a87a2beb71c08f1bc711dff1e43f413c6e01390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 13/26] fix: the beam argument means the same wherever a search
 is run

With verbose = True a 0-round search raised IndexError, and model_search_rounds,
whose arguments are documented as explore_model_space's, raised TypeError for an
integer beam and silently ran fewer rounds than asked for given a shorter list.
The log of a continued search also reported the wrong round's models as new.
---
 GPy_ABCD/Models/modelSearch.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 65317ec..b7705e0 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -45,6 +45,13 @@ def fit_mods_parallel_processes(X, Y, k_exprs, restarts = 5, optimiser = GPy_opt
     with Pool() as pool: return pool.starmap_async(fit_one_model, [(X, Y, kex, restarts, optimiser, max_retries) for kex in k_exprs], int(len(k_exprs) / cpu_count()) + 1).get()
 
 
+def beam_by_round(beam: Union[int, List[int]], rounds: int) -> List[int]:
+    '''Ensure the beam argument is a list of integers of length rounds (see explore_model_space)'''
+    if isinstance(beam, int): return [beam] * rounds
+    elif isinstance(beam, list) and (beam or rounds == 0) and all(isinstance(x, int) for x in beam): return (beam + beam[-1:] * (rounds - len(beam)))[:rounds]
+    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+
+
 def explore_model_space(X, Y,
                         start_kernels: List[Union[str, KernelExpression]] = start_kernels['Default'], p_rules: List[Callable] = production_rules['Default'],
                         utility_function: Callable = BIC, rounds: int = 2, beam: Union[int, List[int]] = [3, 2, 1], restarts: int = 5,
@@ -90,19 +97,16 @@ def explore_model_space(X, Y,
     expanded = []
     tested_k_exprs = deepcopy(start_kexs)
 
-    # Handle beam argument: ensure it is a list of integers of length rounds
-    if isinstance(beam, list) and all(isinstance(x, int) for x in beam):
-        beam = beam + ([beam[-1]] * more) if (more := rounds - len(beam)) > 0 else beam[:rounds]
-    elif isinstance(beam, int): beam = [beam] * rounds
-    else: raise TypeError(f'The given beam argument ({beam}) is neither an integer nor a list of integers')
+    beam = beam_by_round(beam, rounds)
+    first_beam = beam[0] if beam else 0 # I.e. 0 if no rounds
 
-    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {beam[0]} moving forward]: {print_k_list(not_expanded[:beam[0]])}')
+    if verbose: print(f'(All models are listed by descending {utility_function.__name__})\n\nBest round-{0} models [{len(tested_models[0])} new; {first_beam} moving forward]: {print_k_list(not_expanded[:first_beam])}')
 
     sorted_models, tested_models, tested_k_exprs, expanded, not_expanded = model_search_rounds(X, Y,
                         sorted_models, tested_models, tested_k_exprs, expanded, not_expanded,
                         model_list_fitter, p_rules, utility_function, rounds, beam, restarts, optimiser, max_retries, verbose)
 
-    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:beam[0]])}\n')
+    if verbose: print(f'\nBest models overall: {print_k_list(sorted_models[:first_beam or None])}\n')
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
 
@@ -117,6 +121,8 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     '''
     def score(m): return m.compute_utility(utility_function)
 
+    beam = beam_by_round(beam, rounds)
+
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
         tested_models.append(sorted(model_list_fitter(X, Y, new_k_exprs, restarts, optimiser, max_retries), key = score))  # tested_models[d]
@@ -126,7 +132,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
         not_expanded = diff(sorted_models, expanded) # More efficient than sorting another whole list
         tested_k_exprs += new_k_exprs
 
-        if verbose: print(f'Round-{r} models [{len(tested_models[r])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[r][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
+        if verbose: print(f'Round-{r} models [{len(tested_models[-1])} new; {b} moving forward]:\n\tBest new: {print_k_list(tested_models[-1][:beam[0]])}\n\tBest so far: {print_k_list(sorted_models[:beam[0]])}\n\tBest not-already-expanded: {print_k_list(not_expanded[:b])}')
 
     return sorted_models, tested_models, tested_k_exprs, expanded, not_expanded
 
-- 
2.43.0


From 6adc282f67ee1e4c6a9b392a7fd98033199c4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 14/26] fix: continuing a search does not alter the results it
 continues from

Three of the five lists given to model_search_rounds were extended in place,
leaving the caller's earlier results mutually inconsistent.
---
 GPy_ABCD/Models/modelSearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index b7705e0..33722d4 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -122,6 +122,7 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
     def score(m): return m.compute_utility(utility_function)
 
     beam = beam_by_round(beam, rounds)
+    tested_models, tested_k_exprs, expanded = list(tested_models), list(tested_k_exprs), list(expanded) # Leave the given ones as they are
 
     for r, b in zip(range(1, rounds + 1), beam):
         new_k_exprs = [kex for kex in unique(flatten([expand(mod.kernel_expression, p_rules) for mod in not_expanded[:b]])) if kex not in tested_k_exprs]
-- 
2.43.0


From 8b28ffb82cca09ea26b617d95d794266283e788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 15/26] fix: an expression given twice to a constructor becomes
 two separate terms

---
 GPy_ABCD/KernelExpressions/commutative_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/KernelExpressions/commutative_base.py b/GPy_ABCD/KernelExpressions/commutative_base.py
index 3680178..001a1d7 100644
--- a/GPy_ABCD/KernelExpressions/commutative_base.py
+++ b/GPy_ABCD/KernelExpressions/commutative_base.py
@@ -12,7 +12,7 @@ class SumOrProductKE(KernelExpression): # Abstract
     def __init__(self, base_terms, composite_terms = [], root: KernelExpression = None, parent: KernelExpression = None, symbol = None, GPy_name = None):
         super().__init__(root, parent, GPy_name)
         self.base_terms = deepcopy(base_terms) if isinstance(base_terms, Counter) else Counter(base_terms)
-        self.composite_terms = deepcopy(composite_terms)
+        self.composite_terms = [deepcopy(ct) for ct in composite_terms] # Individually, so that an object given twice becomes two terms
         self.symbol = symbol
         # self.simplify_base_terms() # Activate only this instead of full simplify for some testing
         self.simplify()
-- 
2.43.0


From c46fa43dda5d6bf2c08c7861ac6c3bc2644a85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 16/26] fix: a white-noise product has the parameters of one
 white noise

WN is multiplication-idempotent: base_terms keeps one, but parameters kept an
entry per original factor.
---
 GPy_ABCD/KernelExpressions/commutatives.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPy_ABCD/KernelExpressions/commutatives.py b/GPy_ABCD/KernelExpressions/commutatives.py
index fae7225..b85fb38 100644
--- a/GPy_ABCD/KernelExpressions/commutatives.py
+++ b/GPy_ABCD/KernelExpressions/commutatives.py
@@ -93,6 +93,7 @@ class ProductKE(SumOrProductKE):
         if 'WN' in self.parameters:
             for bt in list(self.parameters.keys()):
                 if bt not in ['WN', 'LIN', 'ProductKE'] + list(base_sigmoids): del self.parameters[bt]
+            self.parameters['WN'] = [dict()]
         if 'C' in self.parameters:
             if 'C' not in self.base_terms: del self.parameters['C']
             elif len(self.parameters['C']) > 1: self.parameters['C'] = [dict()]
-- 
2.43.0


From 59c442f7a3314972eb1e3ffc4919ec0248e48c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 17/26] fix: piecewise data are not truncated to the type of
 their first value

np.vectorize takes its output type from the first evaluation, so a function
whose first value is an integer lost the fractions of all the others.
---
 GPy_ABCD/Util/dataAndPlottingUtil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPy_ABCD/Util/dataAndPlottingUtil.py b/GPy_ABCD/Util/dataAndPlottingUtil.py
index fcd0c0b..7db4fad 100644
--- a/GPy_ABCD/Util/dataAndPlottingUtil.py
+++ b/GPy_ABCD/Util/dataAndPlottingUtil.py
@@ -12,7 +12,7 @@ def gg_plot(X, Y, colour = 'blue'):
 
 def gg_f_plot(f, X, colour = 'blue'):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X)
+    Y = np.vectorize(f, otypes = [float])(X)
     df = pd.DataFrame({'X': X[:, 0], 'Y': Y[:, 0]})
     return ggplot(df) + geom_line(aes('X', 'Y'), color = colour)
 # print(gg_f_plot(lambda x: x**2, range(20)))
@@ -25,7 +25,7 @@ def cp_f_maker(f1, f2, cp, line_up = False):
     def cp_f_lined_up(x):
         if x < cp: return f1(x)
         else: return (f1(cp) - f2(cp)) + f2(x)
-    return np.vectorize(cp_f_lined_up if line_up else cp_f)
+    return np.vectorize(cp_f_lined_up if line_up else cp_f, otypes = [float])
 
 def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
     def cw_f(x):
@@ -35,12 +35,12 @@ def cw_f_maker(f1, f2, cw_start, cw_end, line_up = False):
         if x < cw_start: return f1(x)
         elif x > cw_end: return (cw_f_lined_up(cw_end) - f1(cw_end)) + f1(x)
         else: return (f1(cw_start) - f2(cw_start)) + f2(x)
-    return np.vectorize(cw_f_lined_up if line_up else cw_f)
+    return np.vectorize(cw_f_lined_up if line_up else cw_f, otypes = [float])
 
 
 def generate_data(f, X, Y_weight = 1, noise_weight = 1):
     if len(np.shape(X)) == 1: X = np.array(X)[:, None]
-    Y = np.vectorize(f)(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
+    Y = np.vectorize(f, otypes = [float])(X) * Y_weight + np.random.randn(*X.shape) * noise_weight
     return X, Y
 # X, Y = generate_data(lambda x: x**2, range(20))
 # print(gg_plot(X, Y))
-- 
2.43.0


From 089a2684bc97f85a1d5a8794e0e11fae9afc3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 18/26] fix: diff removes the elements after one which is not
 there

The first element of ys missing from xs ended the whole difference.
---
 GPy_ABCD/Util/genericUtil.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/GPy_ABCD/Util/genericUtil.py b/GPy_ABCD/Util/genericUtil.py
index ac999f0..c3130d0 100644
--- a/GPy_ABCD/Util/genericUtil.py
+++ b/GPy_ABCD/Util/genericUtil.py
@@ -108,9 +108,8 @@ def eq_elems_h(xs: Iterable[_a], ys: Iterable[_a]) -> bool: return set(xs) == se
 
 def diff(xs: Iterable[_a], ys: Iterable[_a]) -> List[_a]:
     cxs = list(xs) # make a mutable copy
-    try:
-        for y in ys: cxs.remove(y)
-    except ValueError: pass
+    for y in ys:
+        if y in cxs: cxs.remove(y)
     return cxs
 def diff_h(xs: Iterable[_a], ys: Iterable[_a]) -> Set[_a]: return set(xs) - set(ys)
 
-- 
2.43.0


From 4df2a9bd4c56bea1743ce7b43f9bbbc1356d6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 19/26] fix: the leave-one-out score prefers models which
 predict the data worst

---
 GPy_ABCD/Util/modelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/modelUtil.py b/GPy_ABCD/Util/modelUtil.py
index d7b81d7..ece6037 100644
--- a/GPy_ABCD/Util/modelUtil.py
+++ b/GPy_ABCD/Util/modelUtil.py
@@ -12,7 +12,7 @@ from GPy_ABCD.Models.model import GPModel
 def BIC(m, ll, n, k): return -2 * ll + k * np.log(n)
 def AIC(m, ll, n, k): return 2 * (-ll + k)
 def AICc(m, ll, n, k): return 2 * (-ll + k + (k**2 + k) / (n - k - 1)) # Assumes univariate model linear in its parameters and with normally-distributed residuals conditional upon regressors
-def LA_LOO(m, ll, n, k): return np.mean(m.inference_method.LOO(m.kern, m.X, m.Y, m.likelihood, m.posterior)) # See LOO method description for reference
+def LA_LOO(m, ll, n, k): return -np.mean(m.inference_method.LOO(m.kern, m.X, m.Y, m.likelihood, m.posterior)) # The lower the better, like the others; see LOO method description for reference (it returns log predictive densities)
 
 
 # Allowed GPy optimisers ('lbfgsb' is the default)
-- 
2.43.0


From d28d1dbde93bc19867341def28f689a9fa6a8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 20/26] fix: the gradient of a linear offset between two sets
 of points

---
 GPy_ABCD/Kernels/linearOffsetKernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Kernels/linearOffsetKernel.py b/GPy_ABCD/Kernels/linearOffsetKernel.py
index 7eece4e..311ddbc 100644
--- a/GPy_ABCD/Kernels/linearOffsetKernel.py
+++ b/GPy_ABCD/Kernels/linearOffsetKernel.py
@@ -67,7 +67,7 @@ class LinearWithOffset(Kern):
     def update_gradients_full(self, dL_dK, X, X2=None):
         if X2 is None: X2 = X
         dK_dV = (X - self.offset) * (X2 - self.offset).T
-        dK_do = self.variance * (2 * self.offset - X - X2)
+        dK_do = self.variance * (2 * self.offset - X - X2.T)
 
         self.variance.gradient = np.sum(dL_dK * dK_dV)
         self.offset.gradient   = np.sum(dL_dK * dK_do)
-- 
2.43.0


From 2421d0c3d99d8525ffb1179319a88ed1290d56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 21/26] fix: gradients of sigmoidal kernels between two sets of
 points

---
 GPy_ABCD/Kernels/sigmoidalKernels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/GPy_ABCD/Kernels/sigmoidalKernels.py b/GPy_ABCD/Kernels/sigmoidalKernels.py
index feb5ae0..7fca4ec 100644
--- a/GPy_ABCD/Kernels/sigmoidalKernels.py
+++ b/GPy_ABCD/Kernels/sigmoidalKernels.py
@@ -126,13 +126,13 @@ def _update_gradients_full_S_2(variance, location, slope, _fixed_slope, phi1, ph
     sig_d, sig_d2 = _sigmoid_function_d(arg), _sigmoid_function_d(arg2)
 
     dphi1_dl, dphi2_dl = sig_d / (-slope), sig_d2 / (-slope)
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = sig_d * (-arg / slope)
         dphi2_ds = sig_d2 * (-arg2 / slope)
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
@@ -207,19 +207,19 @@ def _update_gradients_full_SI(variance, location, slope, width, reverse, _fixed_
 
     dphi1_dl = ((- sig_d + sig_dW) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
     dphi2_dl = ((- sig_d2 + sig_dW2) / slope) * inv_height #+ (asc + desc) * dinvheight_dl, which is 0
-    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + phi2.dot(dphi1_dl.T))).sum()
+    location_gradient = variance * (dL_dK * (phi1.dot(dphi2_dl.T) + dphi1_dl.dot(phi2.T))).sum()
     if np.isnan(location_gradient): location_gradient = 0.0
 
     if not _fixed_slope:
         dphi1_ds = ((sig_d * arg + sig_dW * argW) / (-slope)) * inv_height + numerator1 * dinvheight_ds
         dphi2_ds = ((sig_d2 * arg2 + sig_dW2 * argW2) / (-slope)) * inv_height + numerator2 * dinvheight_ds
-        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + phi2.dot(dphi1_ds.T))).sum()
+        slope_gradient = variance * (dL_dK * (phi1.dot(dphi2_ds.T) + dphi1_ds.dot(phi2.T))).sum()
         if np.isnan(slope_gradient): slope_gradient = 0.0
     else: slope_gradient = 1.0 # Going to discard it anyway
 
     dphi1_dw = (sig_dW / slope) * inv_height + numerator1 * dinvheight_dw # d(asc)_dw = 0
     dphi2_dw = (sig_dW2 / slope) * inv_height + numerator2 * dinvheight_dw # d(asc)_dw = 0
-    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + phi2.dot(dphi1_dw.T))).sum()
+    width_gradient = variance * (dL_dK * (phi1.dot(dphi2_dw.T) + dphi1_dw.dot(phi2.T))).sum()
     if np.isnan(width_gradient): width_gradient = 0.0
 
     if reverse: # Works this simply (a single sign flip per product above)
-- 
2.43.0


From db55ed283814bff7ba67ad2111ae596aa3cabd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 22/26] fix: continue a search from the data it was started
 with (also if one-dimensional)

---
 GPy_ABCD/Models/modelSearch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPy_ABCD/Models/modelSearch.py b/GPy_ABCD/Models/modelSearch.py
index 33722d4..340aafc 100644
--- a/GPy_ABCD/Models/modelSearch.py
+++ b/GPy_ABCD/Models/modelSearch.py
@@ -119,6 +119,9 @@ def model_search_rounds(X, Y, sorted_models, tested_models, tested_k_exprs, expa
 
     Note: sorted_models is not actually used but replaced with the new value; present as an argument just for consistency
     '''
+    if len(np.shape(X)) == 1: X = np.array(X)[:, None]
+    if len(np.shape(Y)) == 1: Y = np.array(Y)[:, None]
+
     def score(m): return m.compute_utility(utility_function)
 
     beam = beam_by_round(beam, rounds)
-- 
2.43.0


From 493bf0d79f416fb045d206a752db15d50e1c1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 23/26] fix: start the shift variance of change windows with
 independent sides where optimisers can move it

---
 GPy_ABCD/Kernels/changeWindowShiftedSides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Kernels/changeWindowShiftedSides.py b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
index 8bb6616..e5c6826 100644
--- a/GPy_ABCD/Kernels/changeWindowShiftedSides.py
+++ b/GPy_ABCD/Kernels/changeWindowShiftedSides.py
@@ -31,7 +31,7 @@ class ChangeWindowShiftedSidesBase(CombinationKernel):
         self.location = Param('location', np.array(location))
         self.width = Param('width', np.array(width), Logexp())
         # self.shift_variance = Param('shift_variance', self.shift.variance.values, Logexp())
-        self.shift_variance = Param('shift_variance', np.array(0), Logexp())
+        self.shift_variance = Param('shift_variance', np.array(1.), Logexp())
         self.link_parameters(self.location, self.width, self.shift_variance)
 
         # self.data_range = None
-- 
2.43.0


From f6eeee5c65249ceb0aba1ed1629dad5fffdd0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 24/26] fix: plot as many sample curves as asked for

---
 GPy_ABCD/Util/kernelUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index be7f07b..1b1f423 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -18,7 +18,7 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
     else: Z = np.array([np.random.multivariate_normal(mu, k.K(X, X)) for i in range(n_curves) if not k.randomize()]).T
 
     df = pd.DataFrame(np.concatenate((X, Z), 1), columns = ['X'] + [n + 1 for n in range(Z.shape[1])])
-    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = list(range(Z.shape[1]))[1:])) +\
+    return ggplot(pd.melt(df, id_vars = ['X'], value_vars = [n + 1 for n in range(Z.shape[1])])) +\
             geom_line(aes('X', 'value', color = 'variable'), show_legend = False)
 
 
-- 
2.43.0


From 52f71562ff401d68673ee05329a6c2d0f625074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 25/26] fix: save kernel samples, and where asked to

---
 GPy_ABCD/Util/kernelUtil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index 1b1f423..e8d6690 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -1,3 +1,4 @@
+import os
 import numpy as np
 import pandas as pd
 from plotnine import ggplot, geom_line, aes
@@ -23,6 +24,6 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
 
 
 def saveKernelSamples(ks, names, path, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
-    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).savefig(f'{n}.png')
+    for k, n in zip(ks, names): sampleCurves(k, xlims, n_curves, same_kernel).save(os.path.join(path, f'{n}.png'), verbose = False)
 
 
-- 
2.43.0


From feccb23812e0ed1143cc7d8d82e86af202144e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 26/26] fix: sample curves with the noise of their kernel

---
 GPy_ABCD/Util/kernelUtil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPy_ABCD/Util/kernelUtil.py b/GPy_ABCD/Util/kernelUtil.py
index e8d6690..f2faa11 100644
--- a/GPy_ABCD/Util/kernelUtil.py
+++ b/GPy_ABCD/Util/kernelUtil.py
@@ -15,8 +15,8 @@ def sampleCurves(k, xlims = (-3., 3.), n_curves = 5, same_kernel = False):
     mu = np.zeros(500) # vector of the means
     if same_kernel:
         k.randomize()
-        Z = np.random.multivariate_normal(mu, k.K(X, X), n_curves).T # sample paths with means mu and covariance C
-    else: Z = np.array([np.random.multivariate_normal(mu, k.K(X, X)) for i in range(n_curves) if not k.randomize()]).T
+        Z = np.random.multivariate_normal(mu, k.K(X), n_curves).T # sample paths with means mu and covariance C
+    else: Z = np.array([np.random.multivariate_normal(mu, k.K(X)) for i in range(n_curves) if not k.randomize()]).T
 
     df = pd.DataFrame(np.concatenate((X, Z), 1), columns = ['X'] + [n + 1 for n in range(Z.shape[1])])
     return ggplot(pd.melt(df, id_vars = ['X'], value_vars = [n + 1 for n in range(Z.shape[1])])) +\
-- 
2.43.0

