From f8c506b37b5c3432c957a04201e8fbb92e68b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 001/124] fix: prod_pscale log offset is the sum of offsets,
 not its logarithm

---
 probayes/pscales.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index a31b873..8aa5c8e 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -150,10 +150,7 @@ def prod_pscale(pscales, use_logp=None):
   if use_logp:
     if abs(rtype) < NEARLY_POSITIVE_ZERO:
       return COMPLEX_ZERO
-    elif rtype > 0:
-      return complex(np.log(rtype), 0.)
-    else:
-      return complex(np.log(-rtype), np.pi)
+    return complex(rtype, 0.)
   return rtype
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 06f0e39a16b3d5f1fe86e345fc6ec1fa68926325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 002/124] fix: prod_rule rescales its result to the pscale
 requested

---
 probayes/pscales.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 8aa5c8e..2c516dc 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -165,7 +165,8 @@ def prod_rule(*args, **kwds):
   :return: joint_probility, pscale (two element tuple)
   """
   kwds = dict(kwds)
-  pscales = kwds.get('pscales', [1.] * len(args))
+  pscales = [eval_pscale(_pscale)
+             for _pscale in kwds.get('pscales', [1.] * len(args))]
   use_logp = kwds.get('use_logp', any([iscomplex(_pscale) for _pscale in pscales]))
   ppscale = prod_pscale(pscales, use_logp)
   pscale = kwds.get('pscale', ppscale)
@@ -188,9 +189,7 @@ def prod_rule(*args, **kwds):
     return prob
 
   # Possibly fast-track
-  if use_logp != iscomplex(ppscale):
-    ppscale = complex(np.log(ppscale), 0.) if use_logp else float(np.exp(ppscale))
-  elif use_logp == iscomplex(pscale) and ppscale == pscale and \
+  if use_logp == iscomplex(pscale) and ppscale == pscale and \
       len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
     prob = _apply_prod(list(args))
     return prob, pscale
@@ -207,8 +206,8 @@ def prod_rule(*args, **kwds):
       if p_log:
         probs[i] = exp_logp(probs[i])
   prob = _apply_prod(probs)
-  if use_logp != iscomplex(pscale):
-    prob = rescale(prob, ppscale, pscales)
+  if use_logp != iscomplex(pscale) or ppscale != pscale:
+    prob = rescale(prob, ppscale, pscale)
 
   return prob, pscale
 
-- 
2.43.0


From 7bf94efb83bfa2ab63699d9d28208c4a067b07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 003/124] fix: div_prob divides log probabilities in log-space
 and honours a zero log pscale

---
 probayes/pscales.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index 2c516dc..fccc3e9 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -225,7 +225,17 @@ def div_prob(dividend, divisor, *args, pscale=None):
     assert len(args) == 2, "Both pscales must be specified if at all"
     pscales[0] = eval_pscale(args[0])
     pscales[1] = eval_pscale(args[1])
-    pscale = pscale or pscales[0]
+    pscale = pscales[0] if pscale is None else pscale
+
+  # If either are log probabilities, divide in log-space to prevent underflow
+  if any([iscomplex(_pscale) for _pscale in pscales]):
+    dividend = rescale(dividend, pscales[0], COMPLEX_ZERO)
+    divisor = rescale(divisor, pscales[1], COMPLEX_ZERO)
+    quotient = np.where(dividend <= NEARLY_NEGATIVE_INF,
+                        NEARLY_NEGATIVE_INF, dividend - divisor)
+    quotient = float(quotient) if quotient.ndim == 0 else quotient
+    return rescale(quotient, COMPLEX_ZERO, pscale)
+
   dividend = rescale(dividend, pscales[0], None)
   divisor = rescale(divisor, pscales[1], None)
   quotient = dividend / np.maximum(NEARLY_POSITIVE_ZERO, divisor)
-- 
2.43.0


From b12f8541e79deebb66851c34e56402619689696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:28 +0000
Subject: [PATCH 004/124] fix: prod_rule fast-track requires arguments on the
 scale of the result

---
 probayes/pscales.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pscales.py b/probayes/pscales.py
index fccc3e9..4b9edd9 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -190,7 +190,7 @@ def prod_rule(*args, **kwds):
 
   # Possibly fast-track
   if use_logp == iscomplex(pscale) and ppscale == pscale and \
-      len(set([iscomplex(_pscale) for _pscale in pscales])) == 1:
+      set([iscomplex(_pscale) for _pscale in pscales]) == {use_logp}:
     prob = _apply_prod(list(args))
     return prob, pscale
 
-- 
2.43.0


From ee70728d0734f610b7015f9e26434672f48bbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:28 +0000
Subject: [PATCH 005/124] fix: product honours a logarithmic pscale keyword

---
 probayes/pd_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 0106cd1..b851e5d 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -7,7 +7,7 @@ import functools
 import numpy as np
 import h5py
 from probayes.vtypes import isscalar, issingleton, isunitsetint
-from probayes.pscales import prod_pscale, prod_rule, iscomplex
+from probayes.pscales import eval_pscale, prod_pscale, prod_rule, iscomplex
 
 #-------------------------------------------------------------------------------
 def str2key(string):
@@ -95,7 +95,8 @@ def product(*args, **kwds):
     return None
   kwds = dict(kwds)
   pscales = [arg.pscale for arg in args]
-  pscale = kwds.get('pscale', None) or prod_pscale(pscales)
+  pscale = kwds.get('pscale', None)
+  pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
                     np.all(pscale == np.array(pscales)) and \
-- 
2.43.0


From 4bbcea41d195dae708d1e0879e979cb116db3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:28 +0000
Subject: [PATCH 006/124] fix: product matches conditionals to marginals by key
 and checks their values

---
 probayes/pd_utils.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index b851e5d..588193a 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -197,29 +197,34 @@ def product(*args, **kwds):
   prod_marg_name = ','.join(prod_marg)
   flat_cond_names = [name for dist_cond_names in cond_names \
                           for name in dist_cond_names]
-  cond2marg = [cond_name for cond_name in flat_cond_names \
-                         if cond_name in prod_marg]
-  prod_cond = [cond_name for cond_name in flat_cond_names \
-                         if cond_name not in cond2marg]
+  cond2marg = [str2key(cond_name) for cond_name in flat_cond_names \
+                         if str2key(cond_name) in all_marg_keys]
+  prod_cond = []
+  for cond_name in flat_cond_names:
+    cond_key = str2key(cond_name)
+    if cond_key not in cond2marg and cond_key not in str2key(prod_cond):
+      prod_cond.append(cond_name)
   cond2marg_set = set(cond2marg)
 
   # Check conditionals compatible
-  prod_cond_set = set(prod_cond)
-  cond2marg_dict = {name: None for name in cond2marg}
+  prod_cond_set = set(str2key(prod_cond))
+  shared_keys = cond2marg + str2key(prod_cond)
+  shared_dict = {name: None for name in shared_keys}
   for i, arg in enumerate(args):
-    cond_set = set(cond_names[i]) - cond2marg_set
+    cond_set = set(arg.cond.keys()) - cond2marg_set
     if cond_set:
       assert prod_cond_set == cond_set, \
           "Incompatible product conditional {} for conditional set {}: ".format(
               prod_cond_set, cond_set)
-    for name in cond2marg:
-      if name in arg.keys():
+    for name in shared_keys:
+      if name in arg.keys() and not isunitsetint(arg[name]):
         values = arg[name]
         if not isscalar(values):
           values = np.ravel(values)
-        if cond2marg_dict[name] is None:
-          cond2marg_dict[name] = values
-        elif not np.allclose(cond2marg_dict[name], values):
+        if shared_dict[name] is None:
+          shared_dict[name] = values
+        elif np.shape(shared_dict[name]) != np.shape(values) or \
+            not np.allclose(shared_dict[name], values):
           raise ValueError("Mismatch in values for condition {}".format(name))
 
   # Establish product name, values, and dimensions
-- 
2.43.0


From 4814914b407c378483258cf74961f52553b1e46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:28 +0000
Subject: [PATCH 007/124] fix: product keeps shared dimensions together
 whatever the order of variables

---
 probayes/pd_utils.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 588193a..855783f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -264,23 +264,22 @@ def product(*args, **kwds):
       dims_shared = True
 
   # Shared dimensions limit product dimensionality
+  shared_index = np.arange(prod_nkeys)
   if dims_shared:
-    seen_keys = set()
-    for i, key in enumerate(prod_keys):
-      if prod_newdims[i] and key not in seen_keys:
-        for arg in args:
-          if key in arg.dims:
-            dim = arg.dims[key]
-            seen_keys.add(key)
-            for argkey, argdim in arg.dims.items():
-              seen_keys.add(argkey)
-              if argkey != key and argdim is not None:
-                if dim == argdim:
-                  index = prod_keys.index(argkey)
-                  prod_newdims[index] = False
+    for arg in args:
+      for dim in set(arg.dims.values()):
+        if dim is not None:
+          indices = [prod_keys.index(key) for key, val in arg.dims.items()
+                     if val == dim]
+          shared = np.isin(shared_index, shared_index[indices])
+          shared_index[shared] = np.min(shared_index[shared])
+    prod_newdims = np.logical_and(prod_newdims,
+                                  shared_index == np.arange(prod_nkeys))
 
   prod_cdims = np.cumsum(prod_newdims)
   prod_ndims = prod_cdims[-1]
+  for i, index in enumerate(shared_index):
+    prod_cdims[i] = prod_cdims[index]
 
   # Fast-track scalar products
   if maybe_fasttrack and prod_ndims == 0:
-- 
2.43.0


From 589b28d9e24a57261407cd356c78ae4ab41650f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 008/124] fix: marginalise keeps dimensions aligned whatever
 the order of axes

---
 probayes/pd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 5121387..bb98ef8 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -145,7 +145,6 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     sum_axes = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -153,11 +152,15 @@ class PD (Distribution):
             "Cannot marginalise along scalar for key {}".format(key)
         sum_axes.add(self._dims[key])
         marg.pop(key)
-        dim_delta += 1
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dims.update({key: self._dims[key]})
         vals.update({key:self[key]})
+    for key, dim in dims.items():
+      assert dim not in sum_axes, \
+          "Dimensionality precludes marginalising {} without: {}".\
+          format(keys, key)
+      dims[key] = dim - sum([axis < dim for axis in sum_axes])
     name = margcond_str(marg, cond)
     prob = rescale(self._prob, self._pscale, 1.)
     sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)
-- 
2.43.0


From 6f2db4b006197189de22bdc6ef2e539b38dc1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 009/124] fix: conditionalise keeps dimensions aligned whatever
 the order of axes

---
 probayes/pd.py | 37 +++++++++++--------------------------
 1 file changed, 11 insertions(+), 26 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index bb98ef8..e90e69a 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -227,7 +227,6 @@ class PD (Distribution):
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     normalise = False
-    delta = 0
     marg_scalars = set()
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -239,34 +238,20 @@ class PD (Distribution):
       elif key in self._marg.keys():
         if self._aresingleton[i]:
           marg_scalars.add(key)
-        if key in keys:
-          delta += 1 # Don't add to dim just yet
-        else:
-          dim = self._dims[key]
-          dims.update({key: dim})
+        if key not in keys: # Don't add to dim just yet otherwise
+          dims.update({key: self._dims[key]})
       else:
-        dim = self.dims[key] - delta
-        dims.update({key: dim})
-
-    # Reduce remaining marginals to lowest dimension
-    dim_val = [val for val in dims.values() if val is not None]
-    dim_max = 0
-    if len(dim_val):
-      dim_min = min(dim_val)
-      for key in dims.keys():
-        if dims[key] is not None:
-          dim = dims[key]-dim_min
-          dims.update({key: dim})
-          dim_max = max(dim_max, dim)
-    dim_min = self.ndim
-    for key in keys:
-      dim = self.dims[key]
-      if dim is not None:
-        dim_min = min(dim_min, dim)
-    for key in keys:
+        dims.update({key: self._dims[key]})
+
+    # Move dimensions of the conditioning keys after those remaining
+    key_dims = set([self._dims[key] for key in keys
+                    if self._dims[key] is not None])
+    dim_order = [dim for dim in range(self._ndim) if dim not in key_dims]
+    dim_order += sorted(key_dims)
+    for key in self._keylist:
       dim = self._dims[key]
       if dim is not None:
-        dims.update({key: dim-dim_min+dim_max+1})
+        dims.update({key: dim_order.index(dim)})
     if normalise:
       assert marg_scalars.issubset(set(keys)), \
         "If conditionalising for key {}".format(key) + "," + \
-- 
2.43.0


From be55459dbf1b2382d5b99f4713b17658d85e8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 010/124] fix: marginalise and conditionalise sum log
 probabilities without underflow

---
 probayes/pd.py      | 18 +++++++-----------
 probayes/pscales.py | 10 ++++++++++
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index e90e69a..8d7909a 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -8,7 +8,7 @@ from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
 from probayes.vtypes import isscalar
 from probayes.pscales import eval_pscale, rescale, iscomplex
-from probayes.pscales import div_prob
+from probayes.pscales import div_prob, sum_prob
 from probayes.distribution import Distribution
 
 #-------------------------------------------------------------------------------
@@ -162,9 +162,7 @@ class PD (Distribution):
           format(keys, key)
       dims[key] = dim - sum([axis < dim for axis in sum_axes])
     name = margcond_str(marg, cond)
-    prob = rescale(self._prob, self._pscale, 1.)
-    sum_prob = np.sum(prob, axis=tuple(sum_axes), keepdims=False)
-    prob = rescale(sum_prob, 1., self._pscale)
+    prob = sum_prob(self._prob, self._pscale, axis=tuple(sum_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
@@ -271,15 +269,13 @@ class PD (Distribution):
         if key not in keys and key in self._marg.keys():
           sum_axes.add(dims[key])
     prob = np.moveaxis(self._prob, old_dims, new_dims)
-    if normalise and iscomplex(self._pscale): 
-      prob = prob - prob.max()
-    prob = rescale(prob, self._pscale, 1.)
     if normalise:
-      prob = div_prob(prob, np.sum(prob))
+      prob = div_prob(prob, sum_prob(prob, self._pscale),
+                      self._pscale, self._pscale)
     if len(sum_axes):
-      prob = div_prob(prob, \
-                         np.sum(prob, axis=tuple(sum_axes), keepdims=True))
-    prob = rescale(prob, 1., self._pscale)
+      prob = div_prob(prob, sum_prob(prob, self._pscale, axis=tuple(sum_axes),
+                                     keepdims=True),
+                      self._pscale, self._pscale)
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/pscales.py b/probayes/pscales.py
index 4b9edd9..58f0038 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -211,6 +211,16 @@ def prod_rule(*args, **kwds):
 
   return prob, pscale
 
+#-------------------------------------------------------------------------------
+def sum_prob(prob, pscale=None, axis=None, keepdims=False):
+  """ Safely sums probabilities over axes, with the result on the same pscale """
+  if not iscomplex(eval_pscale(pscale)):
+    return np.sum(prob, axis=axis, keepdims=keepdims)
+  max_logp = np.max(prob, axis=axis, keepdims=True)
+  sum_logp = np.log(np.sum(np.exp(prob - max_logp), axis=axis, keepdims=True))
+  sum_logp = np.maximum(NEARLY_NEGATIVE_INF, max_logp + sum_logp)
+  return sum_logp if keepdims else np.sum(sum_logp, axis=axis)
+
 #-------------------------------------------------------------------------------
 def div_prob(dividend, divisor, *args, pscale=None):
   """ Safely divides two probability arrays.
-- 
2.43.0


From 00a4c0ba4f5c3a7999fa39c6df4240c232acfc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 011/124] fix: division aligns the axes of divisors including
 those of conditionals

---
 probayes/pd.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 8d7909a..1cb35cf 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -582,8 +582,6 @@ class PD (Distribution):
     for i, key in enumerate(self._keylist):
       if key in keys:
         cond.update({key:marg.pop(key)})
-        if not self._aresingleton[i] and not divs:
-          re_shape[self.dims[key]] = other[key].size
       else:
         vals.update({key:self[key]})
 
@@ -594,7 +592,15 @@ class PD (Distribution):
 
     # Evaluate probabilities
     name = margcond_str(marg, cond)
-    divp = other.prob if divs else other.prob.reshape(re_shape)
+    divp = other.prob
+    if not divs:
+      dims = {}
+      for key, dim in other.dims.items():
+        if dim is not None:
+          dims.update({self._dims[key]: dim})
+          re_shape[self._dims[key]] = other[key].size
+      divp = np.transpose(divp, [dims[dim] for dim in sorted(dims)])
+      divp = divp.reshape(re_shape)
     prob = div_prob(self._prob, divp, self._pscale, other.pscale)
     return PD(name, vals, dims=self._dims, prob=prob, pscale=self._pscale)
 
-- 
2.43.0


From 46d850d35f4d56cf2d6bd5a35da3157cb207efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 012/124] fix: Distribution.singleton looks up individual keys

---
 probayes/distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 990968c..37974c3 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -202,10 +202,10 @@ class Distribution (NamedDict):
     if key is None:
       return self._issingleton
     if isinstance(key, str):
-      if key not in self._keys:
+      if key not in self._keylist:
         return None
-      key = self._keys.index(key)
-    return self._issingleton[key]
+      key = self._keylist.index(key)
+    return self._aresingleton[key]
 
 #-------------------------------------------------------------------------------
   def lookup(self, keys, as_dist=False):
-- 
2.43.0


From d8872f7ef8df2fc6ef6f48e857c752f1967eec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 013/124] fix: redim operates on distributions with array
 values, shared dimensions and unlisted scalars

---
 probayes/distribution.py | 5 ++++-
 probayes/pd.py           | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37974c3..70708cb 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -258,7 +258,10 @@ class Distribution (NamedDict):
         assert dims[key] is None, \
             "Dimension {} requested for singleton with key {}".\
             format(dims[key], key)
-    vals = {key: self[key] for key in dims.keys()}
+    vals = collections.OrderedDict({key: self[key] for key in dims.keys()})
+    for key in self._keylist:
+      if key not in vals:
+        vals.update({key: self[key]})
     return Distribution(self._name, vals, dims=dims)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/pd.py b/probayes/pd.py
index 1cb35cf..9eae78e 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -293,7 +293,7 @@ class PD (Distribution):
       old_dims = []
       new_dims = []
       for i, key in enumerate(self._keylist):
-        if not self._aresingletons[i]:
+        if not self._aresingleton[i] and self._dims[key] not in old_dims:
           old_dims.append(self._dims[key])
           new_dims.append(dims[key])
       prob = np.moveaxis(prob, old_dims, new_dims)
-- 
2.43.0


From bb8933baa1cccdd1df433ee10b3e9a3f7406212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 014/124] fix: rekey refuses to rename a key to another that is
 already present

---
 probayes/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 70708cb..66985c8 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -275,6 +275,8 @@ class Distribution (NamedDict):
     dims = collections.OrderedDict()
     for key in self._keylist:
       if key not in keymap.keys():
+        assert key not in vals, \
+            "Key map results in duplicate for key: {}".format(key)
         vals.update({key: self[key]})
         dims.update({key: self.dims[key]})
       else:
-- 
2.43.0


From 433d9935681b043099b5df616cc935b0afd19279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 015/124] fix: lookup as a distribution excludes dimensions of
 keys left out

---
 probayes/distribution.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 66985c8..37e8fff 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -221,6 +221,9 @@ class Distribution (NamedDict):
           keylist.append(key)
           vals.update({key: self[key]})
           dims.update({key: self._dims[key]})
+      used_dims = sorted(set([dim for dim in dims.values() if dim is not None]))
+      for key, dim in dims.items():
+        dims[key] = None if dim is None else used_dims.index(dim)
       return Distribution(','.join(keylist), vals, dims=dims)
     seen_keys = set()
     for i, key in enumerate(self._keylist):
-- 
2.43.0


From ded062888daadc53a93c34b0f0d759e680fdfd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:29 +0000
Subject: [PATCH 016/124] fix: slicing respects dimension order, shared
 dimensions, and multiple matches

---
 probayes/pd.py | 76 ++++++++++++++++++++++++--------------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 9eae78e..a154d97 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -496,52 +496,48 @@ class PD (Distribution):
     keys = values.keys()
     keyset = set(values.keys())
     assert len(keyset.union(self._keyset)) == len(self._keyset),\
-        "Unrecognised key among values keys: {}".format(keys())
+        "Unrecognised key among values keys: {}".format(keys)
     marg = collections.OrderedDict(self._marg)
     cond = collections.OrderedDict(self._cond)
     dims = collections.OrderedDict(self._dims)
     vals = collections.OrderedDict(self)
-    slices = [slice(None) for _ in range(self.ndim)]
-    dim_delta = 0
+
+    # Match values along each dimension
+    matches = {}
     for i, key in enumerate(self._keylist):
-      check_dims = False
-      if not self._aresingleton[i]:
-        dim = self.dims[key]
-        if key in keyset:
-          assert np.isscalar(values[key]), \
-              "Values must contain scalars but found {} for {}".\
-              format(values[key], key)
-          match = np.ravel(self[key]) == values[key]
-          n_matches = match.sum()
-          post_eq = '{}'.format(values[key])
-          if n_matches == 0:
-            slices[dim] = slice(0, 0)
-            vals[key] = np.array([])
-          elif n_matches == 1 and not keepdims:
-            dim_delta += 1
-            slices[dim] = int(np.nonzero(match)[0])
-            vals[key] = values[key]
-            dims[key] = None
-          else:
-            post_eq = '[]'
-            slices[dim] = np.nonzero(match)[0]
-            vals[key] = self[key][slices[dim]]
-            check_dims = True
-          update_keys = [key]
-          if check_dims:
-            for k, v in self.items():
-              if dim == self._dims[k] and k not in keyset:
-                vals[k] = self[k][slices[dim]]
-                update_keys.append(k)
-          for update_key in update_keys:
-            if key in marg.keys():
-              marg[key] = "{}={}".format(key, post_eq)
-            elif key in cond.keys():
-              cond[key] = "{}={}".format(key, post_eq)
-        elif dim_delta:
-          dims[key] = dims[key] - dim_delta
+      if not self._aresingleton[i] and key in keyset:
+        assert np.isscalar(values[key]), \
+            "Values must contain scalars but found {} for {}".\
+            format(values[key], key)
+        dim = self._dims[key]
+        match = np.ravel(self[key]) == values[key]
+        matches[dim] = match if dim not in matches else matches[dim] & match
+    scalar_dims = [dim for dim, match in matches.items()
+                   if match.sum() == 1 and not keepdims]
+
+    # Slice values, including for keys that share dimensions
+    for i, key in enumerate(self._keylist):
+      dim = self._dims[key]
+      if dim is None:
+        continue
+      if dim in matches:
+        post_eq = '[]'
+        vals[key] = np.ravel(self[key])[matches[dim]]
+        if dim in scalar_dims:
+          vals[key] = values[key] if key in keyset else vals[key][0]
+          post_eq = '{}'.format(vals[key])
+        if key in marg.keys():
+          marg[key] = "{}={}".format(key, post_eq)
+        elif key in cond.keys():
+          cond[key] = "{}={}".format(key, post_eq)
+      dims[key] = None if dim in scalar_dims else \
+                  dim - sum([scalar_dim < dim for scalar_dim in scalar_dims])
     name = margcond_str(marg, cond)
-    prob = self._prob[tuple(slices)]
+    prob = self._prob
+    for dim, match in matches.items():
+      prob = np.compress(match, prob, axis=dim)
+    if scalar_dims:
+      prob = np.squeeze(prob, axis=tuple(scalar_dims))[()]
     return PD(name, vals, dims=dims, prob=prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 4e0bb39b6efdd6b51c5dec376ff5fa0b83204a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 017/124] fix: Distribution reshapes values to the full
 dimensionality when dims are not specified

---
 probayes/distribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 37e8fff..60ac6e1 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -143,6 +143,8 @@ class Distribution (NamedDict):
     for dim in self._dims.values():
       if dim is not None:
         self._ndim = max(self._ndim, dim+1)
+    if eval_dims:
+      self._ndim = int(np.sum(np.logical_not(self._aresingleton)))
 
     # Corroborate vals and dims
     ones_ndim = np.ones(self._ndim, dtype=int)
@@ -174,10 +176,6 @@ class Distribution (NamedDict):
             "shape {} for key {}".format(values.shape, key)
         if eval_dims:
           self._dims.update({key: nonsingleton_count})
-          if len(self._shape) == nonsingleton_count:
-            self._shape.append(None)
-            self._ndim = len(self._shape)
-            ones_ndim = np.ones(self._ndim, dtype=int)
         else:
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
-- 
2.43.0


From 1efeb3ae8ba9caf3323080f6258508e80cae21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 018/124] fix: expectation and quantile evaluate log
 probabilities without underflow

---
 probayes/pd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index a154d97..c171ca0 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -369,7 +369,10 @@ class PD (Distribution):
         if self._dims[key] is not None:
           sum_axes.append(self._dims[key])
         dims[key] = None
-    prob = rescale(self._prob, self._pscale, 1.)
+    prob = self._prob
+    if iscomplex(self._pscale): # Normalise by maximum to prevent underflow
+      max_axes = tuple(set(sum_axes)) if sum_axes else None
+      prob = np.exp(prob - np.max(prob, axis=max_axes, keepdims=True))
     if sum_axes:
       sum_prob = np.sum(prob, axis=tuple(set(sum_axes)), keepdims=False)
     else:
@@ -408,7 +411,9 @@ class PD (Distribution):
           unsorted.add(key)
 
     # Evaluate quantiles from cumulative probability
-    ravprob = rescale(np.ravel(self.prob), self._pscale, 1.)
+    ravprob = np.ravel(self.prob)
+    if iscomplex(self._pscale): # Normalise by maximum to prevent underflow
+      ravprob = np.exp(ravprob - np.max(ravprob))
     cumprob = np.cumsum(ravprob)
     cumprob = div_prob(cumprob, cumprob[-1])
     cum_idx = np.maximum(0, np.digitize(np.array(quants), cumprob)-1).tolist()
-- 
2.43.0


From 3a9814265ca7739006b0db726f3dc2898265aeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 019/124] fix: quantile always interpolates so that quantiles
 never decrease

---
 probayes/pd.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index c171ca0..c8b48a2 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -437,14 +437,9 @@ class PD (Distribution):
             quantiles[j].update({key: val[idx]})
           else:
             vals = val[idx:idx+2]
-            ravp = ravprob[rav_idx:rav_idx+2]
-            if np.abs(np.diff(ravp)) < min(quants[j], 1. - quants[j]):
-              cump = cumprob[rav_idx:rav_idx+2]
-              interp_val = np.interp(quants[j], cump, vals)
-              quantiles[j].update({key: interp_val})
-            else:
-              weighted_val = np.sum(ravp * vals) / np.sum(ravp)
-              quantiles[j].update({key: weighted_val})
+            cump = cumprob[rav_idx:rav_idx+2]
+            interp_val = np.interp(quants[j], cump, vals)
+            quantiles[j].update({key: interp_val})
     if isscalar(q):
       return quantiles[0]
     return quantiles
-- 
2.43.0


From f990a5dae52059c534161f31c2c7d2a900b519f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 020/124] fix: PD.prod keeps dimensions aligned whatever the
 order of axes

---
 probayes/pd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index c8b48a2..08a1af2 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -325,7 +325,6 @@ class PD (Distribution):
     cond = collections.OrderedDict(self._cond)
     vals = collections.OrderedDict()
     dims = collections.OrderedDict()
-    dim_delta = 0
     prod_axes = []
     for i, key in enumerate(self._keylist):
       if key in keys:
@@ -333,13 +332,17 @@ class PD (Distribution):
             "Cannot apply product along scalar for key {}".format(key)
         if self._dims[key] not in prod_axes:
           prod_axes.append(self.dims[key])
-          dim_delta += 1
         marg.update({key: key+"={}"})
         vals.update({key: {self[key].size}})
       else:
         if not self._aresingleton[i]:
-          dims.update({key: self._dims[key] - dim_delta})
+          dims.update({key: self._dims[key]})
         vals.update({key:self[key]})
+    for key, dim in dims.items():
+      assert dim not in prod_axes, \
+          "Dimensionality precludes product over {} without: {}".\
+          format(keys, key)
+      dims[key] = dim - sum([axis < dim for axis in prod_axes])
     name = margcond_str(marg, cond)
     pscale = self._pscale
     pscale_product = pscale
-- 
2.43.0


From 5aa261cf407f986dc0ebc93f2829bc0310de9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 021/124] fix: PD.prod raises pscale to the number of
 probabilities multiplied

---
 probayes/pd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 08a1af2..3aad8f4 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -349,9 +349,9 @@ class PD (Distribution):
     if pscale_product not in [0., 1.]:
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
-        pscale_product += pscale*pscale_scaling 
+        pscale_product = pscale*pscale_scaling
       else:
-        pscale_product *= pscale**pscale_scaling 
+        pscale_product = float(pscale**pscale_scaling)
     prob = np.sum(self.prob, axis=tuple(prod_axes)) if iscomplex(pscale) \
            else np.prod(self.prob, axis=tuple(prod_axes))
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale_product)
-- 
2.43.0


From 13bb70d18e933e3019c272ce85df4ab6667d3f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 022/124] fix: product of sample sets matches variables by key
 and aligns axes

---
 probayes/pd_utils.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 855783f..4a29d8f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -169,22 +169,25 @@ def product(*args, **kwds):
       prod_name = '|'.join([prod_marg_name, prod_cond_name])
       prod_vals = collections.OrderedDict()
       for i, val in enumerate(vals):
-        areunitsetints = np.array([isunitsetint(_val) 
-                                   for _val in val.values()])
-        if not np.any(areunitsetints):
+        areunitsetints = {key: isunitsetint(_val) for key, _val in val.items()}
+        if not any(areunitsetints.values()):
           prod_vals.update(val)
         else:
           assert marg_sets is not None, "Variable mismatch"
-          assert np.all(marg_sets == areunitsetints[:len(marg_sets)]), \
-              "Variable mismatch"
           if not len(prod_vals):
             prod_vals.update(collections.OrderedDict(val))
           else:
-            for j, key in enumerate(prod_vals.keys()):
-              if areunitsetints[j]:
+            for key in prod_vals.keys():
+              if areunitsetints[key]:
                 prod_vals.update({key: {list(prod_vals[key])[0] + \
                                         list(val[key])[0]}})
       if marg_sets is not None:
+        for i, arg in enumerate(args):
+          for key, values in arg.items():
+            if not isunitsetint(values) and not np.array_equal(
+                np.ravel(values), np.ravel(args[0][key])):
+              raise ValueError("Mismatch in values for {}".format(key))
+          probs[i] = arg.redim(args[0].dims).prob
         prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=pscale)
         return PD(prod_name, prod_vals, dims=args[0].dims, prob=prob, pscale=pscale)
       else:
-- 
2.43.0


From 3bc6af25ec90633fabada09ee8982128b4668d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 023/124] fix: remarginalise adds log probabilities without
 underflow

---
 probayes/pd.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 3aad8f4..60042b9 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -7,6 +7,7 @@ from probayes.named_dict import NamedDict
 from probayes.pd_utils import str_margcond, margcond_str, product, summate, \
                               rekey_dict, ismonotonic
 from probayes.vtypes import isscalar
+from probayes.constants import NEARLY_NEGATIVE_INF
 from probayes.pscales import eval_pscale, rescale, iscomplex
 from probayes.pscales import div_prob, sum_prob
 from probayes.distribution import Distribution
@@ -647,11 +648,15 @@ class PD (Distribution):
                                      np.digitize(rav_vals, edges)-1))
 
     # Iterate through every self.prob value
-    rav_prob = np.ravel(rescale(self._prob, self._pscale, 1.))
-    rem_prob = np.zeros(distribution.shape, dtype=float)
+    rav_prob = np.ravel(self._prob)
+    use_logp = iscomplex(self._pscale)
+    rem_prob = np.tile(NEARLY_NEGATIVE_INF if use_logp else 0., distribution.shape)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
-      rem_prob[rem_idx] += rav_prob[i]
+      if use_logp:
+        rem_prob[rem_idx] = np.logaddexp(rem_prob[rem_idx], rav_prob[i])
+      else:
+        rem_prob[rem_idx] += rav_prob[i]
 
     # Replace marginal keys and keep conditional keys
     rem_vals = collections.OrderedDict(distribution)
@@ -674,8 +679,7 @@ class PD (Distribution):
         rem_dims.update({key: self._dims[key]})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
-              prob=rescale(rem_prob, 1., self._pscale),
-              pscale=self._pscale)
+              prob=rem_prob, pscale=self._pscale)
 
 #-------------------------------------------------------------------------------
   def __repr__(self):
-- 
2.43.0


From 9f2d7186d9f86465ff1534b92b271a5f5ce13c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 024/124] fix: remarginalise preserves conditional variables

---
 probayes/pd.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 60042b9..091dd77 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -647,10 +647,18 @@ class PD (Distribution):
         indices[dim] = np.maximum(0, np.minimum(len(edges)-1, \
                                      np.digitize(rav_vals, edges)-1))
 
+    # Conditional dimensions follow those of the distribution
+    cond_keys = list(self._cond.keys())
+    cond_dims = sorted(set([self._dims[key] for key in cond_keys
+                            if self._dims[key] is not None]))
+    unr_idx = np.unravel_index(np.arange(self.size), self._shape)
+    indices = list(indices) + [unr_idx[dim] for dim in cond_dims]
+    rem_shape = list(shape) + [self._shape[dim] for dim in cond_dims]
+
     # Iterate through every self.prob value
     rav_prob = np.ravel(self._prob)
     use_logp = iscomplex(self._pscale)
-    rem_prob = np.tile(NEARLY_NEGATIVE_INF if use_logp else 0., distribution.shape)
+    rem_prob = np.tile(NEARLY_NEGATIVE_INF if use_logp else 0., rem_shape)
     for i in range(self.size):
       rem_idx = tuple([idx[i] for idx in indices])
       if use_logp:
@@ -671,12 +679,12 @@ class PD (Distribution):
           marg_str[-1] = key + "=[]"
     rem_name = ','.join(marg_str)
     if '|' in self._name:
-      rem_name += self._name.split('|')[1]
-    cond_keys = list(self._cond.keys())
-    if cond_keys:
-      for key in cond_keys:
-        rem_vals.update({key: self[key]})
-        rem_dims.update({key: self._dims[key]})
+      rem_name += '|' + self._name.split('|')[1]
+    for key in cond_keys:
+      dim = self._dims[key]
+      rem_vals.update({key: self[key]})
+      rem_dims.update({key: None if dim is None else \
+                            len(shape) + cond_dims.index(dim)})
 
     return PD(rem_name, rem_vals, dims=rem_dims,
               prob=rem_prob, pscale=self._pscale)
-- 
2.43.0


From cf222f6370a13b5a3ae223ed53bf8de62c4e6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 025/124] fix: write_serialised leaves the dims of
 distributions unmodified

---
 probayes/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index 4a29d8f..f4a708f 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -486,7 +486,7 @@ def write_serialised(path, serialised, aux_dict={}):
       group_write = hdf_write.create_group(dist_name)
       for key, val in dist_dict.items():
         if key == 'attrs':
-          attrs = dist_dict['attrs']
+          attrs = collections.OrderedDict(dist_dict['attrs'])
           for k, v in attrs.items():
             if v is None:
               attrs[k] = 'None'
-- 
2.43.0


From df5e339e9c16ffccd6f930cfbeeb38a29af60eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 026/124] fix: serialisation preserves key order separately
 from dims and variables named order

---
 probayes/pd_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index f4a708f..a4a9871 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -492,8 +492,7 @@ def write_serialised(path, serialised, aux_dict={}):
               attrs[k] = 'None'
           group_write[key] = np.array(len(attrs))
           group_write[key].attrs.update(attrs)
-          if isinstance(attrs, collections.OrderedDict):
-            group_write[key].attrs.update({'order': list(attrs.keys())})
+          group_write.attrs['order'] = [k for k in dist_dict.keys() if k in attrs]
         else:
           if isinstance(val, np.ndarray):
             group_write[key] = val
@@ -522,8 +521,11 @@ def read_serialised(path):
         for key, val in group_read.items():
           if key == 'attrs':
             attrs = dict(val.attrs)
-            if 'order' in attrs:
+            if 'order' in group_read.attrs:
+              order = group_read.attrs['order'].tolist()
+            elif 'order' in attrs:
               order = attrs.pop('order')
+            if order is not None:
               ordered_dict = collections.OrderedDict()
               for ordered_key in order:
                 ordered_dict.update({ordered_key: attrs[ordered_key]})
-- 
2.43.0


From a52830cd739bc645642ad6e58d18289930820921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 027/124] fix: serialise refuses to overwrite distributions of
 the same name

---
 probayes/pd_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index a4a9871..c8ada9a 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -445,7 +445,11 @@ def serialise(*args):
   for arg in args:
     if not isinstance(arg, (PD, Distribution)):
       raise TypeError(f"Unrecogised type to serialise: {type(arg)}")
-    serialised.update(arg.serialise())
+    arg_serialised = arg.serialise()
+    for key in arg_serialised.keys():
+      assert key not in serialised, \
+          f"Cannot serialise distributions with duplicate name: {key}"
+    serialised.update(arg_serialised)
   return serialised
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 70bfbae85194374d5a07e395f7e0624f47d332ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 028/124] fix: a logarithmic pscale offset of one is not a
 linear pscale of one

---
 probayes/pd.py       | 2 +-
 probayes/pd_utils.py | 8 +++++---
 probayes/pscales.py  | 4 ++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 091dd77..9054ca9 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -347,7 +347,7 @@ class PD (Distribution):
     name = margcond_str(marg, cond)
     pscale = self._pscale
     pscale_product = pscale
-    if pscale_product not in [0., 1.]:
+    if pscale != (0. if iscomplex(pscale) else 1.):
       pscale_scaling = np.prod(np.array(self.shape)[prod_axes])
       if iscomplex(pscale):
         pscale_product = pscale*pscale_scaling
diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index c8ada9a..f5b2191 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -99,8 +99,10 @@ def product(*args, **kwds):
   pscale = prod_pscale(pscales) if pscale is None else eval_pscale(pscale)
   aresingleton = [arg.issingleton for arg in args]
   maybe_fasttrack = all(aresingleton) and \
-                    np.all(pscale == np.array(pscales)) and \
-                    pscale in [0, 1.]
+                    all([pscale == _pscale and \
+                         iscomplex(pscale) == iscomplex(_pscale) \
+                         for _pscale in pscales]) and \
+                    pscale == (0. if iscomplex(pscale) else 1.)
 
 
   # Collate vals, probs, marg_names, and cond_names as lists
@@ -349,7 +351,7 @@ def summate(*args):
   # Check pscales are the same
   pscale = pscales[0]
   for _pscale in pscales[1:]:
-    assert pscale == _pscale, \
+    assert pscale == _pscale and iscomplex(pscale) == iscomplex(_pscale), \
         "Cannot summate distributions with different pscales"
 
   # Check marginal and conditional keys
diff --git a/probayes/pscales.py b/probayes/pscales.py
index 58f0038..36f9bf5 100644
--- a/probayes/pscales.py
+++ b/probayes/pscales.py
@@ -26,6 +26,8 @@ def eval_pscale(pscale=None):
   """
   if pscale is None:
     return 1.
+  if iscomplex(pscale):
+    return pscale
   if pscale == 1:
     return 1.
   if pscale in ['log', 'ln', 0]:
@@ -36,8 +38,6 @@ def eval_pscale(pscale=None):
     if pscale == 0.:
       return COMPLEX_ZERO
     return pscale
-  if iscomplex(pscale):
-    return pscale
   raise ValueError("Cannot evaluate pscale={}".format(pscale))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From fe73307c23416c6b02163af348777eb8bb12b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 029/124] fix: summate concatenates array distributions along
 the axis that differs

---
 probayes/pd_utils.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/probayes/pd_utils.py b/probayes/pd_utils.py
index f5b2191..7f25e74 100644
--- a/probayes/pd_utils.py
+++ b/probayes/pd_utils.py
@@ -393,31 +393,23 @@ def summate(*args):
     return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
   # 2. all identical but in one dimension: concatenate in that dimension
-  # TODO: fix the remaining code of this function below
   sum_vals = collections.OrderedDict(args[0])
-  sum_dims = [None] * (len(args) - 1)
-  for i, arg in enumerate(args):
-    if i == 0:
-      continue
-    for key in marg_keys:
-      if sum_dims[i-1] is not None:
-        continue
-      elif not arg.singleton(key):
-        key_vals = arg[key]
-        if key_vals.size == sum_vals[key].size:
-          if np.allclose(key_vals, sum_vals[key]):
-            continue
-        sum_dims[i-1] = arg.dims[key]
-  assert len(set(sum_dims)) > 1, "Cannot find unique concatenation axis"
-  sum_dim = sum_dims[0]
   sum_dims = args[0].dims
-  key = marg_keys[sum_dim]
-  sum_prob = np.copy(probs[0])
-  for i, val in enumerate(vals):
-    if i == 0:
-      continue
-    sum_vals[key] = np.concatenate([sum_vals[key], val[key]], axis=sum_dim)
-    sum_prob = np.concatenate([sum_prob, probs[i]], axis=sum_dim)
+  cat_dims = set()
+  for i, arg in enumerate(args):
+    for key in sum_keys:
+      assert arg.singleton(key) == args[0].singleton(key), \
+          "Cannot mix singleton and array values for key {}".format(key)
+      if not np.array_equal(np.ravel(arg[key]), np.ravel(sum_vals[key])):
+        cat_dims.add(sum_dims[key])
+    probs[i] = arg.redim(sum_dims).prob
+  assert len(cat_dims) == 1 and None not in cat_dims, \
+      "Cannot find unique concatenation axis"
+  cat_dim = list(cat_dims)[0]
+  for key in sum_keys:
+    if sum_dims[key] == cat_dim:
+      sum_vals[key] = np.concatenate([np.ravel(val[key]) for val in vals])
+  sum_prob = np.concatenate(probs, axis=cat_dim)
   return PD(sum_name, sum_vals, dims=sum_dims, prob=sum_prob, pscale=pscale)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 52912078f633d66231a6520b2c3bcf43a67774ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:15 +0000
Subject: [PATCH 030/124] fix: PD refuses names that do not match the keys of
 its values

---
 probayes/pd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 9054ca9..7bb04c5 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -120,9 +120,12 @@ class PD (Distribution):
     Distribution.dims.fset(self, dims)
 
     # Override name entries for scalar values
+    name_keys = list(self.marg.keys()) + list(self.cond.keys())
+    if self._keylist:
+      assert len(name_keys) == len(set(name_keys)) and \
+             set(name_keys) == self._keyset, \
+          "Value keys {} mismatch name keys {}".format(self._keylist, name_keys)
     for i, key in enumerate(self._keylist):
-      assert key in self._keyset, \
-          "Value key {} not found among name keys {}".format(key, self._keyset)
       if self._aresingleton[i]:
         if key in self.marg.keys():
           self.marg[key] = "{}={}".format(key, self[key])
-- 
2.43.0


From 1e875fad23a9efb749bf7156c41488662044f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:15 +0000
Subject: [PATCH 031/124] fix: Distribution refuses inconsistent dims

---
 probayes/distribution.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index 60ac6e1..b75a65b 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -140,8 +140,13 @@ class Distribution (NamedDict):
     self._aresingleton = [issingleton(val) for val in self.values()]
     self._issingleton = np.all(self._aresingleton)
     self._ndim = 0 
-    for dim in self._dims.values():
+    for key, dim in self._dims.items():
+      assert key in self._keyset, \
+          "Dimension specified for unknown key {}".format(key)
       if dim is not None:
+        assert dim >= 0, \
+          "Dimension index for key {} must be non-negative, not {}".\
+          format(key, dim)
         self._ndim = max(self._ndim, dim+1)
     if eval_dims:
       self._ndim = int(np.sum(np.logical_not(self._aresingleton)))
@@ -180,6 +185,9 @@ class Distribution (NamedDict):
           assert key in self._dims, "Missing key {} in dims specification {}".\
               format(key, self._dims)
         self._sizes.append(val_size)
+        assert self._shape[self._dims[key]] in [None, val_size], \
+            "Values of key {} differ in size from others sharing dimension {}".\
+            format(key, self._dims[key])
         self._shape[self._dims[key]] = val_size
         vals_shape = np.copy(ones_ndim)
         vals_shape[self._dims[key]] = val_size
-- 
2.43.0


From 4cc8cc405e60da1bebb05e5ae9d75317599560ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 032/124] fix: empty values keep their shape when
 redimensionalised

---
 probayes/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/distribution.py b/probayes/distribution.py
index b75a65b..6da8a60 100644
--- a/probayes/distribution.py
+++ b/probayes/distribution.py
@@ -176,7 +176,7 @@ class Distribution (NamedDict):
             "Dictionary of numpy arrays expected for nonsingletons but found" + \
             "type {} for key {}".format(type(values), key)
         val_size = values.size
-        assert val_size == np.max(values.shape), \
+        assert sum([size != 1 for size in values.shape]) <= 1, \
             "Values must have one non-singleton dimension but found" + \
             "shape {} for key {}".format(values.shape, key)
         if eval_dims:
-- 
2.43.0


From f125d55ec38e52513e5ec8058ded53b69902ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:32 +0000
Subject: [PATCH 033/124] fix: Variable accepts array vsets and leaves lists
 given as vsets unmodified

---
 probayes/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 9f56198..589afff 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -109,10 +109,11 @@ class Variable (Icon):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-    if vtype or vset:
+    vset_given = isinstance(vset, np.ndarray) or bool(vset)
+    if vtype or vset_given:
       if vtype:
         self.vtype = vtype
-      if vset:
+      if vset_given:
         self.vset = vset
     else:
       self.vtype = vtype
@@ -188,6 +189,7 @@ class Variable (Icon):
           "Unrecognised vset specification: {}".format(vset)
 
     # At this point, vset can only be a list, but may contain tuples
+    vset = list(vset)
     vtype = self._vtype
     for i, value in enumerate(vset):
       if isinstance(value, tuple):
-- 
2.43.0


From 9ed5a5cd5249ba3eb0f1df9a316427322472705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:32 +0000
Subject: [PATCH 034/124] fix: Variable.inside evaluates repeated values
 individually

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 589afff..317cf66 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -327,7 +327,7 @@ class Variable (Icon):
 
     # Non-floats do not support transformation
     if self._vtype not in VTYPES[float]:
-      self._inside = lambda x: np.isin(x, self._vset, assume_unique=True)
+      self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
       self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
       self._lhv = log_prob(self._length)
-- 
2.43.0


From 885353f4edb9f717d534ee5dcd0d0d93dac030ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:32 +0000
Subject: [PATCH 035/124] fix: Variable length is that of its vset and lhv its
 logarithm

---
 probayes/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 317cf66..10cce17 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -301,7 +301,7 @@ class Variable (Icon):
   @property
   def lhv(self):
     """ Log hypervolume (=log(length)) of the variable """
-    return self._length
+    return self._lhv
 
   def __len__(self):
     """ Length of the variable according to its (transformed) limits """
@@ -329,7 +329,7 @@ class Variable (Icon):
     if self._vtype not in VTYPES[float]:
       self._inside = lambda x: np.isin(x, self._vset)
       self._ulims = self._vlims
-      self._length = 2 if self._vtype in VTYPES[bool] else len(self._vset)
+      self._length = len(self._vset)
       self._lhv = log_prob(self._length)
       self._nlhv = -self._lhv
       self._isfinite = False
-- 
2.43.0


From 8e7471392ed9bb7c99c5f6dcb89c875a3737a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:32 +0000
Subject: [PATCH 036/124] fix: random samples of discrete variables are not
 limited to the first of vset

---
 probayes/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 10cce17..97401e7 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -570,6 +570,7 @@ class Variable (Icon):
             indices = np.arange(number, dtype=int) % self._length
           else:
             indices = np.random.permutation(-number) % self._length
+            indices = np.random.permutation(self._length)[indices]
           values = values[indices]
         return Distribution(self._name, {self.name: values})
        
-- 
2.43.0


From 410400916fead734aba7c96f835b6841884be578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:32 +0000
Subject: [PATCH 037/124] fix: evaluated values of transformed variables do not
 round beyond limits

---
 probayes/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 97401e7..0301e13 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -586,7 +586,8 @@ class Variable (Icon):
 
       # Only use ufun when isunitsetint(values)
       if self._ufun and not self.__no_ucov:
-        return Distribution(self._name, {self.name: self.ufun[-1](values)})
+        values = np.clip(self.ufun[-1](values), self._vlims[0], self._vlims[1])
+        return Distribution(self._name, {self.name: values})
     return Distribution(self._name, {self.name: values})
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 4c5131988bce0a09adc04dea06deafa53dda36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:46 +0000
Subject: [PATCH 038/124] fix: builtin callables can be mixed with defined
 functions in expressions

---
 probayes/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/probayes/expression.py b/probayes/expression.py
index 0000d44..ce3619a 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -18,6 +18,7 @@ def islambda(func):
     return False
   if type(func) is types.LambdaType:
     return func.__name__ == '<lambda>'
+  return False
 
 #-------------------------------------------------------------------------------
 class Expression:
-- 
2.43.0


From 625c174496067f3f8b377054fc8fc95676d9ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:46 +0000
Subject: [PATCH 039/124] fix: removing a transformation restores the limits of
 a variable

---
 probayes/variable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/variable.py b/probayes/variable.py
index 0301e13..69cb148 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -478,6 +478,8 @@ class Variable (Icon):
     """
     self._ufun = ufun
     if self._ufun is None:
+      self.__no_ucov = None
+      self._eval_ulims()
       return
     self.__no_ucov = False if 'no_ucov' not in kwds else kwds.pop('no_ucov')
 
-- 
2.43.0


From cca38f57e9c4b9572d87fb0198af6f0710234e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:55 +0000
Subject: [PATCH 040/124] fix: variable increments: zero, default, scaled,
 random and callable deltas take effect within open limits

---
 probayes/variable.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 69cb148..48ee8f5 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -401,6 +401,8 @@ class Variable (Icon):
     if self._delta is None:
       return
     elif callable(self._delta):
+      kwds = {key: val for key, val in kwds.items()
+              if key not in ('scale', 'bound')}
       self._delta = Expression(self._delta, *args, **kwds)
       return
 
@@ -612,11 +614,13 @@ class Variable (Icon):
 
     If delta is not entered, then the default set by Variable.set_delta() is used.
     """
-    delta = delta or self._delta
+    default = delta is None
+    if default:
+      delta = self._delta
     if delta is None:
       return None
     if isinstance(delta, Expression):
-      if delta.ret_callable():
+      if delta.callable:
         return delta
       delta = delta()
     if isinstance(delta, self._Delta):
@@ -632,13 +636,14 @@ class Variable (Icon):
       assert len(delta) == 1, "List delta must contain one element"
       delta = delta[0]
       if self._vtype in VTYPES[bool]:
-        pass
+        delta = delta > np.random.uniform()
       elif self._vtype in VTYPES[int]:
-        delta = np.random.randint(-delta, delta)
+        delta = np.random.randint(-int(delta), int(delta) + 1)
       else:
         delta = np.random.uniform(-delta, delta)
     assert isscalar(delta), "Unrecognised delta type: {}".format(delta)
-    if delta == self._delta and self._delta_kwds['scale']:
+    if default and self._delta_kwds['scale'] and \
+        self._vtype not in VTYPES[bool]:
       assert np.isfinite(self._length), "Cannot scale by infinite length"
       delta *= self._length
     return self._Delta(delta)
@@ -666,11 +671,8 @@ class Variable (Icon):
       values = values[self.name] 
 
     # Call eval_delta() if values is a list and return values if delta is None
-    delta = delta or self._delta
-    if isinstance(delta, Expression):
-      if delta.ret_callable():
-        return delta(values)
-      delta = delta()
+    if delta is None:
+      delta = self._delta if self._vtype in VTYPES[bool] else self.eval_delta()
     elif self._vtype not in VTYPES[bool]:
       if isinstance(delta, (list, tuple)):
         delta = self.eval_delta(delta)
@@ -680,13 +682,17 @@ class Variable (Icon):
       return values
 
     # Apply the delta, treating bool as a special case
-    if self._vtype in VTYPES[bool]:
+    if isinstance(delta, Expression):
+      vals = delta(values)
+    elif self._vtype in VTYPES[bool]:
       orand = isinstance(delta, tuple)
       urand = isinstance(delta, list)
       if orand or urand:
         assert len(delta) == 1, "Tuple/list delta must contain one element"
         delta = delta[0]
-        if isscalar(values) or orand:
+        if urand and isscalar(values):
+          vals = bool(values) != (delta > np.random.uniform())
+        elif orand:
           vals = values if delta > np.random.uniform() > 0.5 \
                  else np.logical_not(values)
         else:
@@ -721,12 +727,12 @@ class Variable (Icon):
         if not self._inside(vals):
           vals = values
       elif maybe_bounce[0]:
-        if vals < self._vlims[0]:
+        if vals <= self._vlims[0]:
           vals = values
         else:
           vals = np.minimum(self._vlims[1], vals)
       else:
-        if vals > self._vlims[1]:
+        if vals >= self._vlims[1]:
           vals = values
         else:
           vals = np.maximum(self._vlims[0], vals)
-- 
2.43.0


From 6dda70f15d2ad543684cfcd6bfef8c14d942850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:26 +0000
Subject: [PATCH 041/124] fix: field increments: dictionaries, explicit and
 default deltas, and spherical exceptions take effect

---
 probayes/field.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index ba2ee06..5a161e4 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -252,6 +252,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     if self._delta is None:
       return
     elif callable(self._delta):
+      kwds = {key: val for key, val in kwds.items()
+              if key not in ('scale', 'bound')}
       self._delta = Expression(self._delta, *args, **kwds)
       return
 
@@ -266,7 +268,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Handle deltas and dictionaries
     if isinstance(self._delta, dict):
       self._delta = self._delta_type(**self._delta)
-    if isinstance(delta, self._delta_type):
+    if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
       for i, var in enumerate(self._varlist):
@@ -298,7 +300,7 @@ class Field (NX_UNDIRECTED_GRAPH):
           assert np.isfinite(self._lengths[i]), \
               "Cannot scale by infinite length for Variable {}".format(key)
           delta = val * self._lengths[i]
-        if urand:
+        if urand and key not in unscale:
           delta = [delta]
         delta_dict.update({key: delta})
       self._delta = self._delta_type(**delta_dict)
@@ -473,7 +475,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       if self._delta is None:
         variables = list(self._varlist)
         if len(variables) == 1 and variables[0]._delta is not None:
-          return variables[0]._delta
+          return self._delta_type(variables[0].eval_delta())
         return None
       elif isinstance(self._delta, Expression):
         delta = self._delta()
@@ -489,7 +491,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self.ret_vars(aslist=True)
+      variables = self._varlist
       for i, key in enumerate(self._keylist):
         delta_dict.update({key: variables[i].eval_delta(delta[i])})
       delta = self._delta_type(**delta_dict)
@@ -502,14 +504,13 @@ class Field (NX_UNDIRECTED_GRAPH):
     # Rule out possibility of all variables contained in unscaling argument
     assert isinstance(delta, tuple), \
         "Unknown delta type: {}".format(delta)
-    unscale = {} if not self._delta_args else self._delta_args
+    unscale = {} if not self._delta_args else self._delta_args[0]
     if not len(self._spherise):
       return self._delta_type(**unscale)
 
     # Spherical version
     delta = delta[0]
     spherise = self._spherise
-    keys = self._spherise.keys()
     rss = real_sqrt(np.sum(np.array(list(spherise.values()))**2))
     if self._delta_kwds['scale']:
       delta *= rss
@@ -518,7 +519,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     deltas = (deltas * delta) / rss_deltas
     delta_dict = collections.OrderedDict()
     idx = 0
-    for i, key in enumerate(keys):
+    for i, key in enumerate(self._keylist):
       if key in unscale:
         val = unscale[key]
       else:
@@ -532,12 +533,13 @@ class Field (NX_UNDIRECTED_GRAPH):
 
 #-------------------------------------------------------------------------------
   def apply_delta(self, values, delta=None):
-    delta = delta or self._delta
+    if delta is None:
+      delta = self.eval_delta()
     if delta is None:
       return values
     if not isinstance(delta, self._delta_type):
       variables = self._varlist
-      if len(variables) == 1 and isinstance(delta, variables[0].delta):
+      if len(variables) == 1 and isinstance(delta, variables[0].Delta):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
@@ -614,7 +616,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     variables = []
     for vertex in vertices:
       if isinstance(vertex, Field):
-        variables += [vertex.ret_vars(aslist=True)]
+        variables += vertex.varlist
       elif isinstance(vertex, Variable):
         variables += [vertex]
       elif isinstance(vertex, str):
-- 
2.43.0


From eadbf81adf70f9b4b9d29b78c9db135199f9dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:27 +0000
Subject: [PATCH 042/124] fix: correlated increments of random fields are
 scalars, not arrays

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 06180db..7de7157 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -341,10 +341,10 @@ class RF (Field, Prob):
     delta = super().eval_delta(delta)
 
     # Adjust delta if there is LUD tfun
-    if self._tfun is None or self._tfun.isscalar:
+    if delta is None or self._tfun is None or self._tfun.isscalar:
       return delta
     elif not self._tfun.callable:
-      delta = self._tfun().dot(np.array(delta, dtype=float))
+      delta = self._tfun().dot(np.array(delta, dtype=float).reshape(self._nvars))
       return self._delta_type(*delta)
     else:
       delta = self._tfun(delta)
-- 
2.43.0


From 9ef52d9ad79b18e8ccddb8d7fb1fa8c52769607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:04 +0000
Subject: [PATCH 043/124] fix: random variables can be declared by type alone

---
 probayes/variable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index 48ee8f5..d4d599f 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -105,7 +105,8 @@ class Variable (Icon):
     self.name = name
 
     # Allow positions of vtype and vset to be swapped
-    if isinstance(vtype, (list, tuple, set, range, np.ndarray)):
+    if isinstance(vset, type) or \
+        isinstance(vtype, (list, tuple, set, range, np.ndarray)):
       vtype, vset = vset, vtype
 
     # If vtype and/or vset is/are specified, set it/them
-- 
2.43.0


From 716f147cd351183558fa2970c7981de5c018eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:38 +0000
Subject: [PATCH 044/124] fix: multivariate SciPy distributions whose frozen
 form lacks a method can be set as probabilities

---
 probayes/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 371f837..3108f2a 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -210,7 +210,7 @@ class Prob (Expression, SympyProb):
 
       # Iterate available methods
       for method in SCIPY_DIST_METHODS:
-        if hasattr(self._prob, method):
+        if hasattr(self._expr, method):
           call = functools.partial(Expression._partial_call, self, 
                                    getattr(self._expr, method),
                                    *self._args, **self._kwds)
-- 
2.43.0


From 5bfa33beb1bcffbeaf5cdb26d1e5f141e76543d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 045/124] fix: probabilities accept zero log offsets and
 rescale to the pscale requested

---
 probayes/prob.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index 3108f2a..75dd6a4 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -133,7 +133,7 @@ class Prob (Expression, SympyProb):
     pscale is used.
     """
     pscale = None if 'pscale' not in kwds else kwds.pop('pscale')
-    self.pscale = pscale or self._pscale
+    self.pscale = self._pscale if pscale is None else pscale
     self.__isscipy = is_scipy_stats_dist(prob)
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
@@ -375,8 +375,8 @@ class Prob (Expression, SympyProb):
       prob = self._prob
 
     # Optionally rescale
-    if pscale:
-      return self.rescale(prob, kwds['pscale'])
+    if pscale is not None:
+      return self.rescale(prob, pscale=pscale)
     return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From eb29bca82661e99f2ee2dffdf593d3ebfd6cd373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 046/124] fix: multivariate densities are evaluated with each
 value in the place of its own variable

---
 probayes/field.py |  1 +
 probayes/prob.py  | 11 ++---------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 5a161e4..92bad75 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -403,6 +403,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
+      values = collections.OrderedDict({key: values[key] for key in self._keylist})
       return values, dims
 
     # Create reference mapping for shared keys across vars
diff --git a/probayes/prob.py b/probayes/prob.py
index 75dd6a4..bb783d9 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -347,15 +347,8 @@ class Prob (Expression, SympyProb):
       if self.__isscipy:
         prob = self._partials['logp'] if self._logp else self._partials['prob']
         if self.issmvar: # for mvar, convert dictionaries to arrays
-          vals = list(args[0].values())
-          if len(vals) == 1:
-            vals = np.array(vals)
-          else:
-            vals = vals[::-1]
-            if len(vals) > 2:
-              vals = vals[1:] + [vals[0]]
-            vals = np.stack(np.meshgrid(*tuple(vals)), axis=-1)
-          prob = prob(vals)
+          vals = np.broadcast_arrays(*tuple(args[0].values()))
+          prob = prob(np.stack(vals, axis=-1))
         else:
           prob = prob(*args)
 
-- 
2.43.0


From 9ab1abb54f7a2de515a6e17853e9882b3e22749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 047/124] fix: Bernoulli probabilities respect the probability
 scale and the latest probability set

---
 probayes/rv.py         | 8 +++++---
 probayes/sympy_prob.py | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 96ad54c..fc77946 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -129,6 +129,8 @@ class RV (Variable, Prob):
     'pscale' is a reserved keyword. See Prob.pscale for explanation of how 
     pscale is used.
     """
+    if hasattr(self._sfun, 'expr') and self._sfun.expr == bernoulli_sfun:
+      self._sfun = None
     super().set_prob(prob, *args, **kwds)
     if self._prob is None:
       self._default_prob()
@@ -143,10 +145,10 @@ class RV (Variable, Prob):
               len(self._prob), len(self._vset))
 
     # Reassign non-0.5 Bernoulli probabilities to a formal distribution
-    if self._vtype in VTYPES[bool] and self.isscalar:
-      prob = float(self._prob)
+    if self._vtype in VTYPES[bool] and self.isscalar and len(self._vset) > 1:
+      prob = float(rescale(float(self._prob), self._pscale, 1.))
       if not np.isclose(prob, 0.5):
-        super().set_prob(bernoulli_prob(self.icon, bias=prob))
+        super().set_prob(bernoulli_prob(self.icon, bias=prob, pscale=self._pscale))
         super().set_sfun(bernoulli_sfun, bias=prob)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 41752b0..88f6516 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -9,6 +9,7 @@ import sympy
 import sympy.stats
 import scipy.stats
 from probayes.expr import Expr
+from probayes.pscales import rescale
 
 
 #-------------------------------------------------------------------------------
@@ -68,16 +69,18 @@ def sympy_sfun(distr, size=0, dtype=None, _sfunc=sympy.stats.sample):
   return samples
 
 #-------------------------------------------------------------------------------
-def bernoulli_prob(var, bias=0.5):
+def bernoulli_prob(var, bias=0.5, pscale=1.):
   """ Returns Sympy-expression of a Bernoulli PMF for var at specified bias.
 
   :param var: boolean symbol to express pmf
   :param bias: bias probability (float ranging from 0 to 1).
+  :param pscale: probability scale to express pmf (default 1.)
 
   :return bias*var + (1-bias)*(1-var)
   """
   # bv + (1-b)(1-v) = bv + 1 - v - b + bv = 2bv - v - b + 1 = v(2b-1) + (1-b)
-  return var * (2*bias - 1) + (1 - bias)
+  p_true, p_false = rescale(bias, 1., pscale), rescale(1 - bias, 1., pscale)
+  return var * (p_true - p_false) + p_false
 
 #-------------------------------------------------------------------------------
 def bernoulli_sfun(size=None, bias=0.5):
-- 
2.43.0


From 576c8d449c32b26d7016b5c2855b5452cb044bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 048/124] fix: tabulated probabilities of a random variable can
 be evaluated

---
 probayes/rv.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index fc77946..f1a4030 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -9,7 +9,7 @@ from probayes.variable import Variable, DEFAULT_VNAME
 from probayes.prob import Prob
 from probayes.vtypes import uniform, VTYPES, isscalar, \
                         isunitset, isunitsetint, isunitsetfloat, issingleton
-from probayes.pscales import rescale
+from probayes.pscales import rescale, NEARLY_NEGATIVE_INF
 from probayes.expression import Expression
 from probayes.sympy_prob import bernoulli_prob, bernoulli_sfun
 from probayes.rv_utils import uniform_prob, matrix_cond_sample, \
@@ -314,8 +314,14 @@ class RV (Variable, Prob):
     :return: evaluated probabilities
     """
     values = values[self.name] if isinstance(values, dict) else values
-    if not self.isscalar:
+    if not self.isscalar and (self.callable or self._vtype in VTYPES[float]):
       return super().eval_prob(values)
+    if not self.isscalar: # table of probabilities over vset
+      p_zero = NEARLY_NEGATIVE_INF if self._logp else 0.
+      prob = np.tile(p_zero, np.shape(values))
+      for val, val_prob in zip(self._vset, self._prob):
+        prob = np.where(np.equal(values, val), val_prob, prob)
+      return float(prob) if isscalar(values) else prob
     return uniform_prob(values, 
                         prob=float(self._prob), 
                         inside=self._inside,
-- 
2.43.0


From f3ef6c39f63a27ec4e96f593ce8c75bd52ae47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:42 +0000
Subject: [PATCH 049/124] fix: removing a transformation recalibrates the
 default probability

---
 probayes/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index f1a4030..67c0e29 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -198,12 +198,12 @@ class RV (Variable, Prob):
     Support for this transformation is only valid for float-type vtypes.
     """
     super().set_ufun(ufun, *args, **kwds)
-    if self._ufun is None:
-      return
 
     # Recalibrate defaulted probabilities for floating point vtypes
     if self._vtype in VTYPES[float]:
       self._default_prob()
+    if self._ufun is None:
+      return
 
     # Assert pfun is unspecified
     assert self._pfun is None, \
-- 
2.43.0


From 8b658b4db1ba95a89117fe014b7c5c7f968aa7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:18 +0000
Subject: [PATCH 050/124] fix: values sampled by inverse cumulative functions
 stay within the variable's limits

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 67c0e29..1ad567b 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -301,7 +301,8 @@ class RV (Variable, Prob):
                      isinstance(self._vset[0], tuple),
                      isinstance(self._vset[1], tuple)
                     )
-    return Distribution(self._name, {self.name: self.pfun[1](values)})
+    values = np.clip(self.pfun[1](values), self._vlims[0], self._vlims[1])
+    return Distribution(self._name, {self.name: values})
 
 #-------------------------------------------------------------------------------
   def eval_prob(self, values=None):
-- 
2.43.0


From 60c693ae502cb130b1f5ebd8e20e04df94cc7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:44 +0000
Subject: [PATCH 051/124] fix: symbolic expressions evaluate NumPy boolean
 scalars

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 8e268b9..b217d70 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -186,7 +186,7 @@ class Expr:
     isarray = [None] * len(keys)
     vec_dim = [None] * len(keys)
     for i, key in enumerate(keys):
-      if isinstance(values[key], bool): # Sympy doesn't like bool types
+      if isinstance(values[key], (bool, np.bool_)): # Sympy doesn't like bool types
         values[key] = int(values[key])
       ekeys[i] = self._symbols[key]
       evalues[i] = values[key]
-- 
2.43.0


From 35cd17731d81b43b5b7ae8364e90c54e210899e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:48 +0000
Subject: [PATCH 052/124] fix: defaulted floats and mixed shared values no
 longer misplace field axes

---
 probayes/field.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 92bad75..931dac5 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from probayes.variable import Variable
 from probayes.variable_utils import parse_as_str_dict
-from probayes.vtypes import isscalar, isunitsetint, issingleton, isdimensionless
+from probayes.vtypes import VTYPES, isscalar, isunitsetint, issingleton, isdimensionless
 from probayes.pscales import real_sqrt
 from probayes.ops import and_op, or_op
 from probayes.expression import Expression
@@ -400,6 +400,13 @@ class Field (NX_UNDIRECTED_GRAPH):
     """
     values = self.parse_args(*args, **kwds) if not _skip_parsing else args[0]
     dims = collections.OrderedDict()
+
+    # Defaulted floating point variables are evaluated as dimensionless scalars
+    values = collections.OrderedDict(values)
+    for var in self._varlist:
+      if var.vtype in VTYPES[float] and var.name in values:
+        if values[var.name] is None:
+          values[var.name] = {0}
     
     # Don't reshape if all scalars (and therefore by definition no shared keys)
     if all([np.isscalar(value) for value in values.values()]): # use np.scalar
@@ -431,7 +438,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         for subkey in subkeys:
           dims[subkey] = ndim
           seen_keys.add(subkey)
-        if not isdimensionless(values[val_ref[0]][val_ref[1]]):
+        if not all([isdimensionless(val) for val in values[val_ref[0]]]):
           new_dim = True
       if new_dim:
         ndim += 1
-- 
2.43.0


From 609a9779fec0b89b02b4df1c92ba1ccb4a512301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:48 +0000
Subject: [PATCH 053/124] fix: products of random variables honour a requested
 log scale of zero offset

---
 probayes/rf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 484e4eb..1737a1d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -13,7 +13,7 @@ def rv_prod_rule(*args, rvs, pscale=None):
   """
   values = args[0]
   pscales = [rv.pscale for rv in rvs]
-  pscale = pscale or prod_pscale(pscales)
+  pscale = prod_pscale(pscales) if pscale is None else pscale
   use_logs = iscomplex(pscale)
   probs = [rv.eval_prob(values[rv.name]) for rv in rvs]
   prob, pscale = prod_rule(*tuple(probs),
-- 
2.43.0


From a9367306122935d1e1008c9597f2f40ebe699bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:31 +0000
Subject: [PATCH 054/124] fix: parallel dependences report the product of their
 parts on its own scale

---
 probayes/sd.py       | 6 +++++-
 probayes/sd_utils.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 77781c0..6e2ef6a 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -7,6 +7,7 @@ from probayes.dependence import Dependence
 from probayes.rv import RV
 from probayes.rf import RF
 from probayes.pd_utils import product
+from probayes.pscales import prod_pscale
 from probayes.sd_utils import desuffix, get_suffixed, arch_prob
 
 #-------------------------------------------------------------------------------
@@ -82,7 +83,10 @@ class SD (Dependence, RF):
     prob = super().set_prob(prob, *args, **kwds)
     if prob is not None or not isinstance(self._arch, (list, tuple)):
       return prob
-    return super().set_prob(arch_prob, arch=self._arch, passdims=True)
+    pscale = prod_pscale([subarch.pscale for subarch in self._arch]) \
+             if isinstance(self._arch, tuple) else self._arch[-1].pscale
+    return super().set_prob(arch_prob, arch=self._arch, arch_pscale=pscale,
+                            passdims=True, pscale=pscale)
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 0fe7761..16b1635 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -30,7 +30,7 @@ def get_suffixed(values, unsuffix=True, suffix="'"):
   return vals
 
 #-------------------------------------------------------------------------------
-def arch_prob(arch, dims, **kwds):
+def arch_prob(arch, dims, arch_pscale=None, **kwds):
   """ Returns the combined probability of for arch given values """
  
   values = dict(kwds)
@@ -46,7 +46,7 @@ def arch_prob(arch, dims, **kwds):
   if serial:
     return probs[-1]
   pscales = [subarch.pscale for subarch in arch]
-  prob, pscale = prod_rule(*tuple(probs), pscales=pscales)
+  prob, pscale = prod_rule(*tuple(probs), pscales=pscales, pscale=arch_pscale)
   return prob
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 11cbe19fd62cb565fd808665bd9e6676d9da74cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:31 +0000
Subject: [PATCH 055/124] fix: multivariate densities keep the axes of
 single-valued arrays

---
 probayes/prob.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index bb783d9..e6081f8 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -349,6 +349,8 @@ class Prob (Expression, SympyProb):
         if self.issmvar: # for mvar, convert dictionaries to arrays
           vals = np.broadcast_arrays(*tuple(args[0].values()))
           prob = prob(np.stack(vals, axis=-1))
+          if vals[0].ndim: # SciPy squeezes singleton dimensions
+            prob = np.reshape(prob, vals[0].shape)
         else:
           prob = prob(*args)
 
-- 
2.43.0


From 5bb4532c2f44e8f8146e02023df38ff07d64e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:35 +0000
Subject: [PATCH 056/124] fix: parallel dependences can be evaluated with
 scalars alone

---
 probayes/sd_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 16b1635..243e7ac 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -34,14 +34,13 @@ def arch_prob(arch, dims, arch_pscale=None, **kwds):
   """ Returns the combined probability of for arch given values """
  
   values = dict(kwds)
-  dimkeys = list(dims.keys())
   assert isinstance(arch, (tuple, list)), "Archictecture must be tuple or list"
   serial = isinstance(arch, list)
   probs = [None] * len(arch)
   for i, subarch in enumerate(arch):
     keyset = subarch.keylist
-    vals = {key: values[key] for key in dimkeys if key in keyset}
-    subdims = {key: dims[key] for key in dimkeys if key in keyset}
+    vals = {key: values[key] for key in keyset}
+    subdims = {key: dims[key] for key in keyset if key in dims}
     probs[i] = subarch.eval_prob(vals, subdims)
   if serial:
     return probs[-1]
-- 
2.43.0


From f65249886bbfa8143927a8f3174380ce7b8348bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 057/124] fix: reading the passdims flag and giving proposition
 dependencies no longer raise

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 7de7157..7da1e78 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -82,7 +82,7 @@ class RF (Field, Prob):
 
   @property
   def passdims(self):
-    return self.passdims
+    return self._passdims
 
   @property
   def def_prob(self):
@@ -151,7 +151,7 @@ class RF (Field, Prob):
     :param **kwds: optional keywords to pass if prop is callable.
     """
     self._prop = prop
-    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop['deps']
+    self._prop_deps = self._keylist if 'deps' not in kwds else kwds.pop('deps')
     if self._prop is None:
       return
     assert self._anystoch, \
-- 
2.43.0


From 5df60dd7a9c2e0cd3144c806488c870a92c45b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:03 +0000
Subject: [PATCH 058/124] fix: matrix transitions sample arrays of successors,
 on any scale, with positive probability only

---
 probayes/rv_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index b6087b9..e57dda2 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -1,6 +1,7 @@
 import numpy as np
 from probayes.vtypes import isunitset, isscalar, uniform, eval_vtype, VTYPES
-from probayes.pscales import eval_pscale, iscomplex, NEARLY_NEGATIVE_INF
+from probayes.pscales import eval_pscale, iscomplex, rescale, \
+                             NEARLY_NEGATIVE_INF
 """
 A module to provide functional support to rv.py
 """
@@ -47,7 +48,7 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
   return prob
 
 #-------------------------------------------------------------------------------
-def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
+def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None, pscale=1.):
   """ Returns succ_vals with sampling """
   if not isunitset(succ_vals):
     return succ_vals
@@ -64,14 +65,18 @@ def matrix_cond_sample(pred_vals, succ_vals, prob, vset=None):
         format(support, len(vset))
   vset = sorted(vset)
   pred_idx = vset.index(pred_vals)
-  cmf = np.cumsum(prob[:, pred_idx], axis=0)
+  pmf = rescale(prob[:, pred_idx], pscale, 1.)
+  cmf = np.cumsum(pmf, axis=0)
+  cmf = cmf / cmf[-1]
   succ_cmf = list(succ_vals)[0]
   if type(succ_cmf) in VTYPES[int]:
     succ_cmf = uniform(0., 1., succ_cmf)
   else:
     succ_cmf = np.atleast_1d(succ_cmf)
-  succ_idx = np.maximum(0, np.minimum(support-1, np.digitize(succ_cmf, cmf)))
-  return vset[succ_idx], pred_idx, succ_idx
+  last_idx = np.nonzero(pmf)[0][-1]
+  succ_idx = np.maximum(0, np.minimum(last_idx, np.digitize(succ_cmf, cmf)))
+  succ_vals = vset[succ_idx] if isscalar(succ_idx) else np.array(vset)[succ_idx]
+  return succ_vals, pred_idx, succ_idx
 
 #-------------------------------------------------------------------------------
 def lookup_square_matrix(col_vals, row_vals, sq_matrix, 
-- 
2.43.0


From 1f91287cb0b2d8a9b0e305935f0dd7050db3aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 059/124] fix: matrix transitions on log scales sample from
 their linear probabilities

---
 probayes/rv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 1ad567b..f1ca626 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -418,7 +418,8 @@ class RV (Variable, Prob):
         succ_vals, pred_idx, succ_idx = matrix_cond_sample(pred_vals, 
                                                            succ_vals, 
                                                            prob=prob, 
-                                                           vset=self._vset) 
+                                                           vset=self._vset,
+                                                           pscale=self._pscale) 
         kwargs.update({'pred_idx': pred_idx, 'succ_idx': succ_idx})
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
 
-- 
2.43.0


From 57ae4b365a471bf4d6a272ffeda60e46155a8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 060/124] fix: scalar transitions sample successors at a given
 cumulative probability

---
 probayes/rv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index f1ca626..f5ff445 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -400,10 +400,10 @@ class RV (Variable, Prob):
             "Inverse CDF sampling for scalar probabilities unavailable for " + \
             "{} data type".format(self._vtype)
         cdf_val = list(succ_vals)[0]
-        lo, hi = min(self._limits), max(self._limits)
-        succ_val = lo*(1.-cdf_val) + hi*cdf_val
-        if self._ufun is not None:
-          succ_val = self.ufun[-1](succ_val)
+        lo, hi = min(self._ulims), max(self._ulims)
+        succ_vals = lo*(1.-cdf_val) + hi*cdf_val
+        if self._ufun is not None and self.no_ucov:
+          succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
       pred_vals, succ_vals, dims = _reshape_vals(pred_vals, succ_vals)
-- 
2.43.0


From 0589b3a5365291ab0cd9e7f616a374a5246a1a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 061/124] fix: callable transitions sample successors at a
 given cumulative probability

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index f5ff445..9ac857e 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -433,7 +433,7 @@ class RV (Variable, Prob):
         assert isscalar(pred_vals), \
             "Successor sampling only possible with scalar predecessors"
         succ_vals = list(succ_vals)[0]
-        if type(succ_vals) in VTYPES[int] or type(succ_vals) in VTYPES[np.uint]:
+        if type(succ_vals) in VTYPES[int]:
           lo, hi = min(self._ulims), max(self._ulims)
           kwds.update({self._name+"'": np.array([lo, hi], dtype=float)})
           lohi = self._tfun[0](**kwds)
-- 
2.43.0


From f989197a2e996ca276791bfc0b119a8e351a12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 062/124] fix: scalar transitions are on the variable's
 probability scale

---
 probayes/rv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 9ac857e..84ac997 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -476,8 +476,9 @@ class RV (Variable, Prob):
       cond = uniform_prob(pred_vals,
                           succ_vals, 
                           prob=float(prob), 
-                          inside=self._inside) 
-                  
+                          inside=self._inside,
+                          pscale=self._pscale)
+
 
     # Handle discrete non-callables
     elif not self._tran.callable:
-- 
2.43.0


From 0da57d7c1b24039a1678c8ec4cf2bf1106c6a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:32 +0000
Subject: [PATCH 063/124] fix: undefined transition probabilities default to
 one on log scales too

---
 probayes/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 84ac997..5bf7b96 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -542,10 +542,10 @@ class RV (Variable, Prob):
 
     # TODO - distinguish between probabilistic and non-probabistic outputs
     if cond is None:
-      cond = 1.
+      cond = 0. if self._logp else 1.
       for val in vals.values():
         if isinstance(val, np.ndarray):
-          cond = cond * np.ones(val.shape, dtype=float)
+          cond = cond + np.zeros(val.shape, dtype=float)
 
     return PD(dist_name, vals, dims=dims, prob=cond, pscale=self._pscale)
 
-- 
2.43.0


From db83d055a39d63a2958e366c16c77c896e1d4454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:19 +0000
Subject: [PATCH 064/124] fix: default transitions never replace transitions
 set by the user

---
 probayes/rv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 5bf7b96..aae1b50 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -50,6 +50,7 @@ class RV (Variable, Prob):
 
   # Private
   __def_prob = None   # Flag to denote prob is defaulted
+  __def_tran = None   # Flag to denote transitional is defaulted
   __sym_tran = None   # Flag to denote symmetric transitional
   __prime_key = None  # Modified-string to denote prime key for variable
 
@@ -164,7 +165,9 @@ class RV (Variable, Prob):
       prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
              prob * self._ufun.derinv.expr
     super().set_prob(prob)
-    self.set_tran(prob)
+    if self._tran is None or self.__def_tran:
+      self.set_tran(prob)
+      self.__def_tran = True
     self.__def_prob = True
 
 #-------------------------------------------------------------------------------
@@ -232,6 +235,7 @@ class RV (Variable, Prob):
     """
     self._tran = tran
     self.__sym_tran = None
+    self.__def_tran = False
     if self._tran is None:
       return
     self._tran = Expression(self._tran, *args, **kwds)
-- 
2.43.0


From 6f4a193524422411c394bde7cde3c0320da6d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:19 +0000
Subject: [PATCH 065/124] fix: conditional samplers of several variables assign
 each its own value

---
 probayes/rf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 7da1e78..3e99ff2 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -468,14 +468,14 @@ class RF (Field, Prob):
         "Transitional sampling function not specified as a multiple sampler"
     for key in keys:
       values = self._tfun[key](succ_vals, *args, **kwds)
-      rv_names = [key] if ',' not in keys else key.split(',')
+      rv_names = [key] if ',' not in key else key.split(',')
       if len(rv_names) > 1:
         assert isinstance(values, dict), \
             "Ambiguous output from CF {} for RV {}".format(self._tfun, key)
         for rv_key, rv_val in values.items():
           assert rv_key in succ_vals.keys(), \
               "Key {} not found in {}".format(rv_key, succ_vals.keys())
-          succ_vals[key] = rv_val
+          succ_vals[rv_key] = rv_val
       else:
         rv_name = rv_names[0]
         if isinstance(values, dict):
-- 
2.43.0


From 28650ef38183913ef4e233a65b8d65ca7fd114c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:19 +0000
Subject: [PATCH 066/124] fix: field steps only sample successors by default
 for scalar predecessors

---
 probayes/rf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 3e99ff2..1031419 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -370,7 +370,7 @@ class RF (Field, Prob):
     """ Returns adjusted succ_vals """
     if succ_vals is None:
       if self._delta is None:
-        if all([isscalar(pred_value) for pred_value in pred_vals]):
+        if all([isscalar(pred_value) for pred_value in pred_vals.values()]):
           succ_vals = {0}
 
     # If not sampling succeeding values, use deterministic call
-- 
2.43.0


From f7cbacb5f54f0868f16c1f26cede8c420425d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:32 +0000
Subject: [PATCH 067/124] fix: scalar transitions sample transformed variables
 at a given cumulative probability

---
 probayes/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index aae1b50..e5f5c16 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -406,7 +406,7 @@ class RV (Variable, Prob):
         cdf_val = list(succ_vals)[0]
         lo, hi = min(self._ulims), max(self._ulims)
         succ_vals = lo*(1.-cdf_val) + hi*cdf_val
-        if self._ufun is not None and self.no_ucov:
+        if self._ufun is not None and not self.no_ucov:
           succ_vals = self.ufun[-1](succ_vals)
 
       prob = self._tran() if self._tran is not None else None
-- 
2.43.0


From 6a2263fb036309999e5facfb36341df4187d5016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:32 +0000
Subject: [PATCH 068/124] fix: lambda expressions of keywords alone receive
 their arguments

---
 probayes/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index ce3619a..876fee9 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -5,6 +5,7 @@ that an expression may comprise a constant by not being callable, and therefore
 not all expressions are functions.
 '''
 import types
+import inspect
 import collections
 import functools
 import sympy
@@ -400,7 +401,7 @@ class Expression:
     # Callables with neither order nor delta are straightforwards
     if not self.__order and not self.__delta:
       if self._islambda and hasattr(expr, '__code__') and \
-          not expr.__code__.co_argcount: # Allow argument-free lambdas
+          not inspect.signature(expr).parameters: # Allow argument-free lambdas
         assert not len(args), \
             "Unexpected entering of positional arguments: {}".format(args)
         return expr()
-- 
2.43.0


From 76a28499569291b0ba5b0530e34be02400ff140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:32 +0000
Subject: [PATCH 069/124] fix: remapped keywords of functions and expressions
 do not overwrite one another

---
 probayes/expression.py | 16 ++++++++++------
 probayes/func.py       | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 876fee9..1d60645 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -422,24 +422,28 @@ class Expression:
 
     # Callables with order wrapper
     if self.__order:
+      values = {key: kwds.pop(key) for key in self.__order.keys()}
       for key, val in self.__order.items():
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = values[key]
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: values[key]})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
       return expr(*tuple(args), **kwds)
 
     # Callables with delta wrapper
-    for key, val in self.__delta.items():
+    values = {}
+    for key in self.__delta.keys():
       if key[-1] != "'":
-        value = kwds.pop(key)
+        values[key] = kwds.pop(key)
       else:
-        value = kwds.pop(key) - kwds.pop(key[:-1])
+        values[key] = kwds.pop(key) - kwds.pop(key[:-1])
+    for key, val in self.__delta.items():
+      value = values[key]
       if type(val) is int:
         args[val] = value
       elif val is None:
diff --git a/probayes/func.py b/probayes/func.py
index b299ede..d943427 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -292,24 +292,28 @@ class Func:
 
     # Callables with order wrapper
     if self.__order:
+      values = {key: kwds.pop(key) for key in self.__order.keys()}
       for key, val in self.__order.items():
         if type(val) is int:
-          args[val] = kwds.pop(key)
+          args[val] = values[key]
         elif val is None:
-          kwds.pop(key)
+          pass
         elif isinstance(val, str):
-          kwds.update({val: kwds.pop(key)})
+          kwds.update({val: values[key]})
         else:
           raise TypeError("Unrecognised order key: val type: {}:{}".\
                           format(key, val))
       return func(*tuple(args), **kwds)
 
     # Callables with delta wrapper
-    for key, val in self.__delta.items():
+    values = {}
+    for key in self.__delta.keys():
       if key[-1] != "'":
-        value = kwds.pop(key)
+        values[key] = kwds.pop(key)
       else:
-        value = kwds.pop(key) - kwds.pop(key[:-1])
+        values[key] = kwds.pop(key) - kwds.pop(key[:-1])
+    for key, val in self.__delta.items():
+      value = values[key]
       if type(val) is int:
         args[val] = value
       elif val is None:
-- 
2.43.0


From c86861195a66c1d5f40266d1ab304641ea46dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:29 +0000
Subject: [PATCH 070/124] fix: Metropolis-Hastings scores use the reverse to
 forward proposal ratio, on any scale

---
 probayes/sp_utils.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index f2fe3d5..9bb6544 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -2,7 +2,8 @@
 
 import numpy as np
 from probayes.vtypes import isscalar
-from probayes.pscales import rescale, div_prob
+from probayes.pscales import rescale, div_prob, prod_rule, COMPLEX_ZERO, \
+                             NEARLY_NEGATIVE_INF
 
 #-------------------------------------------------------------------------------
 def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
@@ -24,7 +25,7 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+  return min(1., div_prob(succ.prob, pred.prob, succ.pscale, pred.pscale, pscale=1.))
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -49,19 +50,18 @@ def hastings_scores(opqr, pscale=None):
     return None
   else:
     assert isscalar(prop.prob), "Proposal probability non-scalar"
-    prop = rescale(prop.prob, pscale, 1.)
-    if prop <= 0.:
+    if rescale(prop.prob, prop.pscale, COMPLEX_ZERO) <= NEARLY_NEGATIVE_INF:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, pscale, pscale, pscale=1.))
+      return min(1., div_prob(succ.prob, pred.prob, succ.pscale, pred.pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      revp = rescale(revp.prob, pscale, 1.)
-      if revp <= 0.:
-        return 1.
-      return min(1., div_prob(succ.prob * prop, 
-                              pred.prob * revp, 
-                              pscale, pscale, pscale=1.))
+      succ_revp, _ = prod_rule(succ.prob, revp.prob, pscale=COMPLEX_ZERO,
+                               pscales=[succ.pscale, revp.pscale])
+      pred_prop, _ = prod_rule(pred.prob, prop.prob, pscale=COMPLEX_ZERO,
+                               pscales=[pred.pscale, prop.pscale])
+      return min(1., div_prob(succ_revp, pred_prop, 
+                              COMPLEX_ZERO, COMPLEX_ZERO, pscale=1.))
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From 1fc1853e30d40628b0498821890a6b15c89e304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:29 +0000
Subject: [PATCH 071/124] fix: asymmetric transitions evaluate reverse proposal
 probabilities

---
 probayes/rf.py | 6 +-----
 probayes/sd.py | 5 +++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 1031419..6f239b3 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -528,12 +528,8 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    # This next line needs to be modified to handle new API
-    """
     prob = dist.prob if self._sym_tran or self._tran is None \
-           else self._tran[1](dist)
-    """
-    prob = dist.prob
+           else self.eval_tran(vals, reverse=True)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
 
diff --git a/probayes/sd.py b/probayes/sd.py
index 6e2ef6a..903feac 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -277,8 +277,9 @@ class SD (Dependence, RF):
       prop = self.step(vals, **kwds)
 
     # Evaluate reverse proposal if transition function not symmetric
-    if not self._sym_tran and not self._unit_tran:
-      revp = self.reval_tran(prop)
+    tran_obj = self if self._tran_obj is None else self._tran_obj
+    if not tran_obj._sym_tran and not self._unit_tran:
+      revp = tran_obj.reval_tran(prop)
 
     # Extract values evaluating probability
     vals = get_suffixed(prop)
-- 
2.43.0


From 0c1c938cf7af173cb2cc40ed13a9fdb31abeba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:29 +0000
Subject: [PATCH 072/124] fix: proposals without suffixes can be evaluated

---
 probayes/sd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/sd_utils.py b/probayes/sd_utils.py
index 243e7ac..bfe0992 100644
--- a/probayes/sd_utils.py
+++ b/probayes/sd_utils.py
@@ -10,7 +10,7 @@ def desuffix(values, suffix="'"):
   suffix_found = any([key[-1] == suffix for key in values.keys()])
   vals = collections.OrderedDict()
   if not suffix_found:
-    vals.update({values})
+    vals.update(values)
     return vals
   for key, val in values.items():
     vals_key = key if key[-1] != suffix else key[:-1]
-- 
2.43.0


From 2cdd0031e5924dc10eee802355c8cb22b3305dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 073/124] fix: Metropolis-Hastings scores do not underflow

---
 probayes/sp_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index 9bb6544..c711a9d 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -56,9 +56,11 @@ def hastings_scores(opqr, pscale=None):
       return min(1., div_prob(succ.prob, pred.prob, succ.pscale, pred.pscale, pscale=1.))
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
-      succ_revp, _ = prod_rule(succ.prob, revp.prob, pscale=COMPLEX_ZERO,
+      succ_revp, _ = prod_rule(succ.prob, revp.prob, 
+                               use_logp=True, pscale=COMPLEX_ZERO,
                                pscales=[succ.pscale, revp.pscale])
-      pred_prop, _ = prod_rule(pred.prob, prop.prob, pscale=COMPLEX_ZERO,
+      pred_prop, _ = prod_rule(pred.prob, prop.prob, 
+                               use_logp=True, pscale=COMPLEX_ZERO,
                                pscales=[pred.pscale, prop.pscale])
       return min(1., div_prob(succ_revp, pred_prop, 
                               COMPLEX_ZERO, COMPLEX_ZERO, pscale=1.))
-- 
2.43.0


From a07cc9e73695ef48b6447f04bf5f786892d38a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:25 +0000
Subject: [PATCH 074/124] fix: asymmetric transitions of a single variable
 evaluate reverse proposal probabilities

---
 probayes/rf.py | 12 +++++++++++-
 probayes/sd.py |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index 6f239b3..e481018 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -516,6 +516,16 @@ class RF (Field, Prob):
              self._tran[int(reverse)](values)
     return cond
 
+#-------------------------------------------------------------------------------
+  def _eval_sym_tran(self):
+    """ Evaluates whether the transition function is symmetrical, which may be
+    that of the variable if there is only one. """
+    if self._tran is not None or self._tfun is not None:
+      return self._sym_tran or self._tran is None
+    if self._nvars == 1 and self._varlist[0].tran is not None:
+      return not self._varlist[0].tran.ismulti
+    return True
+
 #-------------------------------------------------------------------------------
   def reval_tran(self, dist):
     """ Evaluates the conditional reverse-transition function for corresponding 
@@ -528,7 +538,7 @@ class RF (Field, Prob):
     name = margcond_str(marg, cond)
     vals = collections.OrderedDict(dist)
     dims = dist.dims
-    prob = dist.prob if self._sym_tran or self._tran is None \
+    prob = dist.prob if self._eval_sym_tran() \
            else self.eval_tran(vals, reverse=True)
     pscale = dist.pscale
     return PD(name, vals, dims=dims, prob=prob, pscale=pscale)
diff --git a/probayes/sd.py b/probayes/sd.py
index 903feac..5f68d2f 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -278,7 +278,7 @@ class SD (Dependence, RF):
 
     # Evaluate reverse proposal if transition function not symmetric
     tran_obj = self if self._tran_obj is None else self._tran_obj
-    if not tran_obj._sym_tran and not self._unit_tran:
+    if not tran_obj._eval_sym_tran():
       revp = tran_obj.reval_tran(prop)
 
     # Extract values evaluating probability
-- 
2.43.0


From 06dfca745a3964ed7511c98d34ed1a937aeaf43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:01 +0000
Subject: [PATCH 075/124] fix: proposals of undefined (NaN) probability are
 rejected rather than always accepted

---
 probayes/sp_utils.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/probayes/sp_utils.py b/probayes/sp_utils.py
index c711a9d..1720836 100644
--- a/probayes/sp_utils.py
+++ b/probayes/sp_utils.py
@@ -16,6 +16,16 @@ def sample_generator(sp, sampler_id, *args, stop=None, **kwds):
     else:
       sp.reset(sampler_id)
 
+#-------------------------------------------------------------------------------
+def acceptance_score(numer, denom, pscale_numer, pscale_denom):
+  """ Returns acceptance probability in which undefined (NaN) probabilities are
+  treated as zeros so that they are not accepted. """
+  if np.isnan(numer):
+    return 0.
+  if np.isnan(denom):
+    return 1.
+  return min(1., div_prob(numer, denom, pscale_numer, pscale_denom, pscale=1.))
+
 #-------------------------------------------------------------------------------
 def metropolis_scores(opqr, pscale=None):
   pred, succ = opqr.o, opqr.p
@@ -25,7 +35,7 @@ def metropolis_scores(opqr, pscale=None):
   if pred is None:
     return None
   assert isscalar(pred.prob), "Preceding probability distribution non-scalar"
-  return min(1., div_prob(succ.prob, pred.prob, succ.pscale, pred.pscale, pscale=1.))
+  return acceptance_score(succ.prob, pred.prob, succ.pscale, pred.pscale)
 
 #-------------------------------------------------------------------------------
 def metropolis_thresh(*args, **kwds):
@@ -53,7 +63,7 @@ def hastings_scores(opqr, pscale=None):
     if rescale(prop.prob, prop.pscale, COMPLEX_ZERO) <= NEARLY_NEGATIVE_INF:
       return None
     if revp is None:
-      return min(1., div_prob(succ.prob, pred.prob, succ.pscale, pred.pscale, pscale=1.))
+      return acceptance_score(succ.prob, pred.prob, succ.pscale, pred.pscale)
     else:
       assert isscalar(revp.prob), "Reverse proposal probability non-scalar"
       succ_revp, _ = prod_rule(succ.prob, revp.prob, 
@@ -62,8 +72,7 @@ def hastings_scores(opqr, pscale=None):
       pred_prop, _ = prod_rule(pred.prob, prop.prob, 
                                use_logp=True, pscale=COMPLEX_ZERO,
                                pscales=[pred.pscale, prop.pscale])
-      return min(1., div_prob(succ_revp, pred_prop, 
-                              COMPLEX_ZERO, COMPLEX_ZERO, pscale=1.))
+      return acceptance_score(succ_revp, pred_prop, COMPLEX_ZERO, COMPLEX_ZERO)
 
 #-------------------------------------------------------------------------------
 def hastings_thresh(*args, **kwds):
-- 
2.43.0


From faba9ccb4f475797abc214c3f6975193249b4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:45 +0000
Subject: [PATCH 076/124] fix: SP.walk() with a stop does not discard a further
 sample from the sampler

---
 probayes/sp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/probayes/sp.py b/probayes/sp.py
index 35bb45e..02b0666 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -3,6 +3,7 @@
 #-------------------------------------------------------------------------------
 import collections
 import inspect
+import itertools
 import warnings
 from probayes.sd import SD
 from probayes.expression import Expression
@@ -287,11 +288,6 @@ class SP (SD):
         "No stop specification set - this walk may proceed indefinitely")
     if stop is None: 
       return collections.deque([sample for sample in sampler])
-    steps = collections.deque()
-    for sample in sampler:
-      if len(steps) >= stop:
-        break
-      steps.append(sample)
-    return steps
+    return collections.deque(itertools.islice(sampler, stop))
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 3643261940503ebc26328f20be7c7f1f2ea3f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:45 +0000
Subject: [PATCH 077/124] fix: samplers that modify variables in turn do not
 take turns from one another

---
 probayes/rf.py | 10 ++++++++++
 probayes/sp.py | 25 ++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index e481018..e940bb2 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -409,6 +409,16 @@ class RF (Field, Prob):
 
     return vals, dims, kwargs
 
+#-------------------------------------------------------------------------------
+  @property
+  def cond_mod(self):
+    """ Position of the variables to be modified next if using tsteps """
+    return self.__cond_mod
+
+  def set_cond_mod(self, cond_mod=None):
+    """ Sets position of the variables to be modified next if using tsteps """
+    self.__cond_mod = cond_mod
+
 #-------------------------------------------------------------------------------
   def eval_tfun(self, values, *args, reverse=False, **kwds):
     """ Evaluates tfun from values """
diff --git a/probayes/sp.py b/probayes/sp.py
index 02b0666..b21c0ed 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -6,6 +6,7 @@ import inspect
 import itertools
 import warnings
 from probayes.sd import SD
+from probayes.rf import RF
 from probayes.expression import Expression
 from probayes.pd import PD
 from probayes.pd_utils import summate
@@ -27,6 +28,7 @@ class SP (SD):
   __samplers = None  # List of samplers
   __counter = None   # Step counter
   __last = None      # Last argument ordereddict
+  __cond_mod = None  # Dictionary of positions for modifying variables in turn
 
 #-------------------------------------------------------------------------------
   def __init__(self, *args, **kwds):
@@ -118,10 +120,13 @@ class SP (SD):
       self.__counter = collections.Counter()
     if self.__last is None:
       self.__last = collections.OrderedDict()
+    if self.__cond_mod is None:
+      self.__cond_mod = {}
     if sampler_id is None:
       return
     sampler = self.get_sampler(sampler_id)
     self.__counter[sampler] = 0
+    self.__cond_mod[sampler] = None
     if sampler not in self.__last:
       self.__last[sampler] = None
     elif reset_last:
@@ -218,6 +223,20 @@ class SP (SD):
       return self.__last
     return self.__last[self.get_sampler(sampler_id)]
 
+#-------------------------------------------------------------------------------
+  def _sample_turn(self, sampler, *args, **kwds):
+    """ Calls self.sample() with variables modified in turn for each sampler """
+    step_obj = self if self._prop_obj is None else self._prop_obj
+    if not isinstance(step_obj, RF):
+      return self.sample(*args, **kwds)
+    cond_mod = step_obj.cond_mod
+    step_obj.set_cond_mod(self.__cond_mod.get(sampler))
+    try:
+      return self.sample(*args, **kwds)
+    finally:
+      self.__cond_mod[sampler] = step_obj.cond_mod
+      step_obj.set_cond_mod(cond_mod)
+
 #-------------------------------------------------------------------------------
   def next(self, sampler_id, *args, **kwds):
 
@@ -230,7 +249,7 @@ class SP (SD):
 
     # Treat sampling without proposals as a distribution call
     if last is None or no_proposal:
-      opqr = self.sample(*args, **kwds)
+      opqr = self._sample_turn(sampler, *args, **kwds)
       if no_proposal:
         return opqr
 
@@ -240,10 +259,10 @@ class SP (SD):
           self._delta is None:
         last = {0}
       if len(args) < 2:
-        opqr = self.sample(last, **kwds)
+        opqr = self._sample_turn(sampler, last, **kwds)
       else:
         args = tuple([last] + list(args[1:]))
-        opqr = self.sample(*args, **kwds)
+        opqr = self._sample_turn(sampler, *args, **kwds)
 
     # Set to last if accept is not False
     stuv = self._stuv(self.eval_expr(self._scores, opqr),
-- 
2.43.0


From ac05f56cdeffe201d3aaf8f0becc5c55b65c0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:45 +0000
Subject: [PATCH 078/124] fix: samples continued from a proposition are moved
 by the delta set

---
 probayes/sd.py | 4 ++++
 probayes/sp.py | 6 ++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/probayes/sd.py b/probayes/sd.py
index 5f68d2f..1316636 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -240,6 +240,10 @@ class SD (Dependence, RF):
       assert args[0].q is not None, \
           "An input opqr argument must contain a non-None value for opqr.q"
       vals = desuffix(args[0].q)
+      delta_obj = self._prop_obj
+      if delta_obj is None or delta_obj.delta is None:
+        delta_obj = self
+      vals = delta_obj.apply_delta(vals)
       prop = self.propose(vals, **kwds)
 
     # Evaluation of probability
diff --git a/probayes/sp.py b/probayes/sp.py
index b21c0ed..a57a5f8 100644
--- a/probayes/sp.py
+++ b/probayes/sp.py
@@ -126,11 +126,9 @@ class SP (SD):
       return
     sampler = self.get_sampler(sampler_id)
     self.__counter[sampler] = 0
-    self.__cond_mod[sampler] = None
-    if sampler not in self.__last:
-      self.__last[sampler] = None
-    elif reset_last:
+    if reset_last or sampler not in self.__last:
       self.__last[sampler] = None
+      self.__cond_mod[sampler] = None
     return self.__samplers, self.__counter, self.__last
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From e9700847044b900a331c935a0606e54bf066912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:07 +0000
Subject: [PATCH 079/124] fix: conditional normal sampling respects the limits
 of the variable sampled

---
 probayes/cond_cov.py | 23 +++++++++++++----------
 probayes/rf.py       |  2 +-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/probayes/cond_cov.py b/probayes/cond_cov.py
index 1e7621f..c43e0e4 100644
--- a/probayes/cond_cov.py
+++ b/probayes/cond_cov.py
@@ -15,15 +15,14 @@ class CondCov:
   _scom = None # Schur complements
   _stdv = None # Conditional standard deviations
   _coef = None # Regression coefficients
-  _lims = None  # Recentered limits (Nx2 array)
-  _cdfs = None  # cdf-limits
+  _lims = None  # Limits (Nx2 array)
 
 #-------------------------------------------------------------------------------
   def __init__(self, mean, cov, lims):
     self._mean = np.atleast_1d(mean)
     self._cov = np.atleast_2d(cov)
     self._inv = np.linalg.inv(self._cov)
-    self._lims = np.atleast_2d(lims) - np.expand_dims(self._mean, -1)
+    self._lims = np.sort(np.atleast_2d(lims), axis=-1)
     self._n = len(self._mean)
     assert len(self._cov) == self._n, \
         "Means and covariance matrix incommensurate"
@@ -34,9 +33,7 @@ class CondCov:
       ru  = np.delete(self._cov[i, :].reshape([1, self._n]), (i), axis=1)
       cov = np.delete(np.delete(self._cov, (i), axis=1), (i), axis=0)
       self._coef[i] = ru.dot(np.linalg.inv(cov))
-      self._stdv[i] = np.sqrt(self._cov[i, i] - float(self._coef[i].dot(ll)))
-    self._cdfs = np.array([scipy.stats.norm.cdf(lim, loc=0., scale=self._stdv[i]) \
-                          for i, lim in enumerate(self._lims)])
+      self._stdv[i] = np.sqrt(self._cov[i, i] - self._coef[i].dot(ll).item())
 
 #-------------------------------------------------------------------------------
   def interp(self, *args, cond_pdf=False):
@@ -54,12 +51,18 @@ class CondCov:
         dmu[i] = arg - self._mean[i]
     assert idx is not None, "No variable specified for interpolation"
     dmu = np.delete(dmu, (idx), axis=0)
-    lims = self._cdfs[idx]
+    lims = self._lims[idx]
     number = list(args[idx])[0]
-    cdf = uniform(lims[0], lims[1], number)
-    mean = self._mean[idx] + float(self._coef[idx].dot(dmu))
+    mean = self._mean[idx] + self._coef[idx].dot(dmu).item()
     stdv = self._stdv[idx]
-    vals = scipy.stats.norm.ppf(cdf, loc=mean, scale=stdv)
+
+    # Sample within limits of the conditional, using the more accurate tail
+    cdf, ppf = scipy.stats.norm.cdf, scipy.stats.norm.ppf
+    if lims[0] > mean:
+      cdf, ppf = scipy.stats.norm.sf, scipy.stats.norm.isf
+    cdfs = cdf(lims, loc=mean, scale=stdv)
+    vals = ppf(uniform(cdfs[0], cdfs[1], number), loc=mean, scale=stdv)
+    vals = np.clip(vals, lims[0], lims[1])
     if not cond_pdf:
       return vals
     return vals, scipy.stats.norm.pdf(vals, loc=mean, scale=stdv)
diff --git a/probayes/rf.py b/probayes/rf.py
index e940bb2..db43e1e 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -274,7 +274,7 @@ class RF (Field, Prob):
 
     # Handle SciPy objects specifically
     elif scipyobj is not None:      
-      lims = np.array([rv.ulims for rv in self._varlist])
+      lims = np.array([rv.vlims for rv in self._varlist])
       mean = scipyobj.mean
       cov = scipyobj.cov
       self._cond_cov = CondCov(mean, cov, lims)
-- 
2.43.0


From 17da38d48b5d53bbcbb9122de37139d3ab6bf7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:01 +0000
Subject: [PATCH 080/124] fix: members of Func and CF stay bound to their own
 index when others are fetched

---
 probayes/cf.py   | 15 ++-------------
 probayes/func.py | 27 +++++++++++----------------
 2 files changed, 13 insertions(+), 29 deletions(-)

diff --git a/probayes/cf.py b/probayes/cf.py
index 5f212ec..9f857db 100644
--- a/probayes/cf.py
+++ b/probayes/cf.py
@@ -4,6 +4,7 @@ dependence of an about output RF with respect to an input RF or the
 by the dependence of a subgroup of RVs with respect to the others. 
 '''
 import collections
+import functools
 from probayes.rv import RV
 from probayes.func import Func
 
@@ -51,7 +52,6 @@ class CF (Func):
 
   # Private
   __inpdict = None
-  __unknown = None
 
 #-------------------------------------------------------------------------------
   @property
@@ -97,7 +97,6 @@ class CF (Func):
     if self.__inpdict:
       if isinstance(inp, (tuple, list)):
         inp = {key: '' for key in inp}
-    self.__unknown = None
 
     # Handle inp is a random field first
     if not self.__inpdict and inp is not None:
@@ -205,16 +204,6 @@ class CF (Func):
      return super().__getitem__(spec)
    assert self.__inpdict, \
        "Input spec as a string only supported with a OrderedDict inp"
-   self.__unknown = spec
-   return self._call
-
-#-------------------------------------------------------------------------------
-  def _call(self, *args, **kwds):
-    if self.__unknown is None:
-      return super()._call(*args, **kwds)
-    kwds = dict(kwds)
-    kwds.update({'unknown': self.__unknown})
-    self.__unknown = None
-    return super()._call(*args, **kwds)
+   return functools.partial(self._call, unknown=spec)
 
 #-------------------------------------------------------------------------------
diff --git a/probayes/func.py b/probayes/func.py
index d943427..eae55d1 100644
--- a/probayes/func.py
+++ b/probayes/func.py
@@ -10,6 +10,7 @@ Func may be a tuple of callable/uncallable functions
 import numpy as np
 import scipy.stats
 import collections
+import functools
 from probayes.vtypes import isscalar, isunitary
 
 #-------------------------------------------------------------------------------
@@ -63,7 +64,6 @@ class Func:
   __scipycalls = None
   __order = None
   __delta = None
-  __index = None
 
 #-------------------------------------------------------------------------------
   def __init__(self, func=None, *args, **kwds):
@@ -236,9 +236,9 @@ class Func:
     return self.__delta
 
 #-------------------------------------------------------------------------------
-  def _call(self, *args, **kwds):
-    """ Private call used by the wrapped Func interface.
-    (see __call__ and __getitem__).
+  def _call(self, *args, _index=None, **kwds):
+    """ Private call used by the wrapped Func interface, where _index selects
+    the function if there are multiple (see __call__ and __getitem__).
     """
 
     """
@@ -249,13 +249,12 @@ class Func:
 
     # Handle scipy objects separately
     if self.__isscipy:
-      return self._call_scipy(*args, **kwds)
+      return self._call_scipy(*args, _index=_index, **kwds)
 
-    # Check for indexing and reset if necessary
+    # Index function if necessary
     func = self._func
-    if self.__index is not None:
-      func = func[self.__index]
-      self.__index = None
+    if _index is not None:
+      func = func[_index]
 
     # Non-callables
     if not self.__callable:
@@ -326,14 +325,11 @@ class Func:
     return func(*tuple(args), **kwds)
 
 #-------------------------------------------------------------------------------
-  def _call_scipy(self, *args, **kwds):
+  def _call_scipy(self, *args, _index=None, **kwds):
     """ Private call used by the wrapped Func interface for scipy objects.
     (see __call__ and __getitem__).
     """
-    index = 0
-    if self.__index is not None:
-      index = self.__index
-      self.__index = None
+    index = 0 if _index is None else _index
     if index < 4:
       if len(args) == 1 and isinstance(args[0], dict):
         args = [np.ravel(val) for val in args[0].values()]
@@ -365,8 +361,7 @@ class Func:
      return self._func
    assert self.__ismulti or self.__isscipy, \
      "Cannot index without single func, use Func()"
-   self.__index = spec
-   return self._call
+   return functools.partial(self._call, _index=spec)
 
 #-------------------------------------------------------------------------------
   def __len__(self):
-- 
2.43.0


From 6ea194c4fd4426e23026e633e121e3cd85c6a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 081/124] fix: expressions with positional constants accept
 their arguments as a dictionary

---
 probayes/expression.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 1d60645..8e143c9 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -393,8 +393,11 @@ class Expression:
         expr = self._expr
       return expr
 
-    # Allow first argument to denote kwds
-    if len(args) == 1 and isinstance(args[0], dict):
+    # Allow first argument (following any positional constants) to denote kwds
+    n_args = len(self._args)
+    if len(args) == n_args + 1 and isinstance(args[-1], dict):
+      args, kwds = args[:-1], {**kwds, **dict(args[-1])}
+    elif len(args) == 1 and isinstance(args[0], dict):
       args, kwds = (), {**kwds, **dict(args[0])}
     #argsmid = args; kwdsmid = kwds; import pdb; pdb.set_trace() # debugging
 
-- 
2.43.0


From 19b5f5dc033069773e713e523a96123bbb79a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 082/124] fix: iconic tuples support the index -1 of the last
 expression as other tuples do

---
 probayes/expression.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 8e143c9..5ad5800 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -168,7 +168,7 @@ class Expression:
     self.__delta = None
     self.__inverse = None
     self.__invexpr = None
-    self.__invderi = None
+    self.__derinv = None
     self.__invertible = False if 'invertible' not in kwds else \
                         self._kwds.pop('invertible')
     self._exprs = collections.OrderedDict()
@@ -336,15 +336,11 @@ class Expression:
           self._partials.update({1: call})
           self._partials.update({-1: call})
       else:
-        if isinstance(self._exprs, tuple):
-          for i, expr in enumerate(self._exprs):
-            call = functools.partial(Expr.__call__, expr)
-            self._partials.update({i: call})
+        for key, val in self._exprs.items():
+          call = functools.partial(Expr.__call__, val)
+          self._partials.update({key: call})
+        if isinstance(self._expr, tuple) and self._exprs:
           self._partials.update({-1: call})
-        elif isinstance(self._exprs, dict):
-          for key, val in self._exprs.items():
-            call = functools.partial(Expr.__call__, val)
-            self._partials.update({key: call})
 
     # Non-multiples are keyed by: None
     elif not self._ismulti:
-- 
2.43.0


From e2d8955c93db6e8a76ddeac526a4591ce9ffcca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 083/124] fix: length of a multiple Expression counts each
 expression once

---
 probayes/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/probayes/expression.py b/probayes/expression.py
index 5ad5800..e13360a 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -491,6 +491,8 @@ class Expression:
     """ Returns the number of expressions in the tuple set by set_expr() """
     if not self._ismulti:
       return None
+    if isinstance(self._expr, (dict, tuple)):
+      return len(self._expr)
     return len(self._partials)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 5b1a233711554a581052905762db71f34eaa5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 084/124] fix: calling a multiple Expression reports its keys
 rather than failing to

---
 probayes/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index e13360a..60a4c13 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -466,7 +466,7 @@ class Expression:
    args and kwds. """
    assert not self._ismulti, \
        "Cannot call with multiple expression, use Expression[{}]()".format(
-           list(self._keys()))
+           list(self._keys))
    return self._partials[None](*args, **kwds)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 039cef5cdae1173d368a7b300110bbfdf2999211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 085/124] fix: symbols declared with assumptions are
 substituted by scalar values

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index b217d70..bd4e05a 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -207,7 +207,7 @@ class Expr:
     # If supported efun found or not array, then use it
     if not(any(isarray)) or np.ndarray in self._efun:
       efun = self._efun[etype]
-      vals = efun(*evalues) if etype else efun(values)
+      vals = efun(*evalues) if etype else efun(dict(zip(ekeys, evalues)))
       if isinstance(vals, np.ndarray):
         return vals
       elif isinstance(vals, sympy.Integer):
-- 
2.43.0


From 9cd6d02ed703b75eae3911372fac0f88e09e34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 086/124] fix: expressions without an array function evaluate
 each symbol by its own values

---
 probayes/expr.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index bd4e05a..6a63582 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -224,30 +224,17 @@ class Expr:
     if any(isarray) and np.ndarray not in self._efun:
       efun = self._efun[None]
 
-      vec_dims = np.array([dim for dim in vec_dim if dim is not None])
-      # Is a sort required (meshgrid seems to prefer reverse order)?
-      if len(vec_dims) > 1 and np.max(np.diff(vec_dims)) > 0:
-        values = sort_ordered_dict(values, vec_dim, reverse=True)
-        evalues = list(values.values())
+      # Broadcast arrays as supported evaluation functions do
       mesh_values = [val for i, val in enumerate(evalues) if isarray[i]]
-      mesh_grid = np.meshgrid(*tuple(mesh_values), copy=False)
-      revalues = collections.OrderedDict()
-      shape = None
-      mesh_idx = -1
-      for i, key in enumerate(keys):
-        if isarray[i]:
-          mesh_idx += 1
-          shape = mesh_grid[mesh_idx].shape
-          revalues.update({key: np.ravel(mesh_grid[mesh_idx])})
-        else:
-          revalues.update({key: values[key]})
+      mesh_grid = np.broadcast_arrays(*tuple(mesh_values))
+      shape = mesh_grid[0].shape
+      revalues = [np.ravel(mesh) for mesh in mesh_grid]
+      array_keys = [ekey for i, ekey in enumerate(ekeys) if isarray[i]]
       size = int(np.prod(shape))
-      vals = dict(values)
+      vals = dict(zip(ekeys, evalues))
       reval = [None] * size
       for k in range(size):
-        for i, key in enumerate(keys):
-          if isarray[i]:
-            vals.update({key: revalues[key][k]})
+        vals.update({ekey: reval_k[k] for ekey, reval_k in zip(array_keys, revalues)})
         val = efun(vals)
         if isinstance(val, sympy.Integer):
           reval[k] = int(val)
-- 
2.43.0


From 9a95bef5059715d091b3c13244b9866f5778af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 087/124] fix: positional values of symbolic expressions follow
 the order of symbol names

---
 probayes/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 6a63582..4cf607e 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -19,7 +19,7 @@ def collate_symbols(expr):
   assert isinstance(expr, sympy.Expr), \
     "Input type not Expr type but: {}".format(expr)
   symbols = collections.OrderedDict()
-  for putative_symbol in expr.free_symbols:
+  for putative_symbol in sorted(expr.free_symbols, key=str):
     symbol = putative_symbol
     while hasattr(symbol, 'symbol') and \
         hasattr(symbol, 'name'):
-- 
2.43.0


From 1a94cfe9d711b9e349c280e9f44c4059301de1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 088/124] fix: Functional.isiconic returns the flag set

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 28735ba..561892c 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -105,7 +105,7 @@ class Functional:
   @property
   def isiconic(self):
     """ Iconic flag """
-    return self._iconic
+    return self._isiconic
 
   def add_func(self, spec, func, *args, **kwds):
     """ Adds an function dependency for a specificied inp/out relationship where
-- 
2.43.0


From 7ad63cc814beca7747a753eb558cb9d355ef2d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 089/124] fix: Functional specifications accept more than one
 input for an output

---
 probayes/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index 561892c..a8e6b7d 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -124,8 +124,8 @@ class Functional:
     spec_out = None
     spec_inp = None
     if isinstance(spec, dict):
-      spec_out = parse_identifiers(tuple(spec.keys()))
-      spec_inp = parse_identifiers(tuple(spec.values()))
+      spec_out = frozenset().union(*[parse_identifiers(key) for key in spec.keys()])
+      spec_inp = frozenset().union(*[parse_identifiers(val) for val in spec.values()])
     else:
       spec_out = parse_identifiers(spec)
 
-- 
2.43.0


From fbd2a947122b2742b995bc76290c8f0257765d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 090/124] fix: functionals accept functions of differences

---
 probayes/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/functional.py b/probayes/functional.py
index a8e6b7d..c1e79f0 100644
--- a/probayes/functional.py
+++ b/probayes/functional.py
@@ -183,7 +183,7 @@ class Functional:
     for key, val in self._funcs.items():
       call = functools.partial(val.__call__, *self._args, **self._kwds)
       self._partials.update({key: call})
-      if not val.order:
+      if not val.order and not val.delta:
         order = dict()
         deps = self._deps[key]
         for element in self._inp_set:
-- 
2.43.0


From 57868e2bf7c651874c36b9077659d5e4b9556191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:59 +0000
Subject: [PATCH 091/124] fix: functionals do not require inputs that are
 dropped

---
 probayes/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 60a4c13..04e0fc7 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -421,7 +421,8 @@ class Expression:
 
     # Callables with order wrapper
     if self.__order:
-      values = {key: kwds.pop(key) for key in self.__order.keys()}
+      values = {key: kwds.pop(key) if val is not None else kwds.pop(key, None) \
+                for key, val in self.__order.items()}
       for key, val in self.__order.items():
         if type(val) is int:
           args[val] = values[key]
-- 
2.43.0


From 4d1968dbc4aa81109a708584eb5771bf93044e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 092/124] fix: bool_perm_freq adds the base frequency to its
 counts

---
 probayes/likelihoods.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/probayes/likelihoods.py b/probayes/likelihoods.py
index cad3fac..3cbceaf 100644
--- a/probayes/likelihoods.py
+++ b/probayes/likelihoods.py
@@ -68,6 +68,8 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
   sequences = bool_2d.astype(int).tolist()
   for sequence in sequences:
     counts[tuple(sequence)] += 1
+  if base_freq:
+    counts = counts + base_freq
   if col_labels is None:
     return counts
   assert len(col_labels) == cols, \
@@ -81,9 +83,7 @@ def bool_perm_freq(bool_2d, col_labels=None, base_freq=0):
     reshape[dim] = 2
     dims.update({lbl: dim})
     vals.update({lbl: np.array([False, True]).reshape(reshape)})
-  if base_freq:
-    base_freq += counts
-  rel_freq = counts / rows
+  rel_freq = counts / counts.sum()
 
   def _func_bool_perm_freq(spec=None, **kwds):
     assert 'dims' in kwds, \
-- 
2.43.0


From 0bf288789d10ddbe7e18020dfe10597f5f18a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 093/124] fix: slice_by_keyvals guesses the dimensions that are
 not given

---
 probayes/rf_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1737a1d..d64214d 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -93,12 +93,13 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
       if isscalar(val):
         dims.update({key: None})
       else:
-        assert val.size == np.product(vals.shape), \
-            "Multiple non-singleton dimensions: {}".format(val.size)
-        if val.size > 1:
-          run_dim = np.argmax(val.shape)
+        assert val.size == max(val.shape), \
+            "Multiple non-singleton dimensions: {}".format(val.shape)
+        if val.size > 1 and val.ndim > 1:
+          run_dim = int(np.argmax(val.shape))
         dims.update({key: run_dim})
         run_dim += 1
+    return dims
 
   # Default spec_dims and vals_dims if not given 
   if spec_dims is None:
-- 
2.43.0


From 8e76befe964ee654742e5cac3cf4fe2f807aecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 094/124] fix: slice_by_keyvals accepts scalars without
 dimension for every key

---
 probayes/rf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index d64214d..1eef7d5 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -105,8 +105,9 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
   if spec_dims is None:
     spec_dims = dims_from_vals(spec)
   else:
-    assert set(spec.keys()) == set(spec_dims.keys()), \
+    assert set(spec.keys()) >= set(spec_dims.keys()), \
         "Keys for spec and spec_dims unmatched"
+    spec_dims = {key: spec_dims.get(key, None) for key in keys}
   if vals_dims is None:
     vals_dims = dims_from_vals(vals)
   else:
-- 
2.43.0


From 70349eb846890e3cc2e310076f89c95a1e7cbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 095/124] fix: slice_by_keyvals orders probabilities by the
 dimensions specified

---
 probayes/rf_utils.py | 80 ++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/probayes/rf_utils.py b/probayes/rf_utils.py
index 1eef7d5..cc235f6 100644
--- a/probayes/rf_utils.py
+++ b/probayes/rf_utils.py
@@ -75,8 +75,8 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
   :param spec_dims: dictionary of dimensional decription for spec.
 
   If vals_dims and/or spec_dims are not entered, they are 'guessed' from vals
-  and spec respectively, but correct guessing is not assured. Non-none dimensions
-  for vals_dims and spec_dims must be mutually ordered monotically by key.
+  and spec respectively, but correct guessing is not assured. Dimensions need not
+  be in the same order in vals_dims and spec_dims.
   """
 
   # Check for consistent keys
@@ -114,55 +114,41 @@ def slice_by_keyvals(spec, vals, prob, vals_dims=None, spec_dims=None):
     assert set(vals.keys()) == set(vals_dims.keys()), \
         "Keys for spec and spec_dims unmatched"
   
-  # Determine maximum dimensionality of input
-  vals_ndim = 0
-  for dim in vals_dims.values():
-    if dim:
-      vals_ndim = max(vals_ndim, dim)
+  # Determine dimensionality of input and output
+  vals_ndim = max([dim for dim in vals_dims.values() if dim is not None] + [-1]) + 1
+  spec_ndim = max([dim for dim in spec_dims.values() if dim is not None] + [-1]) + 1
+  spec_ndim = max([spec_ndim] + [spec[key].ndim for key in keys if not isscalar(spec[key])])
 
-  # Determine maximum dimensionality of output from spec and spec_dims
-  spec_ndim = 0
-  for key, dim in spec_dims.items():
-    if dim:
-      spec_ndim = max(spec_ndim, dim)
-    if not isscalar(spec[key]):
-      spec_ndim = max(spec[key].ndim, dim)
-
-  # Check for monotonic ordering of dimensions
-  dims = [dim for dim in vals_dims.values() if dim is not None]
-  if len(dims) > 1:
-    assert np.min(np.diff(dims)) > 0, "Dimensionality not monotically ordered"
-  dims = [dim for dim in spec_dims.values() if dim is not None]
-  if len(dims) > 1:
-    assert np.min(np.diff(dims)) > 0, "Dimensionality not monotically ordered"
+  # Check every key has a dimension of its own
+  for dims in [vals_dims, spec_dims]:
+    dims = [dim for dim in dims.values() if dim is not None]
+    assert len(dims) == len(set(dims)), "Dimensions shared between keys"
 
   # Evaluate reshape and slices from matches between spec and vals
   reshape = [1] * spec_ndim
-  slices = [slice(None) for _ in range(vals_ndim+1)]
-  for i, key in enumerate(keys):
-    if vals_dims[key] is None: # If source is scalar
-      if not isscalar(spec[key]):
-        assert np.all(spec[key] == vals[key]), \
-          "Cannot slice by multiple values"
-      elif spec[key] != vals[key]:
-        return np.empty(np.zeros(len(dims), dtype=int), dtype=float)
-      else:
-        pass
-    if spec_dims[key] is None: # If target is scalar
-      dim = vals_dims[key]
-      match = np.ravel(vals[key]) == spec[key]
-      n_matches = match.sum()
-      if n_matches == 0:
-        slices[dim] = slice(0, 0)
-      elif n_matches == 1:
-        slices[dim] = np.nonzero(match)[0]
-      else:
-        raise ValueError("Non-unique matches found")
+  axes = [None] * spec_ndim
+  slices = [[0]] * vals_ndim
+  for key in keys:
+    matches = [np.nonzero(np.ravel(vals[key]) == val)[0] for val in np.ravel(spec[key])]
+    if vals_dims[key] is None and not all([len(match) for match in matches]):
+      return np.empty([0] * spec_ndim, dtype=float)
+    if any([len(match) > 1 for match in matches]):
+      raise ValueError("Non-unique matches found")
+    assert all([len(match) for match in matches]), \
+        "Values not found for key {}: {}".format(key, spec[key])
+    dim = spec_dims[key]
+    if dim is None:
+      assert len(matches) == 1, "Cannot slice by multiple values without a dimension"
     else:
-      assert np.all(np.ravel(vals[key]) == np.ravel(spec[key])), \
-          "Ambiguous specification with values mismatch"
-      dim = spec_dims[key]
-      reshape[dim] = vals[key].size
-  return prob[tuple(slices)].reshape(reshape)
+      reshape[dim] = len(matches)
+      axes[dim] = vals_dims[key]
+    if vals_dims[key] is not None:
+      slices[vals_dims[key]] = [int(match[0]) for match in matches]
+
+  # Order the dimensions of the slice by those of spec
+  axes = [axis for axis in axes if axis is not None]
+  axes += [axis for axis in range(vals_ndim) if axis not in axes]
+  sliced = prob[np.ix_(*slices)] if vals_ndim else prob
+  return np.transpose(sliced, axes).reshape(reshape)
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 8b516d2b1d9355e2bf5dbc1b7a3793206a34275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 096/124] fix: variables can be combined with dependences

---
 probayes/ops.py | 6 +++---
 probayes/rv.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index 5da738a..aa683f7 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -54,12 +54,12 @@ def and_op(self, other):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = fld(*tuple(leafs))
+      args = [fld(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return dep(*args)
+        args += [roots]
+      return dep(*tuple(args))
 
     if isinstance(other, Field):
       var = [self] + list(other.vars.values())
diff --git a/probayes/rv.py b/probayes/rv.py
index e5f5c16..14f6d6f 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -562,12 +562,12 @@ class RV (Variable, Prob):
       leafs = [self] + list(other.leafs.vars.values())
       stems = other.stems
       roots = other.roots
-      args = RF(*tuple(leafs))
+      args = [RF(*tuple(leafs))]
       if stems:
         args += list(stems.values())
       if roots:
-        args += list(roots.values())
-      return SD(*args)
+        args += [roots]
+      return SD(*tuple(args))
 
     if isinstance(other, RF):
       rvs = [self] + list(other.vars.values())
-- 
2.43.0


From 85c341bbc3ff5ddf4f68d5167d3a7efe6b51d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 097/124] fix: dependences can be combined with variables and
 fields

---
 probayes/ops.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/probayes/ops.py b/probayes/ops.py
index aa683f7..29298d5 100644
--- a/probayes/ops.py
+++ b/probayes/ops.py
@@ -21,7 +21,18 @@ def and_op(self, other):
 
   # Dependence as pre-operand
   if isinstance(self, Dependence):
-    return dep(other, self)
+    if isinstance(other, Dependence):
+      return dep(other, self)
+    if not isinstance(other, (Variable, Field)):
+      raise TypeError("Unrecognised post-operand type {}".format(type(other)))
+    leafs = list(self.leafs.varlist)
+    leafs += list(other.varlist) if isinstance(other, Field) else [other]
+    args = [fld(*tuple(leafs))]
+    if self.stems:
+      args += list(self.stems.values())
+    if self.roots:
+      args += [self.roots]
+    return dep(*tuple(args))
 
   # Field as pre-operand
   if isinstance(self, Field):
-- 
2.43.0


From 71c9b2d53cc774c119ebb95c6a965f0cd9ac9e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 098/124] fix: collections of variables can be added to a field
 that has variables

---
 probayes/field.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 931dac5..b3ab02a 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -114,7 +114,7 @@ class Field (NX_UNDIRECTED_GRAPH):
 
     :param var: a Variable or Field instance, or a list/tuple of Variable instances.
     """
-    variables = []
+    variables = [var]
     if isinstance(var, (Field, dict, set, tuple, list)):
       variables = var
       if isinstance(variables, Field):
@@ -128,13 +128,6 @@ class Field (NX_UNDIRECTED_GRAPH):
         assert var not in list(self.nodes), \
             "Existing variable {} already present in collection".format(var)
       super().add_node(var)
-    else:
-      assert isinstance(var, Variable), \
-          "Input not a variable instance but of type: {}".format(type(var))
-      if self._nvars:
-        assert var not in list(self.nodes), \
-            "Existing variable {} already present in collection".format(var)
-      super().add_node(var)
     self._refresh()
 
 #-------------------------------------------------------------------------------
-- 
2.43.0


From 1d3c771ec8b739d7ffdf30b882603c531879876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 099/124] fix: fields can be initialised from a field

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index b3ab02a..c2e0d6a 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -102,7 +102,7 @@ class Field (NX_UNDIRECTED_GRAPH):
     
     """
     self._leafs, self._stems, self._roots = self, None, None
-    if len(args) == 1 and isinstance(args[0], (Variable, set, tuple, list)):
+    if len(args) == 1 and isinstance(args[0], (Variable, Field, set, tuple, list)):
       args = args[0]
     else:
       args = tuple(args)
-- 
2.43.0


From c708959a7df51d2a0253b937624b63c847470e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 100/124] fix: dependences can be declared with more than two
 fields

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 8c60941..69905fc 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -94,7 +94,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for var in variables:
           NX_DIRECTED_GRAPH.add_node(self, var)
         return self._refresh(fields[0])
-      leafs_vars = fields[0].varlist
+      leafs_vars = list(fields[0].varlist)
       roots_vars = fields[-1].varlist
       if len(fields) > 2:
         for field in fields[1:-1]:
@@ -112,7 +112,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
           NX_DIRECTED_GRAPH.add_edge(self, roots_var, leafs_var)
       if len(fields) == 2:
         return self._refresh(fields[0], fields[1])
-      return self._refresh(self._field_cls(*tuple(leafs_var)), fields[-1])
+      return self._refresh(self._field_cls(*tuple(leafs_vars)), fields[-1])
 
     # At this point, all arguments must be dependences
     assert all(arg_aredep), "Cannot mix Dependences with other input types"
-- 
2.43.0


From 39241c1cf485eece4610bb604b0a7b95cb5a6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 101/124] fix: dependences without roots can be combined with
 others

---
 probayes/dependence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 69905fc..00e7072 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -145,7 +145,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     run_roots = [None] * len(args)
     for i, arg in enumerate(args):
       run_leafs[i] = list(arg.leafs.varlist)
-      run_roots[i] = list(arg.roots.varlist)
+      run_roots[i] = list(arg.roots.varlist) if arg.roots else []
 
     # Detect for implicit serial dependences
     serial = len(args) > 1
-- 
2.43.0


From 05239079a6e93faa7a1f533f60f9ec034269e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 102/124] fix: distribution names of dependences given a single
 value

---
 probayes/dependence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 00e7072..01cfbde 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -344,8 +344,8 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       return super().eval_dist_name(values, suffix)
     keys = self._keylist 
     vals = collections.OrderedDict()
-    if not isinstance(vals, dict):
-      vals.update({key: vals for key in keys})
+    if not isinstance(values, dict):
+      vals.update({key: values for key in keys})
     else:
       for key, val in values.items():
         if ',' in key:
-- 
2.43.0


From 213623e931c4b0238daa391affb0ce58cb9b3e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 103/124] fix: predecessors of dependences are kept in order

---
 probayes/dependence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 01cfbde..cc66634 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -236,9 +236,10 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
     if not self._stems:
       self._preds = None if not self._roots else self._roots
     else:
-      preds = set()
+      preds = collections.OrderedDict()
       for leaf_var in self._leafs.varlist:
-        [preds.add(pred_var) for pred_var in self.predecessors(leaf_var)]
+        for pred_var in self.predecessors(leaf_var):
+          preds.update({pred_var: None})
       self._preds = self._field_cls(*tuple(preds))
 
     # Default functions for implicit architectures
-- 
2.43.0


From f8d391e2ecc8f3dff41ff5cff69350ff4e8b967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 104/124] fix: subfields of stochastic fields are stochastic

---
 probayes/field.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index c2e0d6a..1dcf877 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -46,6 +46,11 @@ class Field (NX_UNDIRECTED_GRAPH):
   _is_stochastic = False      # Flag of whether stochastic
   _func = False      # Functional
 
+  @property
+  def _subfield_cls(self):
+    """ Class of subfields (see subfield()) """
+    return getattr(self, '_field_cls', type(self))
+
 #-------------------------------------------------------------------------------
   @property
   def is_stochastic(self):
@@ -625,7 +630,7 @@ class Field (NX_UNDIRECTED_GRAPH):
       else:
         raise TypeError("Unrecognised vertex specification type: {}".format(
             type(vertex)))
-    return Field(*tuple(variables))
+    return self._subfield_cls(*tuple(variables))
 
 #-------------------------------------------------------------------------------
   def __call__(self, *args, **kwds):
-- 
2.43.0


From 77e0e22730888127f3344f416032e121a3f718f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 105/124] fix: Variable.dexpr returns and sets the
 deterministic expression

---
 probayes/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/variable.py b/probayes/variable.py
index d4d599f..8da41d5 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -771,7 +771,7 @@ class Variable (Icon):
     """ Sets iconic deterministic expression, substituting for icon in [:] """
     return self._dexpr
 
-  @name.setter
+  @dexpr.setter
   def dexpr(self, dexpr=None):
     self._dexpr = None if self._is_stochastic else dexpr
 
-- 
2.43.0


From a7ce77dd485ad48b133de58b253a8c8bedbb3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 106/124] fix: serial dependences include their intermediate
 variables as stems

---
 probayes/dependence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index cc66634..d191695 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -211,6 +211,11 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
       if self._roots:
         assert type(self._roots) is self._field_cls, \
           "Input roots cannot be type {}".format(type(roots))
+      known = self._leafs.keyset
+      known = known.union(self._roots.keyset) if self._roots else known
+      for var in list(self.nodes):
+        if var.name not in known:
+          self._stems.update({var.name: var})
 
     # Otherwise distinguish Variables belonging to leafs, roots, and stems
     else:
-- 
2.43.0


From 3e488f3616cf6459c99ef5c1e901957a38b2b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:45 +0000
Subject: [PATCH 107/124] fix: conditioning variables on themselves is refused

---
 probayes/dependence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index d191695..61da079 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -100,6 +100,10 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
         for field in fields[1:-1]:
           leafs_vars += list(field.varlist)
 
+      overlap = [var.name for var in leafs_vars if var in roots_vars]
+      assert not overlap, \
+          "Variables cannot condition themselves: {}".format(overlap)
+
       # Add leafs then roots
       for var in leafs_vars:
         NX_DIRECTED_GRAPH.add_node(self, var)
-- 
2.43.0


From 008035e146b0c17ed61e764c411b004beddd1c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 108/124] fix: default densities of decreasing or linear
 transformations without change of variables are positive numbers

---
 probayes/rv.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 14f6d6f..ec5ac2b 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -162,8 +162,16 @@ class RV (Variable, Prob):
       return
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
-      prob = prob + sympy.log(self._ufun.derinv.expr) if self._logp else \
-             prob * self._ufun.derinv.expr
+      ulims = self._ufun[0](self._vlims)
+      derinv = self._ufun.derinv.expr
+      if ulims[1] < ulims[0]: # densities of decreasing transformations
+        derinv = -derinv
+      if self._logp:
+        prob = prob + sympy.log(derinv)
+      else:
+        prob = prob * derinv
+      if not prob.free_symbols: # linear transformations
+        prob = float(prob)
     super().set_prob(prob)
     if self._tran is None or self.__def_tran:
       self.set_tran(prob)
-- 
2.43.0


From 4c4a63080bc8735a139f952c0b7ff21434311725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:31 +0000
Subject: [PATCH 109/124] fix: symbolic transformations with several inverses
 use the one valid for the variable set

---
 probayes/expression.py | 44 +++++++++++++++++++++++++++++++++---------
 probayes/variable.py   |  9 +++++++++
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/probayes/expression.py b/probayes/expression.py
index 04e0fc7..4df0c6f 100644
--- a/probayes/expression.py
+++ b/probayes/expression.py
@@ -8,6 +8,7 @@ import types
 import inspect
 import collections
 import functools
+import numpy as np
 import sympy
 from probayes.vtypes import isscalar
 from probayes.icon import isiconic
@@ -67,6 +68,7 @@ class Expression:
   __invertible = None
   __inverse = None
   __invexpr = None
+  __invexprs = None # all candidates for invexpr
   __derinv = None # derivative of value with respect to inverse
   __order = None
   __delta = None
@@ -168,6 +170,7 @@ class Expression:
     self.__delta = None
     self.__inverse = None
     self.__invexpr = None
+    self.__invexprs = None
     self.__derinv = None
     self.__invertible = False if 'invertible' not in kwds else \
                         self._kwds.pop('invertible')
@@ -247,6 +250,36 @@ class Expression:
     self._set_partials()
     self._keys = list(self._partials.keys())
 
+#-------------------------------------------------------------------------------
+  def _set_invexpr(self, invexpr):
+    # Protected function to update the partial function for the inverse
+    self.__invexpr = Expr(invexpr)
+    call = functools.partial(Expr.__call__, self.__invexpr)
+    self._partials.update({1: call})
+    self._partials.update({-1: call})
+
+#-------------------------------------------------------------------------------
+  def select_inverse(self, values):
+    """ Where the expression has several inverse solutions (e.g. the positive
+    and negative roots of a square), selects the one that recovers the values.
+    """
+    if not self.__invertible or len(self.__invexprs) < 2:
+      return
+    symbol = list(self._exprs[None].symbols.values())[0]
+    for invexpr in self.__invexprs:
+      recovers = True
+      for value in values:
+        transformed = self._expr.subs({symbol: value}).evalf()
+        recovered = invexpr.subs({self.__inverse: transformed}).evalf()
+        if not recovered.is_number or \
+            not np.isclose(complex(recovered), value, rtol=1e-6, atol=1e-9):
+          recovers = False
+          break
+      if recovers:
+        if invexpr != self.__invexpr.expr:
+          self._set_invexpr(invexpr)
+        return
+
 #-------------------------------------------------------------------------------
   def set_order(self, order=None):
     """ Sets an order remapping dictionary for functional calls in which
@@ -326,15 +359,8 @@ class Expression:
           n_exprs = len(invexprs)
           assert n_exprs, "No invertible solutions for expression {}".format(
               self._expr)
-          invexpr = invexprs[0]
-          if n_exprs > 1:
-            for expr in invexprs[1:]:
-              if len(expr.__repr__()) < len(invexpr.__repr__()):
-                invexpr = expr
-          self.__invexpr = Expr(invexpr)
-          call = functools.partial(Expr.__call__, self.__invexpr)
-          self._partials.update({1: call})
-          self._partials.update({-1: call})
+          self.__invexprs = sorted(invexprs, key=lambda expr: len(expr.__repr__()))
+          self._set_invexpr(self.__invexprs[0])
       else:
         for key, val in self._exprs.items():
           call = functools.partial(Expr.__call__, val)
diff --git a/probayes/variable.py b/probayes/variable.py
index 8da41d5..06427a5 100644
--- a/probayes/variable.py
+++ b/probayes/variable.py
@@ -336,6 +336,15 @@ class Variable (Icon):
       self._isfinite = False
       return self._length
 
+    # Where iconic transformations have several inverses, match it to the limits
+    if self._ufun is not None and self._ufun.invertible:
+      lo, hi = [float(lim) for lim in self._vlims]
+      if not np.isfinite(lo):
+        lo = hi - 2. if np.isfinite(hi) else -1.
+      if not np.isfinite(hi):
+        hi = lo + 2.
+      self._ufun.select_inverse([lo + frac*(hi-lo) for frac in (.1, .4, .9)])
+
     # Floating point limits are subject to transformation
     self._ulims = self._vlims if self._ufun is None else \
                   self.ufun[0](self._vlims)
-- 
2.43.0


From d28203f323f2d54228405fb0708a75619e1a36e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:00 +0000
Subject: [PATCH 110/124] fix: default transitions without change of variables
 give the density of successors

---
 probayes/rv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index ec5ac2b..43d647f 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -5,6 +5,7 @@ import collections
 import warnings
 import numpy as np
 import sympy
+from probayes.icon import isiconic
 from probayes.variable import Variable, DEFAULT_VNAME
 from probayes.prob import Prob
 from probayes.vtypes import uniform, VTYPES, isscalar, \
@@ -174,7 +175,11 @@ class RV (Variable, Prob):
         prob = float(prob)
     super().set_prob(prob)
     if self._tran is None or self.__def_tran:
-      self.set_tran(prob)
+      tran = prob
+      if isiconic(prob): # a default transition is independent of predecessors
+        key, func = self.__prime_key, Expression(prob)
+        tran = lambda **kwds: func(kwds[key]) + 0.*kwds[self._name]
+      self.set_tran(tran)
       self.__def_tran = True
     self.__def_prob = True
 
-- 
2.43.0


From c738b2ce4167b720bc9bffaca7f6b3be2e68467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:22 +0000
Subject: [PATCH 111/124] fix: expectations with exponent zero, and with
 exponents of integer values that overflow or are negative

---
 probayes/pd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probayes/pd.py b/probayes/pd.py
index 7bb04c5..5a1c841 100644
--- a/probayes/pd.py
+++ b/probayes/pd.py
@@ -387,7 +387,11 @@ class PD (Distribution):
     vals = collections.OrderedDict()
     for i, key in enumerate(self._keylist):
       if key in keys:
-        val = self[key] if not exponent else self[key]**exponent
+        val = self[key]
+        if exponent is not None: # integers may overflow or not be invertible
+          val = np.array(val, dtype=float)**exponent
+          if self._aresingleton[i]:
+            val = float(val)
         if self._aresingleton[i]:
           vals.update({key: val})
         else:
-- 
2.43.0


From 232ba0b84cb09dfca62439e51f17a1770e10bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:48 +0000
Subject: [PATCH 112/124] fix: inverse cumulative functions of sympy
 distributions, and their log probabilities outside the support

---
 probayes/expr.py       |  3 +++
 probayes/sympy_prob.py | 49 +++++++++++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/probayes/expr.py b/probayes/expr.py
index 4cf607e..7996b0e 100644
--- a/probayes/expr.py
+++ b/probayes/expr.py
@@ -215,6 +215,9 @@ class Expr:
       elif isinstance(vals, sympy.Float):
         return float(vals)
       elif isinstance(vals, sympy.Expr) and not len(collate_symbols(vals)):
+        if vals is sympy.zoo and np.ndarray in self._efun:
+          with np.errstate(divide='ignore'): # infinite as for arrays
+            return float(self._efun[np.ndarray](*tuple(np.array(evalues, dtype=float))))
         return float(vals)
       elif etype == np.ndarray:
         return np.array(vals)
diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 88f6516..5694456 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -47,6 +47,33 @@ def sympy_obj_from_dist(dist, _recursive=False):
     raise ValueError('Unsupported distribution: {}'.format(dist))
   return None
 
+#-------------------------------------------------------------------------------
+def inverse_cdf(cdf, invexprs, name, icdf_name):
+  """ Returns the simplest Expr that inverts cdf from solutions in invexprs, or
+  None if there is none. Solutions for parts of the range are put together. """
+  invexprs = sorted(invexprs, key=lambda expr: len(expr.__repr__()))
+  pieces = []
+  for expr in invexprs:
+    expr_args = expr.args if isinstance(expr, sympy.Piecewise) else [(expr, True)]
+    pieces += [tuple(arg) for arg in expr_args if arg[0] is not sympy.nan]
+  if len(invexprs) > 1:
+    try:
+      invexprs.append(sympy.Piecewise(*pieces, (sympy.nan, True)))
+    except TypeError:
+      pass
+  probs = np.array([0.05, 0.25, 0.5, 0.75, 0.95])
+  for expr in invexprs:
+    icdf = Expr(expr, remap={name: icdf_name})
+    if set(icdf.symbols.keys()) != {icdf_name}: # symbolic parameters
+      return icdf
+    with np.errstate(all='ignore'):
+      try:
+        if np.allclose(cdf(icdf(probs)), probs):
+          return icdf
+      except Exception:
+        pass
+  return None
+
 #-------------------------------------------------------------------------------
 def sympy_sfun(distr, size=0, dtype=None, _sfunc=sympy.stats.sample):
   """ Sampling function for Sympy distributions where:
@@ -165,18 +192,16 @@ class SympyProb:
     if 'cdf' in self._exprs.keys():
       icdf_name = "_{}_cdf".format(self._cterm.name)
       self.__icdf = sympy.Symbol(icdf_name)
-      try:
-        invexprs = sympy.solve(self._exprs['cdf'].expr - self.__icdf,  self._cterm)
-      except TypeError: # in case Sympy fails to solve the inverse
-        invexprs = []
-      n_exprs = len(invexprs)
-      if n_exprs:
-        invexpr = invexprs[0]
-        if n_exprs > 1:
-          for expr in invexprs[1:]:
-            if len(expr.__repr__()) < len(invexpr.__repr__()):
-              invexpr = expr
-        self._exprs.update({'icdf': Expr(invexpr, remap={self._cterm.name: icdf_name})})
+      invexprs = []
+      for simp in [lambda expr: expr, functools.partial(sympy.nsimplify, rational=True)]:
+        try:
+          invexprs = sympy.solve(simp(self._exprs['cdf'].expr) - self.__icdf, self._cterm)
+          break
+        except Exception: # in case Sympy fails to solve the inverse
+          pass
+      icdf_expr = inverse_cdf(self._exprs['cdf'], invexprs, self._cterm.name, icdf_name)
+      if icdf_expr is not None:
+        self._exprs.update({'icdf': icdf_expr})
 
     # Set sampling function
     self._exprs.update({'sfun': functools.partial(sympy_sfun, self._distr)})
-- 
2.43.0


From 00ca4509ec71c4de1479572f9085b6c15a5410c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 113/124] fix: uniform probabilities inside values rather than
 a function

---
 probayes/rv_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/probayes/rv_utils.py b/probayes/rv_utils.py
index e57dda2..4637a7e 100644
--- a/probayes/rv_utils.py
+++ b/probayes/rv_utils.py
@@ -22,10 +22,11 @@ def uniform_prob(*args, prob=None, inside=None, pscale=1.):
 
   # Set inside function by vtype if not specified
   if not callable(inside):
+    vset = inside
     if vtype in VTYPES[float]:
-      inside = lambda x: np.logical_and(x >= min(inside), x <= max(inside))
+      inside = lambda x: np.logical_and(x >= min(vset), x <= max(vset))
     else:
-      inside = lambda x: np.isin(x, inside)
+      inside = lambda x: np.isin(x, list(vset))
 
   # If scalar, check within variable set
   p_zero = NEARLY_NEGATIVE_INF if use_logs else 0.
-- 
2.43.0


From f7ca27f917905e8c49ff8fa3b20b8c85420c6aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:57 +0000
Subject: [PATCH 114/124] fix: inverse cumulative functions are checked
 symbolically, without compilation

---
 probayes/sympy_prob.py | 43 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/probayes/sympy_prob.py b/probayes/sympy_prob.py
index 5694456..f3fea3e 100644
--- a/probayes/sympy_prob.py
+++ b/probayes/sympy_prob.py
@@ -48,30 +48,27 @@ def sympy_obj_from_dist(dist, _recursive=False):
   return None
 
 #-------------------------------------------------------------------------------
-def inverse_cdf(cdf, invexprs, name, icdf_name):
-  """ Returns the simplest Expr that inverts cdf from solutions in invexprs, or
-  None if there is none. Solutions for parts of the range are put together. """
+def inverse_cdf(cdf, invexprs, cterm, icdf):
+  """ Returns the simplest expression of symbol icdf that inverts expression cdf
+  of cterm among solutions invexprs, or None if there is not any. Solutions for 
+  parts of the range are put together. """
   invexprs = sorted(invexprs, key=lambda expr: len(expr.__repr__()))
-  pieces = []
-  for expr in invexprs:
-    expr_args = expr.args if isinstance(expr, sympy.Piecewise) else [(expr, True)]
-    pieces += [tuple(arg) for arg in expr_args if arg[0] is not sympy.nan]
   if len(invexprs) > 1:
+    pieces = []
+    for expr in invexprs:
+      expr_args = expr.args if isinstance(expr, sympy.Piecewise) else [(expr, True)]
+      pieces += [tuple(arg) for arg in expr_args if arg[0] is not sympy.nan]
+    if pieces:
+      invexprs.append(sympy.Piecewise(*pieces[:-1], (pieces[-1][0], True)))
+  for expr in invexprs:
+    if expr.free_symbols != {icdf}: # symbolic parameters
+      return expr
     try:
-      invexprs.append(sympy.Piecewise(*pieces, (sympy.nan, True)))
-    except TypeError:
+      if all([np.isclose(float(cdf.subs(cterm, expr.subs(icdf, prob))), prob)
+              for prob in [0.05, 0.25, 0.5, 0.75, 0.95]]):
+        return expr
+    except TypeError: # not a real solution
       pass
-  probs = np.array([0.05, 0.25, 0.5, 0.75, 0.95])
-  for expr in invexprs:
-    icdf = Expr(expr, remap={name: icdf_name})
-    if set(icdf.symbols.keys()) != {icdf_name}: # symbolic parameters
-      return icdf
-    with np.errstate(all='ignore'):
-      try:
-        if np.allclose(cdf(icdf(probs)), probs):
-          return icdf
-      except Exception:
-        pass
   return None
 
 #-------------------------------------------------------------------------------
@@ -199,9 +196,9 @@ class SympyProb:
           break
         except Exception: # in case Sympy fails to solve the inverse
           pass
-      icdf_expr = inverse_cdf(self._exprs['cdf'], invexprs, self._cterm.name, icdf_name)
-      if icdf_expr is not None:
-        self._exprs.update({'icdf': icdf_expr})
+      invexpr = inverse_cdf(self._exprs['cdf'].expr, invexprs, self._cterm, self.__icdf)
+      if invexpr is not None:
+        self._exprs.update({'icdf': Expr(invexpr, remap={self._cterm.name: icdf_name})})
 
     # Set sampling function
     self._exprs.update({'sfun': functools.partial(sympy_sfun, self._distr)})
-- 
2.43.0


From 13e7f1b709bf8d28e2358d8733f98a0b7094901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 115/124] fix: increments of models without increments of their
 own, and of their leafs or roots alone

---
 probayes/dependence.py |  2 +-
 probayes/field.py      | 16 +++++++---------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 61da079..699bb23 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -337,7 +337,7 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
 
 #-------------------------------------------------------------------------------
   def set_delta(self, delta=None, *args, **kwds):
-    _delta = self.leafs_roots(delta)
+    _delta = None if delta is None else self.leafs_roots(delta)
     if not _delta:
       return super().set_delta(delta, *args, **kwds)
     self.set_prop_obj(_delta)
diff --git a/probayes/field.py b/probayes/field.py
index 1dcf877..582901c 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -269,8 +269,8 @@ class Field (NX_UNDIRECTED_GRAPH):
     if isinstance(self._delta, self._delta_type):
       assert not args, \
         "Optional args prohibited for dict/delta instance inputs"
-      for i, var in enumerate(self._varlist):
-        var.set_delta(self._delta[i], scale=scale, bound=bound)
+      for key, val in zip(self._delta_type._fields, self._delta):
+        self._vars[key].set_delta(val, scale=scale, bound=bound)
       return
 
     # Default scale and bound and check args
@@ -487,9 +487,8 @@ class Field (NX_UNDIRECTED_GRAPH):
         delta = self._delta()
       elif isinstance(self._delta, self._delta_type):
         delta_dict = collections.OrderedDict()
-        variables = self._varlist
-        for i, key in enumerate(self._keylist):
-          delta_dict.update({key: variables[i].eval_delta()})
+        for key in self._delta_type._fields:
+          delta_dict.update({key: self._vars[key].eval_delta()})
         delta = self._delta_type(**delta_dict)
       else:
         delta = self._delta
@@ -497,9 +496,8 @@ class Field (NX_UNDIRECTED_GRAPH):
       delta = delta()
     elif isinstance(delta, self._delta_type):
       delta_dict = collections.OrderedDict()
-      variables = self._varlist
-      for i, key in enumerate(self._keylist):
-        delta_dict.update({key: variables[i].eval_delta(delta[i])})
+      for key, val in zip(self._delta_type._fields, delta):
+        delta_dict.update({key: self._vars[key].eval_delta(val)})
       delta = self._delta_type(**delta_dict)
 
     # Non spherical case
@@ -549,7 +547,7 @@ class Field (NX_UNDIRECTED_GRAPH):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = False if 'bound' not in self._delta_kwds \
+    bound = False if not self._delta_kwds or 'bound' not in self._delta_kwds \
            else self._delta_kwds['bound']
     vals = collections.OrderedDict(values)
     keys = delta._fields
-- 
2.43.0


From c77af17d6e9264f00bc64a758f9802e720e6e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 116/124] fix: fields are unequal to objects of other kinds

---
 probayes/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probayes/field.py b/probayes/field.py
index 582901c..471d90f 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -661,7 +661,7 @@ class Field (NX_UNDIRECTED_GRAPH):
 #-------------------------------------------------------------------------------
   def __ne__(self, other):
     """ Equality for Field is defined as comprising the same Variables """
-    return not self.__eq__(other)
+    return not self == other
 
 #-------------------------------------------------------------------------------
   def __getitem__(self, key):
-- 
2.43.0


From cb2f070f58f29b09c1d4539feffa5bbe18d1fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 117/124] fix: positional parameters of scipy distributions are
 not taken for values

---
 probayes/prob.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probayes/prob.py b/probayes/prob.py
index e6081f8..33a8bf7 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -203,9 +203,11 @@ class Prob (Expression, SympyProb):
       # Set remaining scipy-specific flag
       self._isiconic = False
 
-      # Instantiate multivariate scipy objects with pre-specified arguments
-      if self.__issmvar and is_scipy_stats_mvar(self._expr):
-        self._expr = self._expr(*self._args,  **self._kwds)
+      # Instantiate multivariate scipy objects with pre-specified arguments, and
+      # univariate ones if positional as otherwise they would precede the values
+      if self.__issmvar or self._args:
+        if is_scipy_stats_dist(self._expr):
+          self._expr = self._expr(*self._args,  **self._kwds)
         self._args, self._kwds = (), {} # No longer used
 
       # Iterate available methods
-- 
2.43.0


From bdccaee36049daf1117b1d6fc6d564c101a5efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 118/124] fix: variables keep their own bounds when moved by
 fields without increments of their own

---
 probayes/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/probayes/field.py b/probayes/field.py
index 471d90f..23c34b2 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -547,8 +547,10 @@ class Field (NX_UNDIRECTED_GRAPH):
         return variables[0].apply_delta(values, delta)
       raise TypeError("Cannot apply delta without providing delta type {}".\
         format(self._delta_type))
-    bound = False if not self._delta_kwds or 'bound' not in self._delta_kwds \
-           else self._delta_kwds['bound']
+    # Variables apply their own bounds unless the field has its own increments
+    bound = None
+    if self._delta is not None:
+      bound = self._delta_kwds.get('bound', False)
     vals = collections.OrderedDict(values)
     keys = delta._fields
     for i, key in enumerate(keys):
-- 
2.43.0


From 0005af5c4fadab070de026cd860f610c8d9e6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 119/124] fix: default transitions follow the set and
 probability scale declared last

---
 probayes/rv.py | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/probayes/rv.py b/probayes/rv.py
index 43d647f..a322372 100644
--- a/probayes/rv.py
+++ b/probayes/rv.py
@@ -99,6 +99,8 @@ class RV (Variable, Prob):
     if self.__def_prob:
       self._prob = None
       self._default_prob()
+    else:
+      self._redefault_tran()
 
 #-------------------------------------------------------------------------------
   @property
@@ -111,6 +113,8 @@ class RV (Variable, Prob):
     if self.__def_prob:
       self._prob = None
       self._default_prob()
+    else:
+      self._redefault_tran()
 
 #-------------------------------------------------------------------------------
   @property
@@ -138,6 +142,7 @@ class RV (Variable, Prob):
       self._default_prob()
     else:
       self.__def_prob = False
+      self._redefault_tran()
 
     # Check uncallable probabilities commensurate with self._vset
     if self._vset is not None and \
@@ -160,7 +165,16 @@ class RV (Variable, Prob):
     """
 
     if self._prob is not None and not self.__def_prob:
-      return
+      return self._redefault_tran()
+    prob = self._uniform_prob()
+    super().set_prob(prob)
+    if self._tran is None or self.__def_tran:
+      self._default_tran(prob)
+    self.__def_prob = True
+
+#-------------------------------------------------------------------------------
+  def _uniform_prob(self):
+    """ Returns the uniform probability over self._vset. """
     prob = rescale(self._nlhv, 'log', self._pscale)
     if self._ufun is not None and self.no_ucov:
       ulims = self._ufun[0](self._vlims)
@@ -173,15 +187,23 @@ class RV (Variable, Prob):
         prob = prob * derinv
       if not prob.free_symbols: # linear transformations
         prob = float(prob)
-    super().set_prob(prob)
-    if self._tran is None or self.__def_tran:
-      tran = prob
-      if isiconic(prob): # a default transition is independent of predecessors
-        key, func = self.__prime_key, Expression(prob)
-        tran = lambda **kwds: func(kwds[key]) + 0.*kwds[self._name]
-      self.set_tran(tran)
-      self.__def_tran = True
-    self.__def_prob = True
+    return prob
+
+#-------------------------------------------------------------------------------
+  def _default_tran(self, tran):
+    """ Defaults unspecified transitions to the uniform probability. """
+    if isiconic(tran): # a default transition is independent of predecessors
+      key, func = self.__prime_key, Expression(tran)
+      tran = lambda **kwds: func(kwds[key]) + 0.*kwds[self._name]
+    self.set_tran(tran)
+    self.__def_tran = True
+
+#-------------------------------------------------------------------------------
+  def _redefault_tran(self):
+    """ Updates any default transition to the current set and probability scale 
+    where probabilities are not defaulted. """
+    if self._tran is not None and self.__def_tran:
+      self._default_tran(self._uniform_prob())
 
 #-------------------------------------------------------------------------------
   def set_pfun(self, pfun=None, *args, **kwds):
-- 
2.43.0


From 29bf24057a599b6ceb0b253a82e3ef7b32fbad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 120/124] fix: cumulative and sampling functions of a former
 distribution do not outlive it

---
 probayes/prob.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index 33a8bf7..d60bb67 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -78,6 +78,8 @@ class Prob (Expression, SympyProb):
   __isscipy = None   # Boolean flag of whether expression is a scipy stats object
   __issympy = None   # Boolean flag of whether expression is a sympy stats object
   __issmvar = None   # Boolean flag of whether expression is a scipy mvar object
+  __dist_pfun = None # pfun set from a scipy or sympy distribution
+  __dist_sfun = None # sfun set from a scipy or sympy distribution
 
 #-------------------------------------------------------------------------------
   def __init__(self, prob=None, *args, **kwds):
@@ -138,6 +140,13 @@ class Prob (Expression, SympyProb):
     self.__issympy = is_sympy_stats_dist(prob)
     self.__issmvar = is_scipy_stats_mvar(prob)
 
+    # Functions set from a previous distribution do not apply to this one
+    if self.__dist_pfun is not None and self._pfun is self.__dist_pfun:
+      self._pfun = None
+    if self.__dist_sfun is not None and self._sfun is self.__dist_sfun:
+      self._sfun = None
+    self.__dist_pfun, self.__dist_sfun = None, None
+
     # Probabilities can be defined as regular expressions, but iconise scalars
     if not self.__isscipy and not self.__issympy:
       prob_scalar = isscalar(prob)
@@ -174,8 +183,10 @@ class Prob (Expression, SympyProb):
                    else self._partials['prob']
       if 'cdf' in self._keys and 'ppf' in self._keys:
         self.set_pfun((self._expr.cdf, self._expr.ppf), *self._args, **self._kwds)
+        self.__dist_pfun = self._pfun
       if 'rvs' in self._keys and hasattr(self._expr, 'rvs'):
         self.set_sfun(self._expr.rvs, *self._args, **self._kwds)
+        self.__dist_sfun = self._sfun
 
     # Sympy dist - set pfun and sfun calls - self._prob is updated but not used
     elif self.__issympy:
@@ -183,10 +194,12 @@ class Prob (Expression, SympyProb):
                    else self._partials['prob'].expr
       if 'cdf' in self._keys and 'icdf' in self._keys:
         self.set_pfun((self._partials['cdf'], self._partials['icdf']))
+        self.__dist_pfun = self._pfun
       if 'sfun' in self._keys:
         self._partials.update({'sfun': 
                                functools.partial(sympy_sfun, self._distr, dtype=float)})
       self.set_sfun(sympy_sfun, self._expr)
+      self.__dist_sfun = self._sfun
 
 #-------------------------------------------------------------------------------
   def _set_partials(self):
-- 
2.43.0


From 0d6ad6241c05e6ce8e09a2e214d5994a623e41a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 121/124] fix: conditional models accept covariance transitions
 and withdrawn declarations

---
 probayes/dependence.py | 9 +++++----
 probayes/sd.py         | 6 +++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/probayes/dependence.py b/probayes/dependence.py
index 699bb23..7935fd9 100644
--- a/probayes/dependence.py
+++ b/probayes/dependence.py
@@ -317,16 +317,17 @@ class Dependence (NX_DIRECTED_GRAPH, Field):
   def set_prop_obj(self, prop_obj=None):
     """ Sets the object used for assigning proposal distributions """
     self._prop_obj = prop_obj
-    if self._prop_obj is None:
-      return
-    self._Delta = self._prop_obj.Delta
-    self._delta_type = self._prop_obj._delta_type
+    delta_obj = self._def_prop_obj if prop_obj is None else prop_obj
+    self._Delta = delta_obj.Delta
+    self._delta_type = delta_obj._delta_type
 
 #-------------------------------------------------------------------------------
   def leafs_roots(self, spec=None):
     """ Returns a proxy object from _subfields. """
     if spec is None:
       return self._subfields
+    if not isinstance(spec, (str, Field)):
+      return False
     if not isinstance(spec, str) and spec not in self._subfields.values(): 
       return False
     if isinstance(spec, str):
diff --git a/probayes/sd.py b/probayes/sd.py
index 1316636..d846a24 100644
--- a/probayes/sd.py
+++ b/probayes/sd.py
@@ -90,7 +90,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_prop(self, prop=None, *args, **kwds):
-    _prop = self.leafs_roots(prop)
+    _prop = None if prop is None else self.leafs_roots(prop)
     if not _prop:
       return super().set_prop(prop, *args, **kwds)
     self.set_prop_obj(_prop)
@@ -99,7 +99,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tran(self, tran=None, *args, **kwds):
-    _tran = self.leafs_roots(tran)
+    _tran = None if tran is None else self.leafs_roots(tran)
     if not _tran:
       self._tran_obj = self
       return super().set_tran(tran, *args, **kwds)
@@ -110,7 +110,7 @@ class SD (Dependence, RF):
 
 #-------------------------------------------------------------------------------
   def set_tfun(self, tfun=None, *args, **kwds):
-    _tfun = self.leafs_roots(tfun)
+    _tfun = None if tfun is None else self.leafs_roots(tfun)
     if not _tfun:
       self._tran_obj = self
       return super().set_tfun(tfun, *args, **kwds)
-- 
2.43.0


From a0fe03e734a0170d3f0a877d394db297a08f049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 122/124] fix: sampling functions set from a former field
 transition do not outlive it

---
 probayes/rf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/probayes/rf.py b/probayes/rf.py
index db43e1e..ef4556c 100644
--- a/probayes/rf.py
+++ b/probayes/rf.py
@@ -49,6 +49,7 @@ class RF (Field, Prob):
   __def_prob = None   # Flag to denote prob is defaulted
   __cond_mod = None  # conditional RV index modulus
   __cond_cov = None  # conditional covariance matrix
+  __tran_tfun = None # tfun that was set from the transition function
 
 #-------------------------------------------------------------------------------
   def __init__(self, *args): # over-rides NX_GRAPH.__init__()
@@ -174,7 +175,11 @@ class RF (Field, Prob):
     :param *args: optional arguments to pass if tran is callable.
     :param **kwds: optional keywords to pass if tran is callable.
     """
-    # Set transition function
+    # Set transition function, withdrawing any tfun set from the previous one
+    if self.__tran_tfun is not None and self._tfun is self.__tran_tfun:
+      self._tfun = None
+    self.__tran_tfun = None
+    self.__cond_mod = None
     self._tran = tran
     self._sym_tran = False
     self._tsteps = None
@@ -215,6 +220,7 @@ class RF (Field, Prob):
       assert tran.ndim == 2, message
       assert np.all(np.array(tran.shape) == self._nvars), message
       self.set_tfun(np.linalg.cholesky(tran))
+      self.__tran_tfun = self._tfun
       assert self._tsteps is None, \
           "Setting tsteps not supported for covariance transitions"
       return
@@ -223,6 +229,7 @@ class RF (Field, Prob):
     elif self._tran.isscipy:
       scipyobj = self._tran.expr
       self.set_tfun(self._tran, scipyobj=scipyobj)
+      self.__tran_tfun = self._tfun
       return
 
     # Return for unit variable RFs
-- 
2.43.0


From 9341e00d42c8b49f119eac1088e177ffea4c2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 123/124] fix: field increments are scaled by the present
 lengths of variables

---
 probayes/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/field.py b/probayes/field.py
index 23c34b2..5f5fcef 100644
--- a/probayes/field.py
+++ b/probayes/field.py
@@ -273,6 +273,9 @@ class Field (NX_UNDIRECTED_GRAPH):
         self._vars[key].set_delta(val, scale=scale, bound=bound)
       return
 
+    # Scaling is with respect to the present lengths of variables
+    self.eval_length()
+
     # Default scale and bound and check args
     if self._delta_args:
       assert len(self._delta_args) == 1, \
-- 
2.43.0


From 22a268a346cdda55a2aeed75fe495a28f548eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 124/124] fix: remappings and symbols of a former probability
 do not outlive it

---
 probayes/prob.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/probayes/prob.py b/probayes/prob.py
index d60bb67..158b345 100644
--- a/probayes/prob.py
+++ b/probayes/prob.py
@@ -165,6 +165,9 @@ class Prob (Expression, SympyProb):
       self._callable = True
       self._islambda = False
       self._isscalar = False
+      self._isiconic = False
+      Expression.set_order(self, None)
+      Expression.set_delta(self, None)
     else:
       self.set_expr(prob, *args, **kwds)
     self._args = tuple(args)
-- 
2.43.0

