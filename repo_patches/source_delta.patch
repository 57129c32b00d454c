From b3cb5dd5482c647841be8d05a942378835785e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:42 +0000
Subject: [PATCH 01/86] fix: a refused vary() leaves the parameter unchanged

vary() set the range, the scale and the varying status before it verified
the start value, so a refused call left a half-changed parameter; and a
current value outside the range was accepted silently.
---
 package/inference/pie/realparam.py | 37 ++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index df6e6ed..484f3a7 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -107,13 +107,17 @@ class RealParamHandler(ScalarParamHandler):
         self._set_status(fixed)
 
     def range(self, *range):
+        self.lo, self.hi = self._get_range(*range)
+        self.bounded = 1
+
+    def _get_range(self, *range):
+        """Return the (lo, hi) pair specified by range arguments."""
         if len(range) == 2:  # Two values were passed.
-            self.lo, self.hi = float(min(range)), float(max(range))
+            return float(min(range)), float(max(range))
         elif len(range) == 1:  # A 2-tuple was passed.
-            self.lo, self.hi = float(min(range[0])), float(max(range[0]))
+            return float(min(range[0])), float(max(range[0]))
         else:
             raise ValueError('Range must be a pair of scalars or a 2-element sequence!')
-        self.bounded = 1
 
     # *** Perhaps make these so a single (unnamed) arg -> set n over current range.
 
@@ -227,23 +231,32 @@ class RealParamHandler(ScalarParamHandler):
         return self.step_num
 
     def vary(self, start=None, delta=None, range=None):
+        # Verify everything before changing anything, so that a failed call
+        # leaves the parameter as it was.
         if not range:
             if not self.bounded:
                 raise ValueError('Need a range for varying parameter!')
+            lo, hi = self.lo, self.hi
         else:
-            self.range(range)
-        if delta is not None:
-            self.delta = delta
-        else:  # *** Perhaps use a default delta (& warn if so)?
+            lo, hi = self._get_range(range)
+        if delta is None:  # *** Perhaps use a default delta (& warn if so)?
             if self.delta == None:
                 raise ValueError('Need a delta for varying parameter!')
-        self._set_status(varying)
-        # *** Can harm be done by setting status before verifying
-        # the start value?
-        if start != None:
-            self.set_value(start)  # Note: this will verify in range.
+            delta = self.delta
+        if start is not None:
+            value = start
         elif self._value == None:
             raise ValueError('Need a start value for varying parameter!')
+        else:
+            value = self._value
+        if not (value >= lo and value <= hi):
+            raise ParamRangeError("Value out of parameter's allowed range!")
+        self.lo, self.hi = lo, hi
+        self.bounded = 1
+        self.delta = delta
+        self._set_status(varying)
+        if start is not None:
+            self.set_value(start)
 
     def check(self, percent=1.):
         if self.status != varying:
-- 
2.43.0


From e32d32a2fb8a9d9aa6ac697793112dc4b48338b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:39 +0000
Subject: [PATCH 02/86] fix: step declarations verify their arguments first and
 default to the range

linstep/step/logstep documented optional limits but failed with a TypeError
when one was left out, accepted fewer than two steps, and a refused call left
the stepping definition half changed.
---
 package/inference/pie/realparam.py | 62 +++++++++++++++---------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index 484f3a7..aef10a2 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -122,24 +122,14 @@ class RealParamHandler(ScalarParamHandler):
     # *** Perhaps make these so a single (unnamed) arg -> set n over current range.
 
     def linstep(self, lo=None, hi=None, n=10):
-        """Step from lo to hi (inclusive) in n equal steps."""
-        if self.bounded and lo != None:
-            if lo < self.lo or lo > self.hi:
-                raise ParamRangeError("lo step out of parameter's allowed range!")
-        if self.bounded and hi != None:
-            if hi < self.lo or hi > self.hi:
-                raise ParamRangeError("hi step out of parameter's allowed range!")
+        """Step from lo to hi (inclusive) in n equal steps.  The limits default
+        to those of the parameter's allowed range."""
+        lo, hi = self._get_step_limits(lo, hi, n)
+        delta = (hi-lo)/(n-1.)
         self.stype = lin_steps
-        if lo is None:
-            self.slo = self.lo
-        else:
-            self.slo = lo
-        if hi is None:
-            self.shi = self.hi
-        else:
-            self.shi = hi
+        self.slo, self.shi = lo, hi
         self.steps = n
-        self.delta = (hi-lo)/(n-1.)
+        self.delta = delta
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
@@ -149,30 +139,38 @@ class RealParamHandler(ScalarParamHandler):
         self.linstep(lo, hi, n)
 
     def logstep(self, lo=None, hi=None, n=10):
-        """Step from lo to hi (inclusive) in n logarithmic steps."""
-        if self.bounded and lo != None:
-            if lo < self.lo or lo > self.hi:
-                raise ParamRangeError("lo step out of parameter's allowed range!")
-        if self.bounded and hi != None:
-            if hi < self.lo or hi > self.hi:
-                raise ParamRangeError("hi step out of parameter's allowed range!")
+        """Step from lo to hi (inclusive) in n logarithmic steps.  The limits
+        default to those of the parameter's allowed range."""
+        lo, hi = self._get_step_limits(lo, hi, n)
         if lo*hi <= 0.:
             raise ValueError('Illegal (lo,hi) for log stepping (need same sign)!')
+        fac = exp(log(hi/lo)/(n-1.))
         self.stype = log_steps
-        if lo:
-            self.slo = lo
-        else:
-            self.slo = self.lo
-        if hi:
-            self.shi = hi
-        else:
-            self.shi = self.hi
+        self.slo, self.shi = lo, hi
         self.steps = n
-        self.fac = exp(log(hi/lo)/(n-1.))
+        self.fac = fac
         self.step_num = 0
         self._set_value(lo)
         self._set_status(stepping)
 
+    def _get_step_limits(self, lo, hi, n):
+        """Return verified limits for stepping, using the parameter's range
+        for missing limits."""
+        if (lo is None or hi is None) and not self.bounded:
+            raise ValueError('Need a range for default step limits!')
+        if lo is None:
+            lo = self.lo
+        if hi is None:
+            hi = self.hi
+        if self.bounded:
+            if lo < self.lo or lo > self.hi:
+                raise ParamRangeError("lo step out of parameter's allowed range!")
+            if hi < self.lo or hi > self.hi:
+                raise ParamRangeError("hi step out of parameter's allowed range!")
+        if n < 2:
+            raise ValueError('Need at least 2 steps!')
+        return lo, hi
+
     def next_step(self):
         if self.status != stepping:
             raise ParamError('Parameter is not set to step!')
-- 
2.43.0


From cf4eb001c04cc43e7fff29d0c41d7199695a1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 03/86] fix: predictors accept a single array or list of data
 and multi-dimensional locations

set_data stored these forms in attributes that nothing reads, so they failed
with an AttributeError.
---
 package/inference/pie/gaussian.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3192bf1..482865b 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -255,9 +255,9 @@ class SampledGaussian(Predictor):
             all = args[0]
             try:
                 rows, cols = all.shape
-                self.locns = all[:,0]
-                self.vals = all[:,1]
-                self.sigmas = all[:,2]
+                self._locns = all[:,0]
+                self._vals = all[:,1]
+                self._sigmas = all[:,2]
             except AttributeError:
             # If *all* is not an array, treat it as a list.
             # Only the list format can handle >1-d locns using
@@ -268,9 +268,9 @@ class SampledGaussian(Predictor):
                     self._locns.append(row[0])
                     self._vals.append(row[1])
                     self._sigmas.append(row[2])
-                self._locns = array(self.locns)
-                self._vals = array(self.vals)
-                self._sigmas = array(self.sigmas)
+                self._locns = array(self._locns)
+                self._vals = array(self._vals)
+                self._sigmas = array(self._sigmas)
             except:
                 raise DataError('Bad data array format!')
                 # *** Should ndata, dimen be _ndata...?  Or eliminate _...?
@@ -279,6 +279,6 @@ class SampledGaussian(Predictor):
         if len(self._locns.shape) == 1:
             self.dimen = 1
         elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
+            self.dimen = self._locns.shape[1]
         else:
             raise DataError('Locations should be scalars or 1-d arrays!')
-- 
2.43.0


From c2cc73b040f9ee2bd06e609347bacb58bff2ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 04/86] fix: simulate with array arguments, zero locations and
 integer data

sim() and sim1() tested optional arguments by truth value (an error for
arrays, ignoring a zero location), did not update the number of data, kept
references to the caller's arrays, and sim1() truncated simulated values
when the original data were integers.
---
 package/inference/pie/gaussian.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 482865b..3e78413 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -38,13 +38,11 @@ class SampledGaussianHandler(PredictorHandler):
 	    than references to it (e.g., to the original data stored in class
 	    rather than instance variables).
 	    """
-        # Note this presumes the data have a copy method (as do numpy
-        # arrays).  For other data types we might need to use the copy
-        # or deepcopy modules.
+        # Copy as floats, since simulation may change them to non-integers.
         if self._using_globals:
-            self.locns = self.locns.copy()
-            self.vals = self.vals.copy()
-            self.sigmas = self.sigmas.copy()
+            self.locns = array(self.locns, float)
+            self.vals = array(self.vals, float)
+            self.sigmas = array(self.sigmas, float)
             self._using_globals = False
         
     def changing_data(self):
@@ -110,19 +108,20 @@ class SampledGaussianHandler(PredictorHandler):
         """
         self.changing_data()
         # Change the data locns/sigmas if necessary.
-        if locns and sigmas:
+        if locns is not None and sigmas is not None:
             if len(locns) != len(sigmas):
                 raise ValueError('locns/sigmas length mismatch!')
-            self.locns = locns
-            self.sigmas = sigmas
-        elif locns:
+            self.locns = array(locns, float)
+            self.sigmas = array(sigmas, float)
+            self.ndata = len(self.locns)
+        elif locns is not None:
             if len(locns) != self.ndata:
                 raise ValueError('Incorrect number of locns!')
-            self.locns = locns
-        elif sigmas:
+            self.locns = array(locns, float)
+        elif sigmas is not None:
             if len(sigmas) != self.ndata:
                 raise ValueError('Incorrect number of sigmas!')
-            self.sigmas = sigmas
+            self.sigmas = array(sigmas, float)
         self.get_prdxns()
         # Sample data via Gaussians.
         self.vals = self.prdxns + self.sigmas*stdnorm.rvs(self.ndata)
@@ -138,10 +137,10 @@ class SampledGaussianHandler(PredictorHandler):
         location and/or sigma for the datum.
         """
         self.changing_data()
-        if locn:
+        if locn is not None:
             # *** Verify locn dimension!
             self.locns[n] = locn
-        if sigma:
+        if sigma is not None:
             self.sigmas[n] = sigma
         self.get_prdxns()
         # Sample datum via Gaussian.
-- 
2.43.0


From 771c06f2582b325ee34fe54c3a7d9ecde81d0e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:59 +0000
Subject: [PATCH 05/86] fix: add_sim() simulates the additional data

It extended the locations and sigmas but never the values, counted the data
wrongly and ignored zero arguments.
---
 package/inference/pie/gaussian.py | 34 ++++++++++++++-----------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 3e78413..12aa1e6 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -156,28 +156,24 @@ class SampledGaussianHandler(PredictorHandler):
         If arrays are passed as locns & sigmas, simulate the appropriate
         mutiple additional data.
         """
+        if locn is not None and sigma is not None:
+            locns, sigmas = [locn], [sigma]
+        elif locns is None or sigmas is None:
+            raise ValueError('Need both locations and sigmas for additional data!')
+        elif len(locns) != len(sigmas):
+            raise ValueError('locns/sigmas length mismatch!')
         self.changing_data()
         # First adjust locns and sigmas.
-        if locn and sigma:
-            self.ndata += 1
-            self.locns = concatenate( (self.locns, (locn,)) )
-            self.sigmas = concatenate( (self.sigmas, (sigma,)) )
-        elif locns and sigmas:
-            if len(locns) != len(sigmas):
-                raise ValueError('locns/sigmas length mismatch!')
-            self.ndata += len(locns)
-            self.locns = concatenate( (self.locns, locns) )
-            self.sigmas = concatenate( (self.sigmas, sigmas) )
-        self.ndata += len(self.locns)
-        if len(self.locns.shape) == 1:
-            self.dimen = 1
-        elif len(self._locns.shape) == 2:
-            self.dimen = self.locns.shape[1]
-        else:
-            raise DataError('Locations should be scalars or 1-d arrays!')
-        # Update predictions.
+        nold = self.ndata
+        locns, sigmas = array(locns, float), array(sigmas, float)
+        self.locns = concatenate( (self.locns, locns) )
+        self.sigmas = concatenate( (self.sigmas, sigmas) )
+        self.ndata = len(self.locns)
+        # Update predictions, and sample the new data via Gaussians.
         self.get_prdxns()
-        
+        new = self.prdxns[nold:] + sigmas*stdnorm.rvs(len(sigmas))
+        self.vals = concatenate( (self.vals, new) )
+
 
 # *** Add method to restore to original (not simulated) data?
 # May have to allow explicit caching to define "original" data
-- 
2.43.0


From ae537763cd88bdf9e62f2bf58dcc4638205f3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:18 +0000
Subject: [PATCH 06/86] fix: a refused set_params() changes no parameter

It set the parameters listed before the first stepping or out-of-range one
and then failed.
---
 package/inference/pie/inference_base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 3e96ac2..7dbbab8 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -338,14 +338,20 @@ class Inference(HasAutoNamed):
         This is valid only if all params are either fixed or varying."""
         # *** Should this just skip stepped params rather than quit?
         # *** Should it check there are no "extras" in the passed pv?
+        # Verify all of them before setting any, so a failed call changes nothing.
+        for name in self.params:
+            param = getattr(self, name)
+            if param.status != fixed and param.status != varying:
+                raise ParamError('Use set_params only when params are fixed or varying!')
+            value = getattr(pv, name)
+            if param.bounded and not (value >= param.lo and value <= param.hi):
+                raise ParamRangeError("Value out of parameter's allowed range!")
         for name in self.params:
             param = getattr(self, name)
             if param.status == fixed:
                 param.fix(getattr(pv,name))
-            elif param.status == varying:
-                param.vary(getattr(pv,name))
             else:
-                raise ParamError('Use set_params only when params are fixed or varying!')
+                param.vary(getattr(pv,name))
 
     # *** Make versions of show*() that return strings.
 
-- 
2.43.0


From f3c6cbb2d58db19e8875f5291f2a8b5723c32adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:04 +0000
Subject: [PATCH 07/86] fix: bracketing a minimum ends where the function is
 flat

---
 package/inference/utils/nrmin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 7dbd9e2..de4f646 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -20,7 +20,8 @@ class MinBracket:
         self.x2 = self.xm + GOLD*(self.xm - self.x1)
         self.f2 = f(self.x2)
         while 1:
-            if (self.fm < self.f2):
+            # Stop also where f is flat or undefined, or the search never ends.
+            if not (self.fm > self.f2):
                 break
             d1 = (self.xm - self.x1)
             d2 = (self.xm - self.x2)
-- 
2.43.0


From 7d0e35d1047e74db24bbf7bed31ac859844ec843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:36 +0000
Subject: [PATCH 08/86] fix: a grid fit starts at the first grid point and
 ignores vargrid without varying parameters

---
 package/inference/pie/inference_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 7dbbab8..a0e06e4 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -427,6 +427,8 @@ class Inference(HasAutoNamed):
             vresults = VectorGrid(self.stepping_params, self.varying_params)
         opt_val = None
         nstep = 0
+        # The walk below covers the grid only from its first point.
+        self.reset_steps()
         # *** Put try/except around score/optimize so we can return a partial
         # grid if there is a failure after successful calculations.
         while True:
@@ -449,7 +451,6 @@ class Inference(HasAutoNamed):
                         if extremum < opt_val:
                             opt_val, opt_ind = extremum, ind
                 if vargrid:
-                    print(vresults.values[ind], param_vals)
                     if vdim == 1:
                         vresults.values[ind] = param_vals[0]
                     else:
@@ -469,7 +470,7 @@ class Inference(HasAutoNamed):
         if self.varying_params:
             results.opt_val = opt_val
             results.opt_ind = opt_ind
-        if vargrid:
+        if self.varying_params and vargrid:
             vresults.opt_ind = opt_ind
             return results, vresults
         else:
-- 
2.43.0


From f18bb90d61e35e47df5fd2407e1a9501ac939368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:01 +0000
Subject: [PATCH 09/86] fix: optimizing with mapped bounds returns the optimum,
 from any start, within the bounds

---
 package/inference/pie/inference_base.py | 20 +++++++++++---------
 package/inference/pie/realparam.py      | 21 ++++++++++-----------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index a0e06e4..d599c1d 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -505,15 +505,15 @@ class Inference(HasAutoNamed):
                 # Calculate delta for the unbounded version.
                 uv = param._unbounded_get_value()
                 v = param.get_value()
-                # We may need to try a step in both directions.
-                try:
-                    param.set_value(v+param.delta)
-                    uv2 = param._unbounded_get_value()
-                    d.append(uv2-uv)
-                except ParamRangeError:
-                    param.set_value(v-param.delta)
-                    uv2 = param._unbounded_get_value()
-                    d.append(uv-uv2)
+                # We may need to try a step in both directions; a step to
+                # a bound has no finite unbounded version.
+                for step in (param.delta, -param.delta):
+                    if param.lo < v+step < param.hi:
+                        param.set_value(v+step)
+                        d.append(param._unbounded_get_value()-uv)
+                        break
+                else:
+                    d.append(1. if uv <= 0. else -1.)
                 param.set_value(v)
                 p.append(uv)
         else:
@@ -535,6 +535,8 @@ class Inference(HasAutoNamed):
                                              ftol=1.e-3, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
+        # The last evaluation need not be the best one; put the params there.
+        self._score(params)
         if self.extremize == maximize:  # adjust for sign reversal
             extremum = -extremum
         if self.use_unbounded:  # Convert unbounded values back to normal.
diff --git a/package/inference/pie/realparam.py b/package/inference/pie/realparam.py
index aef10a2..2c28142 100644
--- a/package/inference/pie/realparam.py
+++ b/package/inference/pie/realparam.py
@@ -271,13 +271,12 @@ class RealParamHandler(ScalarParamHandler):
         if not self.bounded:
             raise ValueError('No bounds defined for parameter!')
         else:
-            # Handle roundoff error near boundaries.
-            # *** Make the constants platform-independent.
-            # if self._value <= self.lo:
-            # return -1.e-323
-            # elif self._value >= self.hi:
-            # return 1.e308
-            # else:
+            # The boundaries map to finite values beyond those of all
+            # values inside the range.
+            if self._value <= self.lo:
+                return -745.
+            elif self._value >= self.hi:
+                return 745.
             return log(self._value-self.lo) - log(self.hi-self._value)
 
     def _unbounded_set_value(self, uvalue):
@@ -296,10 +295,10 @@ class RealParamHandler(ScalarParamHandler):
                 else:
                     self._set_value(self.lo)
             else:
-                # Use _set_value, since this should be in range.  In fact,
-                # I've found just-barely out-of-range results (presumably due
-                # to roundoff at limits) that trigger exceptions using set_value.
-                self._set_value((self.lo + self.hi*expv)/(1. + expv))
+                # Use _set_value, since this should be in range; the limits
+                # keep roundoff from putting it just barely out of range.
+                value = self.lo + (self.hi-self.lo)*(expv/(1. + expv))
+                self._set_value(min(max(value, self.lo), self.hi))
 
     def show(self):
         """Return a string containing the name, value, and doc for the param."""
-- 
2.43.0


From b55cca4ee4daf4d031303954b897099e7785de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:02 +0000
Subject: [PATCH 10/86] fix: optimize() uses its tolerance

---
 package/inference/pie/inference_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index d599c1d..36bcd8e 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -495,6 +495,7 @@ class Inference(HasAutoNamed):
         if tol is None:
             if self.min_tol is None:
                 raise InferenceError('No minimization tolerance has been specified!')
+            tol = self.min_tol
         # Most methods require a vector of starting param values and
         # a scale for each; collect this info here (transformed if necessary).
         p, d = [], []
@@ -532,7 +533,7 @@ class Inference(HasAutoNamed):
             # subspace.
             dd = 0.2 * identity(len(d)) * array(d, float)
             params, extremum, extra = powell(self._score, params[:], drxns=dd,
-                                             ftol=1.e-3, maxit=200, shuffle=True)
+                                             ftol=tol, maxit=200, shuffle=True)
         else:
             raise InferenceError('Invalid minimization method specified!')
         # The last evaluation need not be the best one; put the params there.
-- 
2.43.0


From 4808ea60a9e7ebb14662c6f0d7aeb92a6f57b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:22 +0000
Subject: [PATCH 11/86] fix: powell() does not modify the caller's directions

---
 package/inference/utils/nrmin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index de4f646..cce4d7a 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -183,7 +183,7 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
     n = len(p)
     if drxns is None:
         drxns = identity(n)
-        drxns = array(drxns, float)
+    drxns = array(drxns, float)  # a copy; the caller's is not changed
     if shuffle:
         vec = drxns[0].copy()  # must copy!
         for i in range(n-1):
-- 
2.43.0


From 108ac4d6837467e2f673ee63e1657f08ad15502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:22 +0000
Subject: [PATCH 12/86] fix: obs_info() uses logp at the mode and puts the
 parameters back

---
 package/inference/pie/bayes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/pie/bayes.py b/package/inference/pie/bayes.py
index 07abfc2..d64b601 100644
--- a/package/inference/pie/bayes.py
+++ b/package/inference/pie/bayes.py
@@ -69,7 +69,7 @@ class BayesianInference(Inference):
         """
         # *** Expand docstring.
         # Treat the current state as the mode.
-        logp_max = self._log_like + self._log_prior
+        logp_max = self.score()
         mode = []
         for param in self.varying_params:
             mode.append(param.get_value())
@@ -82,9 +82,13 @@ class BayesianInference(Inference):
                 deltas.append(param.delta)
         else:
             deltas = steps
-        deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
-        # Use those step sizes for estimating the observed info matrix.
-        info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        try:
+            deltas = dllsteps(self._logp_func, mode, deltas, dlogp, logp_max)
+            # Use those step sizes for estimating the observed info matrix.
+            info, ierr = obsinfo(self._logp_func, mode, deltas, logp_max, niter=n)
+        finally:
+            # Put the parameters back at the mode.
+            self._logp_func(mode)
         if err:
             return info, ierr
         else:
-- 
2.43.0


From 6f9ffc75589214a7958565e14947b9f4eca8192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:23 +0000
Subject: [PATCH 13/86] fix: dllsteps() ends for flat or undefined functions
 and obsinfo/dllsteps leave the caller's arrays alone

---
 package/inference/deriv/_obsinfo.f | 6 +++++-
 package/inference/deriv/obsinfo.py | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/package/inference/deriv/_obsinfo.f b/package/inference/deriv/_obsinfo.f
index acfe4ee..5668db3 100644
--- a/package/inference/deriv/_obsinfo.f
+++ b/package/inference/deriv/_obsinfo.f
@@ -81,6 +81,10 @@ c            print *, 'guess: ', i, x0, x(i), fnew
             del = fmax - fnew
             if (del .le. 0.) then
                 s = 1.3 * s
+                if (s .gt. 1.d30) then
+                    status = 3
+                    return
+                endif
                 go to 10
             endif
             x(i) = x0 + s*dx(i) * sqrt(df/del)
@@ -99,7 +103,7 @@ c       write(9,'(i5,2(1pg12.4))') nit, x(i), fnew
                 status = 3
                 return
             endif
-            if (abs(fnew-f_c) .gt. tol) then
+            if (.not. (abs(fnew-f_c) .le. tol)) then
                 x(i) = x(i) + s*dx(i)
                 fp = f(n, x)
                 if (fp .gt. fmax) then
diff --git a/package/inference/deriv/obsinfo.py b/package/inference/deriv/obsinfo.py
index 74ab0b4..816b6ef 100644
--- a/package/inference/deriv/obsinfo.py
+++ b/package/inference/deriv/obsinfo.py
@@ -3,6 +3,8 @@ obsinfo - Tools for calculating the observed Fisher information matrix
 from log-likelihood functions.
 """
 
+from numpy import array
+
 from ._obsinfo import pk_scales, ninfol
 
 __all__ = ['dllsteps', 'obsinfo']
@@ -25,7 +27,9 @@ def dllsteps(loglike, mle, guess, dll=1., maxll=None, maxiter=20, tol=0.01):
     """
     if maxll is None:
         maxll = loglike(mle)
-    deltas, status = pk_scales(loglike, mle, maxll, dll, guess, maxiter, tol)
+    # The Fortran code moves the point and overwrites the guess; pass copies.
+    deltas, status = pk_scales(loglike, array(mle, float), maxll, dll,
+                               array(guess, float), maxiter, tol*dll)
     if status == 3:
         raise RuntimeError('Failed to converge in solving for dll scale!')
     elif status == 2:
@@ -66,4 +70,5 @@ def obsinfo(loglike, mle, deltas, maxll=None, niter=2):
     # to plain 2nd differences, with no extrapolation).
     if maxll is None:
         maxll = loglike(mle)
-    return ninfol(loglike, mle, maxll, deltas, niter+1)
+    # The Fortran code moves the point; pass a copy.
+    return ninfol(loglike, array(mle, float), maxll, deltas, niter+1)
-- 
2.43.0


From ae477394e606d90ed14fb3aed2b40da9e8d6fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:18 +0000
Subject: [PATCH 14/86] fix: powell() finds conjugate directions, so correlated
 fits converge

---
 package/inference/utils/nrmin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index cce4d7a..1082764 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -190,12 +190,13 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
             drxns[i] = drxns[i+1]
         drxns[-1] = vec
     fret = f(p)
-    p0 = p
     iter = 0
     while 1:
         iter = iter + 1
         # print('Powell', iter)
         fp = fret
+        # Moves are conjugate only if measured from the start of the iteration.
+        p0 = p
         ibig, delta = 0, 0.
         for i in range(n):
             vec = drxns[i]
@@ -212,7 +213,6 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
             print('Powell iteration', iter, fret)
         ptt = 2.*p - p0
         vec = p - p0
-        p0 = p
         fptt = f(ptt)
 #       print iter, tuple(ptt), fptt
         if fptt >= fp:
-- 
2.43.0


From 8028666052a0a89634f111d37a8d98d7f6b46593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:49 +0000
Subject: [PATCH 15/86] fix: powell() converges when the minimum is zero

---
 package/inference/utils/nrmin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/nrmin.py b/package/inference/utils/nrmin.py
index 1082764..67450e0 100644
--- a/package/inference/utils/nrmin.py
+++ b/package/inference/utils/nrmin.py
@@ -205,7 +205,8 @@ def powell(f, p, drxns=None, ftol=1.e-6, maxit=200, nlog=None, shuffle=False):
             if abs(fptt-fret) > delta:
                 delta = abs(fptt-fret)
                 ibig = i
-        if 2.*abs(fp-fret) <= ftol*(abs(fp)+abs(fret)):
+        # The constant ends the search when the minimum is zero.
+        if 2.*abs(fp-fret) <= ftol*(abs(fp)+abs(fret)) + 1.e-20:
             return (p, fret, iter)
         if iter == maxit:
             raise IterErr('Too many iterations!')
-- 
2.43.0


From 0fc639ebc7218626741465815c084e125df1076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:48 +0000
Subject: [PATCH 16/86] fix: parameter and predictor names do not depend on
 source layout, and subclassing does not change base classes

---
 package/inference/pie/inference_base.py | 108 ++++--------------------
 package/inference/pie/param.py          |  11 +--
 package/inference/pie/predictor.py      |   9 +-
 3 files changed, 26 insertions(+), 102 deletions(-)

diff --git a/package/inference/pie/inference_base.py b/package/inference/pie/inference_base.py
index 36bcd8e..297a996 100644
--- a/package/inference/pie/inference_base.py
+++ b/package/inference/pie/inference_base.py
@@ -2,8 +2,6 @@
 Utilities and base class for inferences.
 """
 
-import inspect
-
 from .param import *
 from .autoname import HasAutoNamed
 from .signalmodel import SignalModel, StopStepping
@@ -85,105 +83,29 @@ class Inference(HasAutoNamed):
         # *** Provide hooks for storing state or calculating candidate state
         # before storing it, to facilitate MCMC.
 
-        # Reorder the param names associated with this inference to reflect
-        # the order in the source code (the metaclass will order them in a
-        # shuffled order, the order of keys in the class dict).
+        # Collect the names of the params associated with this inference; the
+        # metaclass keeps them in the order of definition.
         # First, get the SignalModel and Predictors mixin classes.
-        for cls in self.__class__.__bases__:
-            if SignalModel in cls.__bases__:
-                self.signal_class = cls
-            elif PredictorSet in cls.__bases__:
-                self.pred_class = cls
-        # Get the names of params and predictors from the mixins.
-        # Get them from source if available, to preserve the order
-        # in which the user defined them.
+        self.signal_class = self._get_mixin(SignalModel)
+        self.pred_class = self._get_mixin(PredictorSet)
         # Be careful gathering params; the PredictorSet mixin class
         # may have params.
-        try:
-            unordered = self.signal_class.param_names[:]
-            self.params = self._get_signal_names(unordered)
-        except:
-            self.params = []
-        try:
-            unordered = self.pred_class.param_names[:]
-        except:
-            unordered = []
-        oparams, self.predictors = self._get_pred_names(unordered)
-        self.params.extend(oparams)
+        self.params = list(getattr(self.signal_class, 'param_names', []))
+        self.params.extend(getattr(self.pred_class, 'param_names', []))
+        self.predictors = list(getattr(self.pred_class, 'predictor_names', []))
         # Make sure params are unique; i.e., that the Predictors class
         # hasn't duplicated a param name.
         if len(set(self.params)) != len(self.params):
             raise InferenceError('A parameter name is duplicated within this inference!')
 
-    def _get_signal_names(self, signal_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.signal_class)[0]
-            for line in source:
-                line = line.strip()
-                for param in signal_params:
-                    # *** Use a regexp here to match any white space b/4 '='.
-                    if line.startswith(param+' =') or line.startswith(param+'='):
-                        oparams.append(param)
-                        signal_params.remove(param)
-            if signal_params != []:
-                raise InferenceError('Some params not defined in SignalModel source!')
-        except IOError:  # Only in the unlikely event of interactive model def'n
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            oparams = self.signal_class.param_names
-        except TypeError:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate SignalModel source; proceeding with unordered params.')
-            print('(Note: This may be due to a bug in inspect.py)')
-            oparams = self.signal_class.param_names
-        return oparams
-
-    def _get_pred_names(self, pred_params):
-        """Use the source for the SignalModel and Predictors mixins to
-        fix the order of param and predictor names.  If source is
-        unavailable, just grab the names from the mixin class dicts."""
-        # Be careful gathering params; the Predictors mixin class
-        # may have params.
-        oparams = []
-        try:
-            source = inspect.getsourcelines(self.pred_class)[0]
-            if pred_params:
-                for line in source:
-                    line = line.strip()
-                    for param in pred_params:
-                        if line.startswith(param+' =') or line.startswith(param+'='):
-                            oparams.append(param)
-                            pred_params.remove(param)
-                if pred_params != []:
-                    raise InferenceError('Some params not defined in Predictors source!')
-            # Now do the same to get the Predictor order.
-            opreds = []
-            preds = self.pred_class.predictor_names[:]
-            for line in source:
-                line = line.strip()
-                for pred in preds:
-                    if line.startswith(pred+' =') or line.startswith(pred+'='):
-                        opreds.append(pred)
-                        preds.remove(pred)
-            if preds != []:
-                raise InferenceError('Some Predictor(s) not defined in Predictors source!')
-        except IOError:  # Only in the unlikely event of interactive pred. def'n
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        except:  # This is needed due to an apparent bug in inspect (failure can raise TypeError).
-            print('Could not locate PredictorSet source; proceeding with unordered params.')
-            oparams.extend(self.pred_class.param_names)
-            opreds = self.pred_class.predictor_names
-        return oparams, opreds
-        # Make sure params are unique; i.e., that the Predictors class
-        # hasn't duplicated a param name.
-        if len(set(self.params)) != len(self.params):
-            raise InferenceError('A parameter name is duplicated within this inference!')
+    def _get_mixin(self, base):
+        """Return the class derived from base that is mixed in with this
+        inference (or None)."""
+        for cls in self.__class__.__mro__:
+            if issubclass(cls, base) and cls is not base \
+               and not issubclass(cls, Inference):
+                return cls
+        return None
 
     def _on_param_status_change(self, param, old, new):
         """Maintain lists of fixed, varying, and stepping variables. Initialize
diff --git a/package/inference/pie/param.py b/package/inference/pie/param.py
index f8a3113..5e79763 100644
--- a/package/inference/pie/param.py
+++ b/package/inference/pie/param.py
@@ -84,11 +84,12 @@ class Param(AutoNamed):
         self.name = name
         self.value_name = '__' + name + '_val'
         self.handler_name = '__' + name + '_hndlr'
-        # Keep a list of param names in the class dict.
-        try:
+        # Keep a list of param names in the class dict; start it with the
+        # names of a base class, without changing the base class's list.
+        if 'param_names' not in cls.__dict__:
+            cls.param_names = list(getattr(cls, 'param_names', []))
+        if name not in cls.param_names:
             cls.param_names.append(name)
-        except AttributeError:
-            cls.param_names = [name]
 
     def __get__(self, inst, owner):
         # On access (via an Inference instance), the arguments will be:
@@ -164,7 +165,7 @@ class ParamHandler(object):
 
     def del_listener(self, listener):
         try:
-            self.listener.remove(listener)
+            self.listeners.remove(listener)
         except ValueError:
             pass
 
diff --git a/package/inference/pie/predictor.py b/package/inference/pie/predictor.py
index be542d3..ed957e0 100644
--- a/package/inference/pie/predictor.py
+++ b/package/inference/pie/predictor.py
@@ -58,11 +58,12 @@ class Predictor(AutoNamed):
         pielog.debug('Predictor instance in %s is named %s', cls, name)
         self.name = name
         self.handler_name = '__' + name + '_hndlr'
-        # Keep a list of predictor names in the class dict.
-        try:
+        # Keep a list of predictor names in the class dict; start it with the
+        # names of a base class, without changing the base class's list.
+        if 'predictor_names' not in cls.__dict__:
+            cls.predictor_names = list(getattr(cls, 'predictor_names', []))
+        if name not in cls.predictor_names:
             cls.predictor_names.append(name)
-        except AttributeError:
-            cls.predictor_names = [name]
 
     def clone(self):
         # ??? Can this be abstracted here?
-- 
2.43.0


From 142edd00ced5c3f5b7a06d11f9afb1ed96d0c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:18 +0000
Subject: [PATCH 17/86] fix: zbracket() recognizes brackets with tiny values
 and after the last expansion

---
 package/inference/utils/numutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index 71340db..cd43ac7 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -193,7 +193,7 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
     tries = 0
     while tries < maxtries:
         tries += 1
-        if f1*f2 < 0.:
+        if f1 < 0. < f2 or f2 < 0. < f1:  # the product may underflow
             return x1, x2
         if abs(f1) < abs(f2):
             x1 += expand*(x1-x2)
@@ -207,6 +207,8 @@ def zbracket(func, x1, x2, vals=None, args=None, maxtries=50, expand=1.6):
                 f2 = func(*(x2,)+args)
             else:
                 f2 = func(x2)
+    if f1 < 0. < f2 or f2 < 0. < f1:
+        return x1, x2
     # We only make it here if bracketing failed.
     raise RuntimeError('Zero bracketing failed!')
 
-- 
2.43.0


From fdaf021804a3be5d21ab2f4840dc3750b4ad927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:18 +0000
Subject: [PATCH 18/86] fix: LogSummer gives no NaN spread for equal values

---
 package/inference/utils/numutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/numutils.py b/package/inference/utils/numutils.py
index cd43ac7..7637fc4 100644
--- a/package/inference/utils/numutils.py
+++ b/package/inference/utils/numutils.py
@@ -140,7 +140,7 @@ class LogSummer:
         lmean = self.logSum - ln
         if self.dosig:
             l2 = self.sigSum - ln
-            dif = 2*lmean - l2
+            dif = min(2*lmean - l2, 0.)	# It can be > 0 only by roundoff.
             lsig = 0.5*l2
             if dif > -40:	# Otherwise the (-mean**2) part is below roundoff.
                 lsig += 0.5*log(1. - exp(dif))
-- 
2.43.0


From 216c2b35737caf99b56c090088206f16eb90c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 19/86] fix: stores opened by a name with its suffix load the
 archive

---
 package/inference/utils/ioutils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index ea9e41b..3741c8b 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,7 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-                self._npz = load(fname)
+            self._npz = load(fname)
         else:
             self._npz = None
         self._fname = fname
@@ -239,9 +239,9 @@ class AttrStore(object):
         if fname:
             if not fname.endswith('.pkl'):
                 fname = fname + '.pkl'
-                ifile = open(fname, 'rb')
-                self._archive = pkl.load(ifile)
-                ifile.close()
+            ifile = open(fname, 'rb')
+            self._archive = pkl.load(ifile)
+            ifile.close()
         else:
             self._archive = None
         self._fname = fname
-- 
2.43.0


From 01dde13291b64ce21213408c48567578586581fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 20/86] fix: contents() lists each name of a store once

---
 package/inference/utils/ioutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 3741c8b..0cdcdb2 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -201,7 +201,7 @@ class ArrayStore(object):
         names = []
         if self._npz:
             names.extend(self._npz.files)  # archive file names will be array names
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
@@ -335,7 +335,7 @@ class AttrStore(object):
         names = []
         if self._archive:
             names.extend(list(self._archive.keys()))
-        names.extend(list(self._new.values()))
+        names.extend([name for name in self._new if name not in names])
         return names
 
 
-- 
2.43.0


From d3ba9628430827b87fee315a28f4bf2e8d5c8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 21/86] fix: an ArrayStore reads back the object arrays it
 saved

---
 package/inference/utils/ioutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index 0cdcdb2..df5ce8d 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -109,7 +109,8 @@ class ArrayStore(object):
         if fname:
             if not fname.endswith('.npz'):
                 fname = fname + '.npz'
-            self._npz = load(fname)
+            # Arrays of objects are archived as pickles.
+            self._npz = load(fname, allow_pickle=True)
         else:
             self._npz = None
         self._fname = fname
-- 
2.43.0


From f4eb5cd72ec1dd2765cbff8184a63c03c1809ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 22/86] fix: a save that fails does not use up the backups

---
 package/inference/utils/ioutils.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index df5ce8d..e231601 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -1,5 +1,6 @@
 import os
 import os.path as path
+from io import BytesIO
 import pickle as pkl
 from numpy import ndarray, savez, load
 
@@ -151,6 +152,8 @@ class ArrayStore(object):
         # reassigned value.
         if name.startswith('_'):
             object.__setattr__(self, name, value)
+        elif name == 'file':  # savez has an argument with this name
+            raise ValueError("An array named 'file' cannot be stored!")
         elif isinstance(value, ndarray):
             self._new[name] = value
             object.__setattr__(self, name, value)
@@ -190,9 +193,13 @@ class ArrayStore(object):
                     arrays[name] = self._npz[name]
         for name, val in list(self._new.items()):
             arrays[name] = val
-        # Backup any existing file, and save the arrays to a new file.
-        backup(fname)
-        savez(fname, **arrays)
+        # Backup any existing file, and save the arrays to a new file; do
+        # this only once we know they can be saved.
+        data = BytesIO()
+        savez(data, **arrays)
+        ofile = safe_open(fname, 'b')
+        ofile.write(data.getvalue())
+        ofile.close()
 
     def contents(self):
         """
@@ -323,9 +330,11 @@ class AttrStore(object):
                     attrs[name] = self._archive[name]
         for name, val in list(self._new.items()):
             attrs[name] = val
-        # Backup any existing file, and save the attrs to a new file.
+        # Backup any existing file, and save the attrs to a new file; do
+        # this only once we know they can be saved.
+        data = pkl.dumps(attrs, -1)  # use highest protocol
         ofile = safe_open(fname, 'b')
-        pkl.dump(attrs, ofile, -1)  # use highest protocol
+        ofile.write(data)
         ofile.close()
 
     def contents(self):
-- 
2.43.0


From 6a98d10a22f748d45265620a045ebf218585096f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 23/86] fix: safe_open() passes keyword arguments to the opener

---
 package/inference/utils/ioutils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index e231601..a29c5e8 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -34,10 +34,7 @@ def safe_open(fname, binary=False, opener=None, *args, **kwds):
     """
     backup(fname)
     if opener:
-        if args:
-            fobj = opener(fname, *args, **kwds)
-        else:
-            fobj = opener(fname)
+        fobj = opener(fname, *args, **kwds)
     else:
         if binary is True or binary == 'b':
             fobj = open(fname, 'wb')
-- 
2.43.0


From 9c04642001c9e0ed9588c735046e538ca16ea6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 24/86] fix: read_column_vectors() returns arrays

---
 package/inference/utils/ioutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/utils/ioutils.py b/package/inference/utils/ioutils.py
index a29c5e8..7f1fb20 100644
--- a/package/inference/utils/ioutils.py
+++ b/package/inference/utils/ioutils.py
@@ -2,7 +2,7 @@ import os
 import os.path as path
 from io import BytesIO
 import pickle as pkl
-from numpy import ndarray, savez, load
+from numpy import array, ndarray, savez, load
 
 __all__ = ['backup', 'safe_open', 'ArrayStore', 'AttrStore']
 
-- 
2.43.0


From d6dd08fc9cfe392a4a6221372348f26ef8a4a1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 25/86] fix: the RNG state is saved completely, in binary files

---
 package/inference/utils/rng.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/rng.py b/package/inference/utils/rng.py
index 80d1e94..8c4a341 100644
--- a/package/inference/utils/rng.py
+++ b/package/inference/utils/rng.py
@@ -15,7 +15,8 @@ def save_rng(fname='.numpy-rng-state'):
     """
     state = random.get_state()
     if state[0] == MT_id:
-        id, state = state[0], (state[1], state[2]) # (ID, (key, pos)) for MT
+        # (ID, (key, pos, has_gauss, cached_gaussian)) for MT
+        id, state = state[0], state[1:]
     else:
         raise RuntimeError('numpy.random using unrecognized RNG type!')
     if path.exists(fname):
@@ -24,7 +25,7 @@ def save_rng(fname='.numpy-rng-state'):
             fname2 = fname + '.2'
             os.rename(fname1, fname2)
         os.rename(fname, fname1)
-    ofile = open(fname, 'w')
+    ofile = open(fname, 'wb')
     pickle.dump((id, state), ofile)
     ofile.close()
     
@@ -35,7 +36,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
     The default file name is '.numpy-rng-state'.
     """
     if os.access(fname, os.R_OK | os.W_OK):
-        rng_file = open(fname, 'r')
+        rng_file = open(fname, 'rb')
         id, state = pickle.load(rng_file)
         rng_file.close()
         if id == MT_id:
@@ -43,7 +44,7 @@ def restore_rng(fname='.numpy-rng-state', notify=True):
             if notify:
                 print('Recovered RNG state:  %s [%s %s ...] %i' %\
             	    (id, repr(state[0][0]), repr(state[0][1]), state[1]))
-            random.set_state((id, state[0], state[1]))
+            random.set_state((id,) + tuple(state))
         else:
             raise ValueError('Invalid ID for RNG in %s!' % fname)
     else:
-- 
2.43.0


From 6bd763dfb774dc11d4b8d83b30fd44546d895076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 26/86] fix: the normalization of a gridded pdf includes
 intervals where it is flat at its minimum

---
 package/inference/grid/hpd.py     | 8 ++++----
 package/inference/grid/hpdgrid.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c783d9f..0978710 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -127,8 +127,8 @@ class HPD1D(object):
         if not self.linstep:
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
-        # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        # Find the overall normalization for spdf; all values are > -1.
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -242,8 +242,8 @@ class HPD2D(object):
         if not self.ylinstep:
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
-        # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        # Find the overall normalization for spdf; all values are > -1.
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 5a4338c..d030ef7 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -136,8 +136,8 @@ class HPDGrid1D(object):
         if not self.linstep:
             for i, x in enumerate(self.xvals):
                 self.spdf[i] = self.spdf[i]*x
-        # Find the overall normalization for spdf.
-        self.snorm = qgt1d(self.spdf, self.spdf.min())*self.dx
+        # Find the overall normalization for spdf; all values are > -1.
+        self.snorm = qgt1d(self.spdf, -1.)*self.dx
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.snorm) + self.max
         self.probs = []
@@ -260,8 +260,8 @@ class HPDGrid2D(object):
         if not self.ylinstep:
             for j, y in enumerate(self.yvals):
                 self.spdf[:,j] = self.spdf[:,j]*y
-        # Find the overall normalization for spdf.
-        self.norm = qgt2d(self.spdf, self.spdf.min())*self.dx*self.dy
+        # Find the overall normalization for spdf; all values are > -1.
+        self.norm = qgt2d(self.spdf, -1.)*self.dx*self.dy
         # lml is the log marginal likelihood if logpdf = prior*like.
         self.lml = log(self.norm) + self.max
         self.probs = []
-- 
2.43.0


From c1aa095f54087a26b03f1f31d54060724725f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 27/86] fix: critical levels are found for truncated and nearly
 flat pdfs

---
 package/inference/grid/hpd.py     | 16 ++++++++++++++--
 package/inference/grid/hpdgrid.py | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index 0978710..c9232a4 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -169,7 +169,13 @@ class HPD1D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        try:
+            lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        except RuntimeError:
+            # The pdf is far from normal (e.g., truncated); bracket with its
+            # whole range, over which the fraction falls from 1 to 0.
+            lr1 = log(self.spdf[self.spdf > 0.].min()) - 50.
+            lr2 = log(self.spdf.max()) + 1.
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
@@ -275,7 +281,13 @@ class HPD2D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        try:
+            lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        except RuntimeError:
+            # The pdf is far from normal (e.g., truncated); bracket with its
+            # whole range, over which the fraction falls from 1 to 0.
+            lr1 = log(self.spdf[self.spdf > 0.].min()) - 50.
+            lr2 = log(self.spdf.max()) + 1.
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index d030ef7..07d0fde 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -179,7 +179,13 @@ class HPDGrid1D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        try:
+            lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        except RuntimeError:
+            # The pdf is far from normal (e.g., truncated); bracket with its
+            # whole range, over which the fraction falls from 1 to 0.
+            lr1 = log(self.spdf[self.spdf > 0.].min()) - 50.
+            lr2 = log(self.spdf.max()) + 1.
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
@@ -293,7 +299,13 @@ class HPDGrid2D(object):
         lr2 = lr1 - 0.1
         # print 'Guesses:', lr1, lr2
         self._target = p
-        lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        try:
+            lr1, lr2 = zbracket(self._diff, lr1, lr2)
+        except RuntimeError:
+            # The pdf is far from normal (e.g., truncated); bracket with its
+            # whole range, over which the fraction falls from 1 to 0.
+            lr1 = log(self.spdf[self.spdf > 0.].min()) - 50.
+            lr2 = log(self.spdf.max()) + 1.
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-- 
2.43.0


From 649a20a373c7b3bb3c94ed6109ab3da0bbef97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 28/86] fix: region bounds at grid values are found, and too
 many of them do not overrun the array

---
 package/inference/grid/_gridquad.f | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/_gridquad.f b/package/inference/grid/_gridquad.f
index 94366de..d99ad26 100644
--- a/package/inference/grid/_gridquad.f
+++ b/package/inference/grid/_gridquad.f
@@ -100,11 +100,15 @@ cf2py intent(out) xvals, nx, ok
 	ok = .true.
 	nx = 0
 	do 20 i=1, n-1
-	    if (yarr(i) .lt. ycrit .and. yarr(i+1) .gt. ycrit) then
+	    if (yarr(i) .le. ycrit .and. yarr(i+1) .gt. ycrit) then
 	        nx = nx + 1
+	        if (nx .gt. nxvmax) then
+	            ok = .false.
+	            return
+	        endif
 	        xvals(nx) = xarr(i) + (xarr(i+1)-xarr(i)) *
      *            (ycrit - yarr(i)) / (yarr(i+1) - yarr(i))
-	    else if (yarr(i+1) .lt. ycrit .and. yarr(i) .gt. ycrit) then
+	    else if (yarr(i+1) .le. ycrit .and. yarr(i) .gt. ycrit) then
 	        nx = nx + 1
 	        if (nx .gt. nxvmax) then
 	            ok = .false.
-- 
2.43.0


From 15446c04116411a56f64a07812f31c04204a83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 29/86] fix: region bounds on logarithmic grids are those of
 p(log x), and finite next to zero density

---
 package/inference/grid/hpd.py     | 14 ++++++++++----
 package/inference/grid/hpdgrid.py | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index c9232a4..bf52883 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -179,14 +179,20 @@ class HPD1D(object):
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-        self.probs.append(p)
-        self.deltas.append(logratio)
-        self.levels.append(self.max+logratio)
+        # For log steps, the level is for p(log x).  Zero density has no finite
+        # log to interpolate.
+        logpdf = self.logpdf - self.max
+        if not self.linstep:
+            logpdf = logpdf + log(self.xvals)
+        logpdf = logpdf.clip(min=-1.e300)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, logpdf, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
+        self.probs.append(p)
+        self.deltas.append(logratio)
+        self.levels.append(self.max+logratio)
         self.bounds.append(bounds)
         return logratio, bounds
 
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 07d0fde..e8145df 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -189,14 +189,20 @@ class HPDGrid1D(object):
         # print 'Bracket:', lr1, lr2
         logratio = float(brentq(self._diff, lr1, lr2, xtol=tol))
         # print repr(logratio)
-        self.probs.append(p)
-        self.deltas.append(logratio)
-        self.levels.append(self.max+logratio)
+        # For log steps, the level is for p(log x).  Zero density has no finite
+        # log to interpolate.
+        logpdf = self.logpdf - self.max
+        if not self.linstep:
+            logpdf = logpdf + log(self.xvals)
+        logpdf = logpdf.clip(min=-1.e300)
         # 10 is the max # boundaries; it should handle pretty bumpy PDFs!
-        bounds, nb, ok = xvalues(self.xvals, self.logpdf-self.max, logratio, 10)
+        bounds, nb, ok = xvalues(self.xvals, logpdf, logratio, 10)
         if not ok:
             raise RuntimeError('Too many boundary points in PDF!')
         bounds = bounds[:nb]
+        self.probs.append(p)
+        self.deltas.append(logratio)
+        self.levels.append(self.max+logratio)
         self.bounds.append(bounds)
         return logratio, bounds
 
-- 
2.43.0


From f007c4531aa94996713d9075f6a94d486a23ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 30/86] fix: HPD2D keeps its upper y limit

---
 package/inference/grid/hpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index bf52883..add3750 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -233,7 +233,7 @@ class HPD2D(object):
             self.dx = log(xhi/xlo)/(self.nx-1)
         else:
             raise ValueError('Invalid xstep type!')
-        self.ylo, selfyxhi = ylo, yhi
+        self.ylo, self.yhi = ylo, yhi
         self.ny = logpdf.shape[1]
         if ystep == 'linear' or ystep == 'lin':
             self.ylinstep = True
-- 
2.43.0


From 886e9c42c6b20e4cc04c6f29369fd9bd568017ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:21 +0000
Subject: [PATCH 31/86] fix: the density bounding a region of a normal depends
 on the number of sigmas only

---
 package/inference/grid/hpd.py     | 6 +++---
 package/inference/grid/hpdgrid.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/hpd.py b/package/inference/grid/hpd.py
index add3750..4b15c13 100644
--- a/package/inference/grid/hpd.py
+++ b/package/inference/grid/hpd.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPD1D(object):
diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index e8145df..7f9cd0d 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -52,7 +52,7 @@ def prob2dens(nd, p):
     The n-dim normal PDF density bounding an HPD credible region of content p.
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)/rt2pi**nd
+    return exp(-0.5 * nsig**2)/rt2pi**nd
 
 
 def prob2ratio(nd, p):
@@ -61,7 +61,7 @@ def prob2ratio(nd, p):
     of content p (relative to the peak density).
     """
     nsig = prob2sig(nd, p)
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 def sig2ratio(nd, nsig):
@@ -69,7 +69,7 @@ def sig2ratio(nd, nsig):
     The relative normal PDF density bounding an HPD credible region
     spanning nsig std deviations (relative to the peak density).
     """
-    return exp(-0.5*nd * nsig**2)
+    return exp(-0.5 * nsig**2)
 
 
 class HPDGrid1D(object):
-- 
2.43.0


From ac5ed949ac125ac2744a965064bf24750390ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 32/86] fix: a LabeledMaxList honors a dynamic range of 1,
 deletes items and limits an empty list

---
 package/inference/grid/grid1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 39f8fe7..48b56df 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -67,7 +67,7 @@ class LabeledMaxList:
     def __setitem__(self, n, val):
         self.list[n] = val
 
-    def __delitem__(self, n, val):
+    def __delitem__(self, n):
         del self.list[n]
 
     def __repr__(self):
@@ -99,7 +99,7 @@ class LabeledMaxList:
                 del self.list[self.nmax]
 
         # Check the dynamic range spanned by list members if necessary.
-        if self.dynrange:
+        if self.dynrange is not None:
             top = self.list[0][0]
             i = lo        # We must start at lo in case we inserted at the end.
             while i < len(self.list):
@@ -113,6 +113,8 @@ class LabeledMaxList:
         range.  This presumes the elements are the *logarithms* of the
         quantity of interest."""
 
+        if not self.list:
+            return
         logrange = log(dynrange)
         top = self.list[0][0]
         i = 1
-- 
2.43.0


From 931e6d65747b20df21fb5489e9a7418a940c473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 33/86] fix: refined interval lists keep their type and ends,
 and do not split at roundoff

---
 package/inference/grid/grid1d.py | 63 +++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 22 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 48b56df..10c2bc6 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -165,16 +165,28 @@ class BasicInterval:
 
         if self.isLin:
             i = int(floor((x-self.lo)/self.step))
-            l = self.lo + i*self.step
-            h = l + self.step
         else:
             i = int(floor(log(x/self.lo)/self.step))
-            l = self.lo * exp(i*self.step)
-            h = l * self.fac
-        if (i == self.n-1):
-            h = l
+        # Only hi itself is at the last point; roundoff must not put
+        # other values there, or below the first point.
+        if x < self.hi:
+            i = max(min(i, self.n-2), 0)
+        else:
+            i = self.n-1
+        l = self.point(i)
+        h = self.point(min(i+1, self.n-1))
         return (i, l, h)
 
+    def point(self, i):
+        """Return sample point i, avoiding roundoff error at the endpoint."""
+
+        if i == self.n-1:
+            return self.hi
+        elif self.isLin:
+            return self.lo + i*self.step
+        else:
+            return self.lo * exp(i*self.step)
+
     def resample(self, n):
         """Change the # of samples in the interval."""
 
@@ -183,6 +195,7 @@ class BasicInterval:
             self.step = (self.hi-self.lo) / (n-1.)
         else:
             self.step = log(self.hi/self.lo) / (n-1.)
+            self.fac = exp(self.step)
 
 
 ################################################################################
@@ -218,6 +231,7 @@ class RefinedIntervalList1D:
                 raise ValueError("Zero boundary for log interval!")
         else:
             raise ValueError("Interval stype must be Lin or Log!")
+        self.stype = stype
         self.base = BasicInterval(self.lo, self.hi, n, stype=stype)
 
         # Initialize the list with the base interval.
@@ -256,6 +270,11 @@ class RefinedIntervalList1D:
         self.ilist.insert(i, intvl)
         self.nint = self.nint + 1
 
+    def _interval(self, lo, hi, n):
+        """Make an interval sampled the same way (linear/log) as the base."""
+
+        return BasicInterval(lo, hi, n, stype=self.stype)
+
 #*** There could be an inconsistency from ignoring isPos...
     def _stepSize(self, lo, hi, n):
         """Calculate the step size for a candidate inserted interval."""
@@ -270,9 +289,11 @@ class RefinedIntervalList1D:
         """Calculate the step size for a candidate inserted interval."""
 
         if self.isLin:
-            return int(ceil((hi-lo)/step)) + 1
+            r = (hi-lo)/step
         else:
-            return int(ceil(log(hi/lo)/step)) + 1
+            r = log(hi/lo)/step
+        # Don't let roundoff add a point.
+        return max(int(ceil(r - 1.e-9*max(r, 1.))), 1) + 1
 
     def update(self, lo, hi, n):
         """Update the interval list to include a new interval."""
@@ -283,8 +304,7 @@ class RefinedIntervalList1D:
             lo = max(lo, self.lo)
             hi = min(hi, self.hi)
         else:
-            lo = max(hi, self.lo)
-            hi = min(lo, self.hi)
+            lo, hi = max(hi, self.lo), min(lo, self.hi)
         if hi <= lo:
             raise ValueError("Interval does not overlap base interval!")
 
@@ -308,11 +328,10 @@ class RefinedIntervalList1D:
         lo_int = int_lo.locate(lo)
         lo = lo_int[1]
         hi_int = int_hi.locate(hi)  # returns (i, lo, hi) of grid point pair
-        if hi != hi_int[1]:  # if not lo, it's within the grid space; set to hi
+        if hi != hi_int[1] or hi_int[1] <= lo:  # if not lo, it's within the grid space; set to hi
             hi = hi_int[2]
-        # Test if resolved.  Use lo_int rather than hi_int, because if
-        # hi happens to hit an endpoint, hi_int's lo == its hi.
-        if 5*step > (lo_int[2]-lo_int[1]):  # resolved
+        # Test if resolved by the samples at lo.
+        if 5*step > int_lo.step:  # resolved
             n = self._numPts(lo, hi, step)
         step = self._stepSize(lo, hi, n)
 
@@ -325,12 +344,12 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, self._interval(int_lo.lo, lo, m))
                 nlo = nlo + 1
-            self._insert(nlo, BasicInterval(lo, hi, n))
+            self._insert(nlo, self._interval(lo, hi, n))
             if int_lo.hi > hi:
                 m = self._numPts(hi, int_lo.hi, int_lo.step)
-                self._insert(nlo+1, BasicInterval(hi, int_lo.hi, m))
+                self._insert(nlo+1, self._interval(hi, int_lo.hi, m))
             self.merge()
             return
 
@@ -340,19 +359,19 @@ class RefinedIntervalList1D:
             self._del(nlo)
             if lo > int_lo.lo:
                 m = self._numPts(int_lo.lo, lo, int_lo.step)
-                self._insert(nlo, BasicInterval(int_lo.lo, lo, m))
+                self._insert(nlo, self._interval(int_lo.lo, lo, m))
                 nlo = nlo + 1
                 nhi = nhi + 1        # Shift nhi since we're adding an intvl.
             m = self._numPts(lo, int_lo.hi, step)
-            self._insert(nlo, BasicInterval(lo, int_lo.hi, m))
+            self._insert(nlo, self._interval(lo, int_lo.hi, m))
             nlo = nlo + 1
         if step < int_hi.step:
             self._del(nhi)
             m = self._numPts(int_hi.lo, hi, step)
-            self._insert(nhi, BasicInterval(int_hi.lo, hi, m))
+            self._insert(nhi, self._interval(int_hi.lo, hi, m))
             if int_hi.hi > hi:
                 m = self._numPts(hi, int_hi.hi, int_hi.step)
-                self._insert(nhi+1, BasicInterval(hi, int_hi.hi, m))
+                self._insert(nhi+1, self._interval(hi, int_hi.hi, m))
                 # We needn't update nhi here since range won't include it.
         for i in range(nlo, nhi):
             if self.ilist[i].step > step:
@@ -383,7 +402,7 @@ class RefinedIntervalList1D:
                 n = self.ilist[i].n + self.ilist[i+1].n - 1
                 self._del(i)
                 self._del(i)
-                self._insert(i, BasicInterval(lo, hi, n))
+                self._insert(i, self._interval(lo, hi, n))
                 self.cumpts[i] = self.cumpts[i+1]
                 del self.cumpts[-1]
             else:
-- 
2.43.0


From 95954d92b4c3c2ead9667e903008038a54564239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 34/86] fix: gridded functions are evaluated at the end of the
 grid, and vecfunc() finds maxima

---
 package/inference/grid/grid1d.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 10c2bc6..4b8f50b 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -535,7 +535,7 @@ class BasicGrid1D:
         for i in range(self.n):
             if i == self.n-1:  # Avoid roundoff error at the endpoint.
                 x = self.hi
-            if self.isLin:
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
@@ -616,7 +616,7 @@ class BasicGrid1D:
 
         # Now look for local maxima, with special treatment for
         # possible "half peaks" at the ends.
-        if self.lml:
+        if self.lml is not None:
             for i in range(2,self.n):
                 if self.valSeq:
                     y3 = self.vals[i-2:i+1, select]
@@ -669,7 +669,9 @@ class BasicGrid1D:
         # Get abscissa value, using a stored value if available.  If the ordinates
         # have been calculated, get the ordinate; otherwise use None.
         if (self.absc is None):
-            if self.isLin:
+            if i == self.n-1:
+                x = self.hi
+            elif self.isLin:
                 x = self.lo + i*self.step
             else:
                 x = self.lo * exp(i*self.step)
-- 
2.43.0


From ccf68ad706c529d130ca5264221360a7ec609663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 35/86] fix: peaks next to zero density can be refined, and
 zero density has log quadrature -inf

---
 package/inference/grid/grid1d.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 4b8f50b..3a9d6a4 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -3,7 +3,7 @@
 # Last mod: 15 Mar 2001
 
 from numpy import sqrt, log, floor, ceil, pi
-from numpy import fromfunction, array, zeros, sum, exp, clip, shape
+from numpy import fromfunction, array, zeros, sum, exp, clip, shape, inf
 # from types import TupleType, ListType
 
 from .. import utils
@@ -22,6 +22,12 @@ def IsPeak(y):
     return (y[0] < y[1] > y[2]) or (y[0] < y[1] == y[2])
 
 
+def floorlog(y, ymax):
+    """Replace logs of 0 in y with finite values negligible w.r.t. ymax."""
+
+    return [max(yi, ymax + smallExp) if yi == -inf else yi for yi in y]
+
+
 def PeakParams(x, y):
     """Given log f(x) at three points, estimate the parameters of a 
     Gaussian function through those points, (A, mean, sig).
@@ -29,6 +35,7 @@ def PeakParams(x, y):
     This generalizes the regular grid algorithm of H. J. Sanchez,
     Comp. in Phys., Jul/Aug 1991, 407."""
 
+    y = floorlog(y, y[1])
     w = x[2]-x[0]
     alpha = (x[1]-x[0]) / w
     alpha2 = alpha**2
@@ -576,6 +583,7 @@ class BasicGrid1D:
                     else:
                         msr = area
                     self.lml.update(msr, (i-1, logA, mean, sig))
+                y3 = floorlog(y3, max(y3))
                 if i == 2 and (y3[0] > y3[1]):  # half peak at left?
                     sig = -0.5*(x2-x1)/(y3[1]-y3[0])
                     logA, mean = y3[0], x1
@@ -631,6 +639,7 @@ class BasicGrid1D:
                     else:
                         msr = area
                     self.lml.update(msr, (i-1, logA, mean, sig))
+                y3 = floorlog(y3, max(y3))
                 if i == 2 and (y3[0] > y3[1]):
                     #A, mean, sig = PeakParams(self.absc[i-2:i+1], y3)
                     #area = 0.5*A*sig*rt2pi
@@ -751,6 +760,8 @@ class BasicGrid1D:
 
         # Calculate with respect to the max to avoid overflow.
         fmax = max(vals)
+        if fmax == -inf:  # zero throughout
+            return fmax
         fvals = exp(clip(vals-fmax, smallExp, 0.))
         s = sum(0.5 * w * (fvals[:-1] + fvals[1:]))
         return fmax + log(s)
@@ -791,6 +802,8 @@ class BasicGrid1D:
 
         # Calculate with respect to the max to avoid overflow.
         fmax = max(vals)
+        if fmax == -inf:  # zero throughout
+            return (fmax, 0., 0.)[:nmom+1] if nmom else fmax
         fvals = exp(clip(vals-fmax, smallExp, 0.))
         s = sum(0.5 * w * (fvals[:-1] + fvals[1:]))
         quad = fmax + log(s)
@@ -977,7 +990,8 @@ class Grid1D:
             # print repr(grid.lo), repr(grid.hi), grid.vals[0], grid.vals[-1], exp(l)
             if l > lsum:
                 l, lsum = lsum, l
-            lsum += log(1. + exp(l-lsum))
+            if lsum > -inf:
+                lsum += log(1. + exp(l-lsum))
             # if l <= lsum:
             #    lsum += log(1. + exp(l-lsum))
             # else:
@@ -1001,6 +1015,8 @@ class Grid1D:
         # The log integral:
         qvals = vals[:,0]
         qmax = qvals.max()
+        if qmax == -inf:  # zero throughout
+            return (qmax, 0., 0.)[:nmom+1]
         lquad = qmax + log(sum(exp(qvals-qmax)))
         # The first moment, up to a factor exp(lquad).
         facs = exp(qvals - lquad)
-- 
2.43.0


From 6f9d153a08ae17c919d5ae1a8b780448a2747f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 36/86] fix: iterate over Grid1D, and logtrapzd_mom() without
 moments

---
 package/inference/grid/grid1d.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 3a9d6a4..482c6ea 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -906,13 +906,8 @@ class Grid1D:
         return self.glist[i].point(indx)
 
     def __iter__(self):
-        i = 0
-        while 1:
-            try:
-                yield self.__getitem__[i]
-            except IndexError:
-                raise StopIteration
-            i += 1
+        for i in range(len(self)):
+            yield self[i]
 
     def firstpass(self, f, select=None, notify=None):
         """Apply func on the base grid."""
@@ -1005,7 +1000,7 @@ class Grid1D:
         the 1st and/or 2nd moments."""
 
         if not nmom:
-            return self.trapzd_log(select)
+            return self.logtrapzd(select)
 
         # Sum over the refined grids taking care to avoid overflows.
         vals = []
-- 
2.43.0


From 1a1ef498ad034790d9a0478359b2836faff4b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:28 +0000
Subject: [PATCH 37/86] fix: refining a Grid1D leaves the first pass maxima
 alone, and a new first pass starts afresh

---
 package/inference/grid/grid1d.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 482c6ea..d0cb2b5 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -914,6 +914,13 @@ class Grid1D:
 
         self.func = f
         self.select = select
+        # Discard the results of any earlier pass.
+        del self.lml.list[:]
+        self.ilist = RefinedIntervalList1D(self.base.lo, self.base.hi,
+                                           self.base.n, self.stype)
+        self.totpts = self.base.n
+        self.glist = [self.base]
+        self.base.valSeq = None
         self.base.stepfunc(f, select=select, notify=notify)
 
     def refine(self, dynrange=None, notify=None):
@@ -939,23 +946,25 @@ class Grid1D:
         # Make a list of grids associated with each interval.  Intervals with step
         # size equal to the base step size are assigned subgrids of the base grid.
         self.glist = []
+        newgrids = []
         self.rlml = LabeledMaxList(self.nmax)
         for intvl in self.ilist:
             if intvl.step == self.ilist.base.step:
                 self.glist.append(self.base.subgrid(intvl.lo,intvl.hi))
             else:
-                self.glist.append(BasicGrid1D(intvl.lo, intvl.hi, intvl.n,
-                                              self.stype, lml=self.rlml, rank=self.rank))
+                grid = BasicGrid1D(intvl.lo, intvl.hi, intvl.n,
+                                   self.stype, lml=self.rlml, rank=self.rank)
+                self.glist.append(grid)
+                newgrids.append(grid)
 
         # Go thru the grid list, evaluating the function and compiling a refined
         # list of labeled maxima.  But don't duplicate the work done on the base!
         if notify is not None:
             print("Refining among ",len(self.glist), " subgrids:")
-        for grid in self.glist:
-            if grid.step != self.base.step:
-                if notify is not None:
-                    print(">>>Refining over [",grid.lo,", ",grid.hi,"]...")
-                grid.stepfunc(self.func, select=self.select, notify=notify)
+        for grid in newgrids:
+            if notify is not None:
+                print(">>>Refining over [",grid.lo,", ",grid.hi,"]...")
+            grid.stepfunc(self.func, select=self.select, notify=notify)
 
     def point(self, n):
         """Return (absc, width, value) associated with point # n (0-based)."""
-- 
2.43.0


From 5f8318428cbc61b0663464db2d53008d11cf96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:48 +0000
Subject: [PATCH 38/86] fix: the normal through a peak with two (nearly) equal
 values is not lost to roundoff

---
 package/inference/grid/grid1d.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index d0cb2b5..43650e1 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -36,16 +36,12 @@ def PeakParams(x, y):
     Comp. in Phys., Jul/Aug 1991, 407."""
 
     y = floorlog(y, y[1])
-    w = x[2]-x[0]
-    alpha = (x[1]-x[0]) / w
-    alpha2 = alpha**2
-    fac = 1. - 2.*alpha2
-    a12 = y[0] - y[1]
-    C = alpha2/fac + a12/(a12-y[1]+y[2])
-    d = C*w*fac**2 / (2.*alpha*(1.-alpha) + C*(2.-4.*alpha)*fac)
-    mean = x[0] + d
-    alpha2 = w*alpha
-    sig = alpha2*(0.5*alpha2 - d) / a12
+    # The slopes of the chords give the parabola without cancellation when two
+    # of the values are (nearly) equal, or the points are irregular.
+    s01 = (y[1]-y[0]) / (x[1]-x[0])
+    s12 = (y[2]-y[1]) / (x[2]-x[1])
+    sig = (x[2]-x[0]) / (2.*(s01-s12))
+    mean = 0.5*(x[0]+x[1]) + sig*s01
     logA = y[1] + 0.5*(x[1]-mean)**2/sig
     sig = sqrt(sig)
     return (logA, mean, sig)
-- 
2.43.0


From 38e466730e80ea59d04f57d2a3d77fb177e23c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:11 +0000
Subject: [PATCH 39/86] fix: logtrapzd_mom() keeps the end of the grid

---
 package/inference/grid/grid1d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index 43650e1..f66a7e1 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -784,6 +784,7 @@ class BasicGrid1D:
                 self.absc = self.lo + self.step*fromfunction(lambda i: i, [self.n])
             else:
                 self.absc = self.lo * exp(self.step*fromfunction(lambda i: i, [self.n]))
+            self.absc[-1] = self.hi  # avoid roundoff error at endpoint
         w = self.absc[1:] - self.absc[:-1]
 
         # Pick out the values to use if we have a grid of tuples.
-- 
2.43.0


From 6b02c0b5e3cf53a9b2232ad2effd9cf971524996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 40/86] fix: the circular symmetric cubature rules have their
 stated degrees

---
 package/inference/integrate/_cub2d_auto.py | 67 +++++++++++-----------
 1 file changed, 35 insertions(+), 32 deletions(-)

diff --git a/package/inference/integrate/_cub2d_auto.py b/package/inference/integrate/_cub2d_auto.py
index c80c7ad..1d81e14 100644
--- a/package/inference/integrate/_cub2d_auto.py
+++ b/package/inference/integrate/_cub2d_auto.py
@@ -1,5 +1,8 @@
 # NOTE:  This file is machine-created; do not edit!
 # Modify make_ECF_rules.py and re-run if changes are necessary.
+# (But note that make_ECF_rules.py aligns all of the polygons comprising the
+# circular symmetric rules, 9_19a, 11_28c and 13_41.  The rules have their degree
+# only if some of them are rotated by half of the angle between vertices, as here.)
 
 from numpy import array
 
@@ -292,16 +295,16 @@ def e2r2_5_9a(func):
 
 
 e2r2_13_41_absc = array(
-    [[   2.4494897427831779e+00,    0.0000000000000000e+00],
-     [   1.9816788294587098e+00,    1.4397739464496353e+00],
-     [   7.5693395806712094e-01,    2.3296031814720810e+00],
-     [  -7.5693395806712049e-01,    2.3296031814720810e+00],
-     [  -1.9816788294587093e+00,    1.4397739464496355e+00],
-     [  -2.4494897427831779e+00,    2.9997597730436923e-16],
-     [  -1.9816788294587100e+00,   -1.4397739464496351e+00],
-     [  -7.5693395806712116e-01,   -2.3296031814720810e+00],
-     [   7.5693395806712016e-01,   -2.3296031814720810e+00],
-     [   1.9816788294587091e+00,   -1.4397739464496360e+00],
+    [[   2.3296031814720810e+00,    7.5693395806712060e-01],
+     [   1.4397739464496353e+00,    1.9816788294587098e+00],
+     [   0.0000000000000000e+00,    2.4494897427831779e+00],
+     [  -1.4397739464496351e+00,    1.9816788294587098e+00],
+     [  -2.3296031814720810e+00,    7.5693395806712094e-01],
+     [  -2.3296031814720815e+00,   -7.5693395806711938e-01],
+     [  -1.4397739464496355e+00,   -1.9816788294587093e+00],
+     [   0.0000000000000000e+00,   -2.4494897427831779e+00],
+     [   1.4397739464496349e+00,   -1.9816788294587100e+00],
+     [   2.3296031814720810e+00,   -7.5693395806712116e-01],
      [   9.2897653516474088e-01,    0.0000000000000000e+00],
      [   7.5155780432383135e-01,    5.4603870709559477e-01],
      [   2.8706953674146096e-01,    8.8350918725372063e-01],
@@ -365,12 +368,12 @@ def e2r2_13_41(func):
 
 
 e2r2_9_19a_absc = array(
-    [[   2.0000000000000000e+00,    0.0000000000000000e+00],
-     [   1.0000000000000002e+00,    1.7320508075688772e+00],
-     [  -9.9999999999999967e-01,    1.7320508075688774e+00],
-     [  -2.0000000000000000e+00,    2.4492935982947064e-16],
-     [  -1.0000000000000009e+00,   -1.7320508075688767e+00],
-     [   9.9999999999999867e-01,   -1.7320508075688781e+00],
+    [[   1.7320508075688774e+00,    9.9999999999999989e-01],
+     [   0.0000000000000000e+00,    2.0000000000000000e+00],
+     [  -1.7320508075688774e+00,    9.9999999999999989e-01],
+     [  -1.7320508075688776e+00,   -9.9999999999999944e-01],
+     [   0.0000000000000000e+00,   -2.0000000000000000e+00],
+     [   1.7320508075688767e+00,   -1.0000000000000009e+00],
      [   1.1024690870412086e+00,    0.0000000000000000e+00],
      [   5.5123454352060441e-01,    9.5476623626472401e-01],
      [  -5.5123454352060408e-01,    9.5476623626472423e-01],
@@ -405,22 +408,22 @@ def e2r2_9_19a(func):
 
 
 e2r2_11_28c_absc = array(
-    [[   2.2360679774997898e+00,    0.0000000000000000e+00],
-     [   1.5811388300841895e+00,    1.5811388300841898e+00],
-     [   1.3691967456605067e-16,    2.2360679774997898e+00],
-     [  -1.5811388300841895e+00,    1.5811388300841898e+00],
-     [  -2.2360679774997898e+00,    2.7383934913210134e-16],
-     [  -1.5811388300841902e+00,   -1.5811388300841893e+00],
-     [  -4.1075902369815199e-16,   -2.2360679774997898e+00],
-     [   1.5811388300841893e+00,   -1.5811388300841902e+00],
-     [   1.3765979318520745e+00,    0.0000000000000000e+00],
-     [   8.4292312547775463e-17,    1.3765979318520745e+00],
-     [  -1.3765979318520745e+00,    1.6858462509555093e-16],
-     [  -2.5287693764332635e-16,   -1.3765979318520745e+00],
-     [   2.6825150931410771e+00,    0.0000000000000000e+00],
-     [   1.6425667612398419e-16,    2.6825150931410771e+00],
-     [  -2.6825150931410771e+00,    3.2851335224796838e-16],
-     [  -4.9277002837195262e-16,   -2.6825150931410771e+00],
+    [[   2.0658574377159642e+00,    8.5570616863128390e-01],
+     [   8.5570616863128401e-01,    2.0658574377159642e+00],
+     [  -8.5570616863128379e-01,    2.0658574377159642e+00],
+     [  -2.0658574377159642e+00,    8.5570616863128413e-01],
+     [  -2.0658574377159646e+00,   -8.5570616863128368e-01],
+     [  -8.5570616863128512e-01,   -2.0658574377159638e+00],
+     [   8.5570616863128446e-01,   -2.0658574377159642e+00],
+     [   2.0658574377159638e+00,   -8.5570616863128524e-01],
+     [   9.7340173257997875e-01,    9.7340173257997864e-01],
+     [  -9.7340173257997864e-01,    9.7340173257997875e-01],
+     [  -9.7340173257997886e-01,   -9.7340173257997864e-01],
+     [   9.7340173257997842e-01,   -9.7340173257997886e-01],
+     [   1.8968246129953188e+00,    1.8968246129953186e+00],
+     [  -1.8968246129953186e+00,    1.8968246129953188e+00],
+     [  -1.8968246129953192e+00,   -1.8968246129953186e+00],
+     [   1.8968246129953183e+00,   -1.8968246129953192e+00],
      [   6.1791116665497925e-01,    0.0000000000000000e+00],
      [   3.7836146620071352e-17,    6.1791116665497925e-01],
      [  -6.1791116665497925e-01,    7.5672293240142704e-17],
-- 
2.43.0


From 12fd3f31cf2dbc178ba0a06a18e79e88b2751df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 41/86] fix: adapt() uses maxfac and wrkfac, and refuses
 illegal dimensions and sizes

---
 package/inference/integrate/adapt.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 241ee2d..556a485 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -32,7 +32,7 @@ Call-back functions:
 """
 
 
-def adapt_sizes(ndim, maxfac=100):
+def adapt_sizes(ndim, maxfac=100, wrkfac=1):
   """
   Integers constraining the adapt algorithm: minpts, maxpts, lenwrk.
 
@@ -59,8 +59,8 @@ def adapt_sizes(ndim, maxfac=100):
   LENWRK values given above.
   """
   rulcls = 2**ndim + 2*ndim**2 + 6*ndim + 1
-  minpts, maxpts = rulcls, maxfac*rulcls
-  lenwrk = (2*ndim + 3) * (1 + maxfac) / 2
+  minpts, maxpts = rulcls, int(maxfac*rulcls)
+  lenwrk = int(wrkfac * (2*ndim + 3) * (1 + maxfac) / 2)
   return minpts, maxpts, lenwrk
 
 
@@ -82,7 +82,12 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     err = estimate of relative error of result
     ntps = # of function evaluations used
   """
-  minpts, maxpts, lenwrk = adapt_sizes(len(lower))
+  ndim = len(lower)
+  if ndim < 2 or ndim > 20:
+    raise ValueError('Dimension must be in [2,20]!')
+  minpts, maxpts, lenwrk = adapt_sizes(ndim, maxfac, wrkfac)
+  # The first region and the bookkeeping need this much storage.
+  lenwrk = max(lenwrk, 2*ndim + 5)
   npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
                                           func, relacc, lenwrk)
   if ifail == 0:
@@ -91,3 +96,5 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
     raise RuntimeError('Failed to achieve specified accuracy; increase wrkfac!')
+  else:
+    raise ValueError('maxfac must be at least 1!')
-- 
2.43.0


From 5114c84467b6a53fd33acdb21566ff2511e45df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:35 +0000
Subject: [PATCH 42/86] fix: adapt_vec() uses integer sizes

---
 package/inference/integrate/adapt_vec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/integrate/adapt_vec.py b/package/inference/integrate/adapt_vec.py
index ff8f1e6..01c7384 100644
--- a/package/inference/integrate/adapt_vec.py
+++ b/package/inference/integrate/adapt_vec.py
@@ -39,14 +39,14 @@ def adapt_vec(nfuncs, vfunc, lower, upper, releps,
         num = 127
     elif (key == 0 and ndim >= 3) or key == 3:
         num = 1 + 8*ndim + 2*ndim*(ndim-1) + 4*ndim*(ndim-1) + \
-            4*ndim*(ndim-1)*(ndim-2)/3 + 2**ndim
+            4*ndim*(ndim-1)*(ndim-2)//3 + 2**ndim
     elif key == 4:
         num = 1 + 6*ndim + 2*ndim*(ndim-1) + 2**ndim
     else:
         raise ValueError('Illegal key value!')
 
     # Calculate the max number of subregions, and workspace size.
-    maxsub = (maxpts-num)/(2*num) + 1
+    maxsub = (maxpts-num)//(2*num) + 1
     nw = maxsub*(2*ndim+2*nfuncs+2) + 17*nfuncs + 1
     work = zeros(nw, float)
     print('Rule size, max subregions, workspace size:', num, maxsub, nw)
-- 
2.43.0


From 41e7a6b39c12698bfa1b489126a4dc2e52b5a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:17 +0000
Subject: [PATCH 43/86] fix: adapt() integrates over boxes with reversed bounds

---
 package/inference/integrate/adapt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/package/inference/integrate/adapt.py b/package/inference/integrate/adapt.py
index 556a485..68251e1 100644
--- a/package/inference/integrate/adapt.py
+++ b/package/inference/integrate/adapt.py
@@ -88,10 +88,16 @@ def adapt(func, lower, upper, relacc, maxfac=100, wrkfac=1):
   minpts, maxpts, lenwrk = adapt_sizes(ndim, maxfac, wrkfac)
   # The first region and the bookkeeping need this much storage.
   lenwrk = max(lenwrk, 2*ndim + 5)
-  npts, err, result, ifail = _adapt.adapt(lower, upper, minpts, maxpts,
-                                          func, relacc, lenwrk)
+  # ADAPT requires ordered bounds; reversing them changes the sign.
+  sign = 1
+  for a, b in zip(lower, upper):
+    if b < a:
+      sign = -sign
+  npts, err, result, ifail = _adapt.adapt(list(map(min, lower, upper)),
+                                          list(map(max, lower, upper)),
+                                          minpts, maxpts, func, relacc, lenwrk)
   if ifail == 0:
-    return result, err, npts
+    return sign*result, err, npts
   elif ifail == 1:
     raise RuntimeError('Failed to achieve specified accuracy; increase maxfac!')
   elif ifail == 2:
-- 
2.43.0


From c5ae3c1c42185fddea8ed2c93ead8eb30bfccb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:52 +0000
Subject: [PATCH 44/86] fix: pnsig(0) is a probability, and pnsig() returns a
 copy

---
 package/inference/count/onoff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 03efa77..cb09826 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -202,12 +202,12 @@ class OnOff(object):
         if self.p_signal is None:
             self.p_signal = sigctp(self.on_cts, self.on_intvl,
                                    self.off_cts, self.off_intvl)
-        if n:
+        if n is not None:
             if n < 0 or n > self.on_cts:
                 raise ValueError('Number of source counts must be <= on_cts!')
             return self.p_signal[n]
         else:
-            return self.p_signal[:]  # return copy so cache can't be altered
+            return self.p_signal.copy()  # return copy so cache can't be altered
 
 
 # Interim documentation for the underlying Fortran extension module.
-- 
2.43.0


From 40e4c85a2a02a50aa3b67833fc574286fa78a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:52 +0000
Subject: [PATCH 45/86] fix: likelihoods and posteriors for integer arrays and
 lists of signal rates are not truncated

---
 package/inference/count/onoff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index cb09826..1fc881b 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -9,7 +9,7 @@ By Tom Loredo
 """
 
 
-from numpy import zeros_like
+from numpy import asarray, zeros
 from ._cbmlike import sigctp, psigc, slml_offset, vslml_offset, slmlike, \
     vslmlike, slmliked
 
@@ -104,9 +104,10 @@ class OnOff(object):
                 raise ValueError('Underflow/overflow in likelihood calculation!')
             return llike
         except TypeError:
+            s = asarray(s)
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))
             for i, sval in enumerate(s):
                 llvals[i], nt, err = slmlike(sval, self.on_cts, self.on_intvl,
                                              self.off_cts, self.off_intvl, self.offset, self.cutoff)
@@ -162,9 +163,10 @@ class OnOff(object):
             s = float(s)  # raises TypeError for arrays of length != 1
             return psigc(s, self.on_intvl, self.p_signal)
         except TypeError:
+            s = asarray(s)
             if len(s.shape) != 1:
                 raise ValueError('sigll handles only 1-D arrays!')
-            llvals = zeros_like(s)
+            llvals = zeros(len(s))
             for i, sval in enumerate(s):
                 llvals[i] = psigc(sval, self.on_intvl, self.p_signal)
             return llvals
-- 
2.43.0


From 99523d38f3d47eeda60d1793a559402c0b0d70f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:12 +0000
Subject: [PATCH 46/86] fix: vslmlike() gives no undefined values far from the
 peak

---
 package/inference/count/_cbmlike.f | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 7c7d2e7..173d8e2 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -351,7 +351,8 @@ c---  It is conceivable it could underflow, if we are evaluating
 c---  the likelihood extremely far from the peak.  It should
 c---  never overflow, but we check anyway.
         if (lterm .lt. -700. .or. lterm .gt. 700.) then
-            slike = 0.
+c---  vslmlike() does not see ierr; give it the leading term.
+            slmlike = lterm
             print *, 'Under/overflow lterm in slike:'
             write(*,'(g12.4,2i6,2g12.4)') s, n_on, n_off, t_on, t_off
             ierr = 1
-- 
2.43.0


From c15b4cf5c27a189433c8c720f6214eba24d6cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:16 +0000
Subject: [PATCH 47/86] fix: slmliked() gives the derivative at zero signal
 without counts

---
 package/inference/count/_cbmlike.f | 6 ++++--
 package/inference/count/onoff.py   | 2 --
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index 173d8e2..d3200c5 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -455,8 +455,6 @@ c       On return, nt is the number of terms used; nt <= n_on+1.
 c
 c       SLL is NOT normalized w.r.t. s!  It's a log LIKELIHOOD, not
 c       a posterior density.
-c
-c       noff=0 gives nan
 
 cf2py   intent(in) s, n_on, t_on, n_off, t_off, offset, cut
 cf2py   intent(out) sll, dsll, nt, ierr
@@ -480,6 +478,10 @@ c---  Treat s=0 specially, to avoid log(0) calls.
             arg1 = n_on + n_off + 1.
             arg2 = n_on + 1.
             sll = gammln(arg1) - gammln(arg2) - offset
+            if (n_on .eq. 0) then
+                dsll = -t_on
+                return
+            endif
             arg1 = arg1 - 1.
             arg2 = arg2 - 1.
             term = log(1. + t_off/t_on) + gammln(arg1) - gammln(arg2)
diff --git a/package/inference/count/onoff.py b/package/inference/count/onoff.py
index 1fc881b..38f1d11 100644
--- a/package/inference/count/onoff.py
+++ b/package/inference/count/onoff.py
@@ -398,8 +398,6 @@ On return, nt is the number of terms used; nt <= n_on+1.
 SLL is NOT normalized w.r.t. s!  It's a log LIKELIHOOD, not
 a posterior density.
 
-noff=0 gives nan
-
 See the cbmlike module docstring for more information on useage.
 """
 
-- 
2.43.0


From 5a45f67c90bcc116d38b1d37aedc73c9bb0a0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:20 +0000
Subject: [PATCH 48/86] fix: the signal posterior underflows to zero for large
 signals

---
 package/inference/count/_cbmlike.f | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/package/inference/count/_cbmlike.f b/package/inference/count/_cbmlike.f
index d3200c5..af6b402 100644
--- a/package/inference/count/_cbmlike.f
+++ b/package/inference/count/_cbmlike.f
@@ -579,20 +579,21 @@ cf2py   intent(in) n, dm
             else
                 ppois = 0.
             endif
+        else if (n .gt. 32 .or. dm .gt. 700.) then
+c---  Avoid over/underflow of the factors.
+            dnfac = gammln(dble(n)+1.)
+            arg = n * log(dm) - dm - dnfac
+            ppois = exp(arg)
         else if (n .le. ntop) then
             dnfac = a(n+1)
             ppois = dm**n * exp(-dm) / dnfac
-        else if (n .le. 32) then
+        else
             do 20 j=ntop+1, n
                 a(j+1) = j * a(j)
 20          continue
             ntop = n
             dnfac = a(n+1)
             ppois = dm**n * exp(-dm) / dnfac
-        else if (n .gt. 32) then
-            dnfac = gammln(dble(n)+1.)
-            arg = n * log(dm) - dm - dnfac
-            ppois = exp(arg)
         endif
 
         return
-- 
2.43.0


From b1cbc297cf6fd4905a30ec4cf1e98d523b3c2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:46 +0000
Subject: [PATCH 49/86] fix: keep the last good model values when a Bretthorst
 evaluation fails

A basis or set-up function that raises, or a degenerate basis, left the
design matrix overwritten while the memoized parameters and amplitudes were
still those of the last good evaluation, so later residuals mixed the two.
---
 package/inference/gauss/vecba.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index b2f336a..0b152f7 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -98,14 +98,16 @@ class BA:
             args = list(args)
             args.append(aux)
             args = tuple(args)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
             g = self.basis[a]
-            self.modvals[a,:] = g(*args) / self.sigs
+            modvals[a,:] = g(*args) / self.sigs
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.std_smpls)
+            vba.metricAnalysis(modvals, self.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
@@ -229,13 +231,15 @@ class BAObj:
 #...    Evaluate the standardized models on the data, first calling the setup
 #...    function.
         self.obj.set_nonlin(*params)
+        modvals = zeros((self.M, self.N), float)
         for a in range(self.M):
-            self.modvals[a,:] = self.obj.std_basis[a]()
+            modvals[a,:] = self.obj.std_basis[a]()
 
 #...    Calculate the metric and various derived quantities.  Store them
 #...    for possible future use before returning.
         self.metric, self.L, self.Jac, self.proj, self.ampl, self.suf =\
-            vba.metricAnalysis(self.modvals, self.obj.std_smpls)
+            vba.metricAnalysis(modvals, self.obj.std_smpls)
+        self.modvals = modvals
         self.Q = self.dsqr - self.suf
         self.pars = params
         self.Jac = 1. / self.Jac
-- 
2.43.0


From c5fb8af995d6350becc7f6a3c69a1c831f98cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:56 +0000
Subject: [PATCH 50/86] fix: return a copy of the best-fit amplitudes

The caller was handed the memoized array; changing it changed the amplitudes
and residuals reported later.
---
 package/inference/gauss/vecba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index 0b152f7..bdc3476 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -122,7 +122,7 @@ class BA:
             self.calc_marg_stats(*params)
 
 #...    Now just return the stored amplitudes..
-        return self.ampl
+        return self.ampl.copy()
 
     def covar(self):
         """Return the covariance matrix for the best-fit amplitudes."""
@@ -254,7 +254,7 @@ class BAObj:
             self.calc_marg_stats(*params)
 
 #...    Now just return the stored amplitudes.
-        return self.ampl
+        return self.ampl.copy()
 
     def covar(self):
         """Return the covariance matrix for the best-fit amplitudes."""
-- 
2.43.0


From f02a7958bdedc0260aec9e8a1d63f22bb25e0f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:07 +0000
Subject: [PATCH 51/86] fix: keep a copy of the data given to the Bretthorst
 algorithm

Only the standardized samples were computed at creation; the abscissas and
sigmas stayed views of the caller's array, so changing it later mixed two
data sets.
---
 package/inference/gauss/vecba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/gauss/vecba.py b/package/inference/gauss/vecba.py
index bdc3476..bd9bba9 100644
--- a/package/inference/gauss/vecba.py
+++ b/package/inference/gauss/vecba.py
@@ -1,4 +1,4 @@
-from numpy import ones, zeros, shape, sum, newaxis, sqrt
+from numpy import array, ones, zeros, shape, sum, newaxis, sqrt
 
 # TODO: Use placeholder until vba is updated:
 # import vba
@@ -29,6 +29,7 @@ class BA:
         """Initialize:  Save basic info; calculate standardized data and d**2."""
 
 #...    Basic member data.
+        data = array(data, float)  # a copy, so later changes have no effect
         self.M = len(basis)
         self.N = len(data)
         self.basis = basis
-- 
2.43.0


From f4ea609a202895680f8606050c8ac72cf6fba828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 52/86] fix: report weights without a positive sum as a
 ValueError

The sampler's init failed without setting an exception and gave up a
reference to itself that its caller releases as well.
---
 package/inference/mc/_ppssampler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index d877610..c764a39 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -149,7 +149,8 @@ PPSSampler_init(PPSSampler *self, PyObject *args, PyObject *kwds)
     self->pSampler = init_sampler5tbl((double*) pmf_table->data, k);
     if (self->pSampler == NULL)
     {
-        Py_DECREF(self);
+        PyErr_SetString(PyExc_ValueError,
+                      "the sum of the weights must be positive");
         return -1;
     }
     
-- 
2.43.0


From 83b684cf63861241734d1610c3fa4763091a5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 53/86] fix: hand only the Mersenne twister state to the subset
 samplers

They were passed the whole state tuple, which they refuse, so no subset could
be drawn; and the state was put back without the cached normal deviate.
---
 package/inference/mc/population.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 3e105cf..e4d2d93 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -93,7 +93,10 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        # As in sample(), track the MT state and copy any extra state.
+        rng_state = random.get_state()
+        mt_state, extra_state = rng_state[:3], rng_state[3:]
+        set_rng_state(*mt_state)
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -125,7 +128,7 @@ class Population(object):
             self.ntry, sindices = self.sampler.samplenr()
             indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(tuple(get_rng_state()) + tuple(extra_state))
         return result
 
     def subset_pps5(self, nsamp):
@@ -140,7 +143,10 @@ class Population(object):
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-        set_rng_state(*random.get_state())
+        # As in sample(), track the MT state and copy any extra state.
+        rng_state = random.get_state()
+        mt_state, extra_state = rng_state[:3], rng_state[3:]
+        set_rng_state(*mt_state)
         if self.equiprob:
             pool = arange(self.npopn)
             indices = equalprob(nsamp, pool)
@@ -178,7 +184,7 @@ class Population(object):
             # Note the 5-table version returns unsorted indices.
             # indices = [self.sort_indices[i] for i in sindices]
         result = [self.items[i] for i in indices]
-        random.set_state(get_rng_state())
+        random.set_state(tuple(get_rng_state()) + tuple(extra_state))
         return result
 
 
-- 
2.43.0


From 8846434ce93929be0abb364dcfa4c3eeb8e9da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:04 +0000
Subject: [PATCH 54/86] fix: import arange, needed for subsets of equally
 weighted populations

---
 package/inference/mc/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index e4d2d93..8d8a19d 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import array, random
+from numpy import arange, array, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
-- 
2.43.0


From 2c0087dfa7750be481077b30ba60caa6d3d519c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:38 +0000
Subject: [PATCH 55/86] fix: do not read the sorted weight indices as ints
 where they are wider

PyArray_ArgSort gives npy_intp indices; on 64-bit platforms half of them were
taken for others, so subsets were drawn with wrong probabilities or failed.
---
 package/inference/mc/_ppssampler.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index c764a39..9cacf7e 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -226,7 +226,7 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     int npopn;
     PyObject *win;
     PyArrayObject *wts, *sorted, *cumwt, *indices;
-    PyArrayObject *no_out=NULL;
+    PyArrayObject *argsort, *no_out=NULL;
     npy_intp dims[1];
     int *idata;
     int i, j, itemp;
@@ -238,6 +238,7 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     sorted = NULL;
     cumwt = NULL;
     indices = NULL;
+    argsort = NULL;
 
 /* Parse the input weights. */
     Py_TRY(PyArg_ParseTuple(args, "O", &win));
@@ -250,7 +251,12 @@ prepwts (PyObject *self, PyObject *args, PyObject *keywords) {
     if (sorted == NULL) goto FAIL;
 
 /* Sort and reverse the weights. */
-	indices = (PyArrayObject *) PyArray_ArgSort(wts, 0, PyArray_QUICKSORT);
+	argsort = (PyArrayObject *) PyArray_ArgSort(wts, 0, PyArray_QUICKSORT);
+	if (argsort == NULL) goto FAIL;
+	/* ArgSort returns npy_intp indices, wider than int on 64-bit platforms. */
+	indices = (PyArrayObject *) PyArray_Cast(argsort, NPY_INT);
+	Py_DECREF(argsort);
+	if (indices == NULL) goto FAIL;
 	idata = IDATA(indices);
 
 /*
-- 
2.43.0


From b0c9605dec7f27a6c094bf10662ef886e4f887ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:38 +0000
Subject: [PATCH 56/86] fix: give the equal probability sampler a pool of C
 ints

It does not accept wider integers, the default on 64-bit platforms.
---
 package/inference/mc/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index 8d8a19d..c5890ac 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -6,7 +6,7 @@ Classes and functions for describing and sampling discrete populations.
 
 __author__ = "Tom Loredo"
 
-from numpy import arange, array, random
+from numpy import arange, array, intc, random
 from _ppssampler import _ppssampler, equalprob
 from _ppssampler import set_rng_state, get_rng_state
 from inference.utils.pl import pl
@@ -98,7 +98,7 @@ class Population(object):
         mt_state, extra_state = rng_state[:3], rng_state[3:]
         set_rng_state(*mt_state)
         if self.equiprob:
-            pool = arange(self.npopn)
+            pool = arange(self.npopn, dtype=intc)
             indices = equalprob(nsamp, pool)
         else:
             # This part of setup has to be done before any sampling.
@@ -148,7 +148,7 @@ class Population(object):
         mt_state, extra_state = rng_state[:3], rng_state[3:]
         set_rng_state(*mt_state)
         if self.equiprob:
-            pool = arange(self.npopn)
+            pool = arange(self.npopn, dtype=intc)
             indices = equalprob(nsamp, pool)
         else:
             # This part of setup has to be done before any sampling.
-- 
2.43.0


From 31e3e36514a56cf0c8d6fa4a1e7f84d3461e306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 57/86] fix: draw all members of a Sampford subset from the
 shared generator

All but the first came from the C library's rand(), so subsets could not be
repeated by seeding NumPy's generator.
---
 package/inference/mc/sampford.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/mc/sampford.c b/package/inference/mc/sampford.c
index 00663ee..7389443 100644
--- a/package/inference/mc/sampford.c
+++ b/package/inference/mc/sampford.c
@@ -110,7 +110,7 @@ sampford_pps(Sampford* sampford, int* sample, rk_state* rng_state_ptr) {
         duplicate = 0;
         tot = sampford->cumratios[npopn-1];
         for (j=1; j<nsamp; j++) {
-            val = tot * (1.*rand())/(RAND_MAX+1.);
+            val = tot * rk_double(rng_state_ptr);
             for (i=0; i<npopn; i++) {
                 if (val <= sampford->cumratios[i]) break;
             }
-- 
2.43.0


From 22669fb5538bc1daef44c8dce7691332907d64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 58/86] fix: draw equal probability subsets from the shared
 generator

They came from the C library's rand(), so they could not be repeated by
seeding NumPy's generator.
---
 package/inference/mc/_ppssampler.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/package/inference/mc/_ppssampler.c b/package/inference/mc/_ppssampler.c
index 9cacf7e..bba299e 100644
--- a/package/inference/mc/_ppssampler.c
+++ b/package/inference/mc/_ppssampler.c
@@ -29,7 +29,6 @@
  *       without replacement.
  *
  * TODO:
- *   Convert equalprob/i to use RandomKit.
  *   Make the 5-table version of SampfordPPS.
  *
  * License: BSD-style (see LICENSE.txt at root of scipy tree)
@@ -716,7 +715,7 @@ equalprobi (PyObject *self, PyObject *args) {
 /* Pick from the pool at random; shuffle the last item down to replace the 
    one picked. */
     for (i=0; i<nsamp; i++) {
-   		pick = npopn * (1.*rand())/(RAND_MAX+1.);  /* Always < npopn. */
+   		pick = npopn * rk_double(&rng_state);  /* Always < npopn. */
 /*    		PySys_WriteStdout("pick, npopn: %i  %i  %i\n", pick, pdata[pick], npopn); */
    		sdata[i] = pdata[pick];
    		npopn--;  /* Now points to the last item (at npopn-1). */
@@ -781,7 +780,7 @@ equalprob (PyObject *self, PyObject *args) {
 /* Pick from the pool at random; shuffle the last item down to replace the 
    one picked. */
     for (i=0; i<nsamp; i++) {
-   		pick = npopn * (1.*rand())/(RAND_MAX+1.);  /* Always < npopn. */
+   		pick = npopn * rk_double(&rng_state);  /* Always < npopn. */
 /*    		PySys_WriteStdout("pick, npopn: %i  %i  %i\n", pick, pdata[pick], npopn); */
    		sdata[i] = pdata[pick];
    		npopn--;  /* Now points to the last item (at npopn-1). */
-- 
2.43.0


From 3787bc0b2f75ab6c33e77125ec792223fcc7d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:56 +0000
Subject: [PATCH 59/86] fix: refuse to draw empty subsets

A subset of size zero crashed the interpreter, as the C code always picks a
first member.
---
 package/inference/mc/population.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/package/inference/mc/population.py b/package/inference/mc/population.py
index c5890ac..759fde4 100644
--- a/package/inference/mc/population.py
+++ b/package/inference/mc/population.py
@@ -90,6 +90,8 @@ class Population(object):
         without replacement with probability proportional to size (PPS)
         according to Sampford's sampling scheme.
         """
+        if nsamp <= 0:
+            raise ValueError('Sample size must be positive!')
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
@@ -140,6 +142,8 @@ class Population(object):
         5-table lookup samplers are used within Sampford's algorithm to
         accelerate the sampling for large populations.
         """
+        if nsamp <= 0:
+            raise ValueError('Sample size must be positive!')
         # Copy the whole population if nsamp = npopn.
         if nsamp == self.npopn:
             return [item for item in self.items]
-- 
2.43.0


From 5ab20c94286b39e37aaa7bfe46f141194e49e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:38 +0000
Subject: [PATCH 60/86] fix: evaluate a piecewise linear pdf at the top of its
 domain

The interval beyond the last one was looked up there, an IndexError.
---
 package/inference/mc/pwlinear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 398334f..43dfa40 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -207,7 +207,9 @@ class PWLinear(object):
             raise NotImplementedError
         # Handle even step size case.
         elif self.step == 'lin':
+            # The last interval includes its upper boundary.
             i = region[0] + int((x - region[2])/self.delta)
+            i = min(i, region[1]-1)
             return self.pdf_vals[i] + \
                 (self.pdf_vals[i+1]-self.pdf_vals[i]) * \
                 (x - self.absc[i])/(self.absc[i+1] - self.absc[i])
-- 
2.43.0


From 23254ff97353aec99427bce8a0250818b3a2201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:47 +0000
Subject: [PATCH 61/86] fix: accept sequences and integers as piecewise linear
 pdf values

Lists raised TypeErrors, and weights from integer log values were truncated
to integers.
---
 package/inference/mc/pwlinear.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index 43dfa40..fbfa884 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -1,4 +1,4 @@
-from numpy import linspace, concatenate, zeros, sqrt, log, exp
+from numpy import asarray, linspace, concatenate, zeros, sqrt, log, exp
 from numpy import iterable, empty, any
 from numpy.random import rand
 from .population import Population
@@ -40,6 +40,8 @@ class PWLinear(object):
             maximum density will be treated as zero.  Must be nonzero if
             `logvals` is True.
         """
+        vals = asarray(vals, float)
+
         # Define the domain and abscissas.
         if not (lo is None) and not (hi is None):
             if step != 'lin':
-- 
2.43.0


From ae116ae094e5d126432bc736c2d921b00bb2f5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:57 +0000
Subject: [PATCH 62/86] fix: treat piecewise linear pdf values below the cutoff
 as zero

This was done for log values only; otherwise the pdf jumped from a value
below the cutoff to zero.
---
 package/inference/mc/pwlinear.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/package/inference/mc/pwlinear.py b/package/inference/mc/pwlinear.py
index fbfa884..9a2ce0f 100644
--- a/package/inference/mc/pwlinear.py
+++ b/package/inference/mc/pwlinear.py
@@ -70,6 +70,7 @@ class PWLinear(object):
         else:
             wvals = vals/max(vals)
             selected = (wvals > cut).nonzero()[0]
+            wvals[wvals <= cut] = 0.
 
         # Break up the selection into contiguous regions.
         # First get lists of indices to nonzero values in each region.
-- 
2.43.0


From eff2e753e104bce7fd3685611fed5ac6a55cb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:29 +0000
Subject: [PATCH 63/86] fix: draw bivariate contours for levels in any order

The default levels and those from probabilities are decreasing, which
Matplotlib refuses.
---
 package/inference/utils/plot_bivar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 9e67c73..2e73fb0 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -90,6 +90,11 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
     else:
         # Treat levels as *absolute* levels (not relative to max).
         levels = array(levels) - logmax
+    # Matplotlib requires increasing levels; keep the colors with their levels.
+    order = argsort(levels)
+    levels = levels[order]
+    if colors is not None and not isinstance(colors, str):
+        colors = [colors[i % len(colors)] for i in order]
 
     # Plot a grayscale image displaying tails beyond the lowest level.
     if gscale:
-- 
2.43.0


From 6b2f0f31035813431370850b0d1dbaf75ef087e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 64/86] fix: draw the crosshair of bivariate plots

It used axis limit functions that are not imported, and the limits it wanted
replaced those of the grid in the coordinate display.
---
 package/inference/utils/plot_bivar.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/package/inference/utils/plot_bivar.py b/package/inference/utils/plot_bivar.py
index 2e73fb0..e11ea44 100644
--- a/package/inference/utils/plot_bivar.py
+++ b/package/inference/utils/plot_bivar.py
@@ -126,10 +126,8 @@ def plot_bivar(x, y, logpdf, iorder='xy', levels=None, plevels=None, cross=None,
 
     if cross:
         xc, yc = cross
-        xlo, xhi = xlim()
-        ylo, yhi = ylim()
-        pl.hlines(yc, xlo, xhi, 'teal')
-        pl.vlines(xc, ylo, yhi, 'teal')
+        pl.hlines(yc, *pl.xlim(), colors='teal')
+        pl.vlines(xc, *pl.ylim(), colors='teal')
     # This makes the original colorbar look a bit out of place,
     # so let's improve its position.
     #l,b,w,h = gca().get_position().bounds
-- 
2.43.0


From 675ed905ea845cedaf1f7980d8f0a9608b1d07c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:22 +0000
Subject: [PATCH 65/86] fix: pass gscale of a grid plot on to the bivariate
 plot

The argument was accepted and ignored.
---
 package/inference/pie/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/containers.py b/package/inference/pie/containers.py
index 6113ccd..8539198 100644
--- a/package/inference/pie/containers.py
+++ b/package/inference/pie/containers.py
@@ -111,7 +111,7 @@ class ScalarGrid(object):
                 except:
                     pl.figure()  # start a new figure by default
                 plot_bivar(xvals, yvals, self.values, xlabel=x_name,
-                           ylabel=y_name, **kwds)
+                           ylabel=y_name, gscale=gscale, **kwds)
             else:
                 raise NotImplementedError('Plotting log steps not yet implemented!')
         else:
-- 
2.43.0


From 52631be5f75bf187fd1cb4ea733ba912d57884c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 66/86] fix: plot p(log x), to which the levels belong, for HPD
 grids with log steps

---
 package/inference/grid/hpdgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 7f9cd0d..01f90a3 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -213,7 +213,8 @@ class HPDGrid1D(object):
         return self.fracgt(logratio) - self._target
 
     def plot(self):
-        pl.plot(self.xvals, exp(self.logpdf))
+        # For log steps, the levels are for p(log x).
+        pl.plot(self.xvals, exp(self.max)*self.spdf)
         xl, xu = self.xvals[0], self.xvals[-1]
         for level in self.levels:
             plevel = exp(level)
-- 
2.43.0


From 34c7d70d01067f23713e6a72a69eafa2a878dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 67/86] fix: contour the transposed grid of an HPDGrid2D, with
 sorted levels

---
 package/inference/grid/hpdgrid.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/package/inference/grid/hpdgrid.py b/package/inference/grid/hpdgrid.py
index 01f90a3..ef9ee52 100644
--- a/package/inference/grid/hpdgrid.py
+++ b/package/inference/grid/hpdgrid.py
@@ -328,4 +328,11 @@ class HPDGrid2D(object):
     def plot(self):
         x,y = pl.meshgrid(self.xvals,self.yvals)
         pl.figure()
-        pl.contour(x,y,self.logpdf,self.levels)
+        # Contours index the y axis first and want increasing levels.  For log
+        # steps, the levels are for the pdf of log(x or y).
+        logpdf = self.logpdf.transpose()
+        if not self.xlinstep:
+            logpdf = logpdf + log(x)
+        if not self.ylinstep:
+            logpdf = logpdf + log(y)
+        pl.contour(x,y,logpdf,sorted(self.levels))
-- 
2.43.0


From ceb8f0588d84c090f2af8504d6439e19e4a1e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:36 +0000
Subject: [PATCH 68/86] fix: a log of zero next to a very small value is not
 taken for a peak

---
 package/inference/grid/grid1d.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/package/inference/grid/grid1d.py b/package/inference/grid/grid1d.py
index f66a7e1..c86e44b 100644
--- a/package/inference/grid/grid1d.py
+++ b/package/inference/grid/grid1d.py
@@ -22,10 +22,11 @@ def IsPeak(y):
     return (y[0] < y[1] > y[2]) or (y[0] < y[1] == y[2])
 
 
-def floorlog(y, ymax):
-    """Replace logs of 0 in y with finite values negligible w.r.t. ymax."""
+def floorlog(y):
+    """Replace logs of 0 in y with finite values negligible w.r.t. the others."""
 
-    return [max(yi, ymax + smallExp) if yi == -inf else yi for yi in y]
+    floor = min([yi for yi in y if yi > -inf] or [-inf]) + smallExp
+    return [floor if yi == -inf else yi for yi in y]
 
 
 def PeakParams(x, y):
@@ -35,7 +36,7 @@ def PeakParams(x, y):
     This generalizes the regular grid algorithm of H. J. Sanchez,
     Comp. in Phys., Jul/Aug 1991, 407."""
 
-    y = floorlog(y, y[1])
+    y = floorlog(y)
     # The slopes of the chords give the parabola without cancellation when two
     # of the values are (nearly) equal, or the points are irregular.
     s01 = (y[1]-y[0]) / (x[1]-x[0])
@@ -579,7 +580,7 @@ class BasicGrid1D:
                     else:
                         msr = area
                     self.lml.update(msr, (i-1, logA, mean, sig))
-                y3 = floorlog(y3, max(y3))
+                y3 = floorlog(y3)
                 if i == 2 and (y3[0] > y3[1]):  # half peak at left?
                     sig = -0.5*(x2-x1)/(y3[1]-y3[0])
                     logA, mean = y3[0], x1
@@ -635,7 +636,7 @@ class BasicGrid1D:
                     else:
                         msr = area
                     self.lml.update(msr, (i-1, logA, mean, sig))
-                y3 = floorlog(y3, max(y3))
+                y3 = floorlog(y3)
                 if i == 2 and (y3[0] > y3[1]):
                     #A, mean, sig = PeakParams(self.absc[i-2:i+1], y3)
                     #area = 0.5*A*sig*rt2pi
-- 
2.43.0


From 19240713b24aa24406c9f10c5e702c35b9d45498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 69/86] fix: an Orbit sets up the orbit from its own
 parameters, not from undefined names

---
 sandbox/signals/kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/signals/kepler.py b/sandbox/signals/kepler.py
index 9a96962..56dcc2d 100755
--- a/sandbox/signals/kepler.py
+++ b/sandbox/signals/kepler.py
@@ -65,14 +65,14 @@ class Orbit:
     def ecc_anom(self, times):
         """Calculate the cosine & sine of the eccentric anomaly for a vector
                 of observing times."""
-        fkepler.setup_Tp(tau, e, T0)
+        fkepler.setup_Tp(self.tau, self.e, self.T0)
         self.cs_EA = fkepler.vt2EA(times)
         return self.cs_EA
 
     def true_anom(self, times):
         """Calculate the cosine & sine of the true anomaly for a vector
                 of observing times."""
-        fkepler.setup_Tp(tau, e, T0)
+        fkepler.setup_Tp(self.tau, self.e, self.T0)
         self.cs_TA = fkepler.vt2TA(times)
         return self.cs_TA
 
-- 
2.43.0


From 5ada34fc4c212f549b74c8dce87e634634071d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 70/86] fix: v_rad takes arrays of times, and agrees with
 Orbit.v_rad in the sign of the sine term

---
 sandbox/signals/kepler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sandbox/signals/kepler.py b/sandbox/signals/kepler.py
index 56dcc2d..ddfde0e 100755
--- a/sandbox/signals/kepler.py
+++ b/sandbox/signals/kepler.py
@@ -26,8 +26,9 @@ def v_rad(K, tau, e, long, T0, v0, times):
     if type(times) == float:
         c, s = fkepler.t2TA(times)  # Get cos, sin of true anomaly
     else:
-        c, s = fkepler.vt2TA(times)
-    return v0 + K*cos(long)*(e+c) + K*sin(long)*s
+        cs = fkepler.vt2TA(times)
+        c, s = cs[:,0], cs[:,1]
+    return v0 + K*cos(long)*(e+c) - K*sin(long)*s
 
 
 class Orbit:
-- 
2.43.0


From 58852a327d84f09e28d4b793a88b18635b61dda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 71/86] fix: a PCModel may be made without bins or quadrature
 points, which are set later

---
 sandbox/point/periodic/periodic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sandbox/point/periodic/periodic.py b/sandbox/point/periodic/periodic.py
index 80f94e5..ce0dabd 100644
--- a/sandbox/point/periodic/periodic.py
+++ b/sandbox/point/periodic/periodic.py
@@ -46,6 +46,7 @@ class PCModel(object):
         if nbins is not None:
             self.set_nbins(nbins)
         else:
+            self.nbins = None
             self.bins = None
         self.offset = None # Offset for logs to avoid over/underflow
         self.w = None
@@ -64,7 +65,7 @@ class PCModel(object):
         # nbins-dependent part of the Ockham factor:
         self.logbfac = gammaln(nbins) + self.ndata*log(nbins) + \
                        gammaln(self.ndata+1) - gammaln(self.ndata+nbins)
-        if self.qpts > 0:
+        if self.qpts:
             self.absc = gl.trap_absc(self.qpts, nbins)
         else:
             self.absc = None
-- 
2.43.0


From a021b13e06faa9375f22fb6eadcb553a00dc3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 72/86] fix: rate_est accepts a number of phases or a sequence
 of them

---
 sandbox/point/periodic/periodic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/point/periodic/periodic.py b/sandbox/point/periodic/periodic.py
index ce0dabd..d6636ff 100644
--- a/sandbox/point/periodic/periodic.py
+++ b/sandbox/point/periodic/periodic.py
@@ -1,4 +1,4 @@
-from numpy import pi, zeros, log, linspace
+from numpy import array, pi, zeros, log, linspace
 from scipy.special import gammaln
 import _pcperiodic as gl  # aka "Gregory-Loredo algorithm"
 from _rayleigh import rayleigh, rsgrid, lml_wk
@@ -207,7 +207,7 @@ class PCModel(object):
             ret_phases = False
             len(phases)
             phases = array(phases)
-        except AttributeError:  # Raised if len(phases) fails
+        except TypeError:  # Raised if len(phases) fails
             # phases is an int
             ret_phases = True
             phases = linspace(0., twopi, phases)
-- 
2.43.0


From aebdbfeb70d9e9f3fd54ce6b37d9d1b1ddefbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 73/86] fix: events with negative phases are binned, not
 counted outside the bins

---
 sandbox/point/periodic/_pcperiodic.f | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index bb066f3..42bbb25 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -203,6 +203,8 @@ c---  to perform a modulo (use of the mod function is much slower!).
 	do 20 n=1, ndat
 	    phase = phases(n) + phi1
 	    phase = phase - int(phase)
+	    if (phase .lt. zero) phase = phase + one
+	    if (phase .ge. one) phase = zero
 	    j = nbins*phase
 	    j = j + 1
 	    bins(j) = bins(j) + 1
-- 
2.43.0


From 9cff8236bf210b96b2b05f86b573a6f1df81f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 74/86] fix: ll_wpb has the log of nbins**ndat

---
 sandbox/point/periodic/_pcperiodic.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index 42bbb25..c91cc46 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -305,7 +305,7 @@ c---  Locals:
 	ll_wpb = factln(arg)
 	arg = ndat + arg
 	ll_wpb = ll_wpb - factln(arg)
-	ll_wpb = ll_wpb + (1.*ndat)*nbins +factln(ndat) +
+	ll_wpb = ll_wpb + ndat*log(1.d0*nbins) + factln(ndat) +
      +           limult(ndat, nbins, bins)
 
 	return
-- 
2.43.0


From d4c497e6d10a5d6dd6a173b43380485161a64107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 75/86] fix: trapezoid abscissas in double precision

---
 sandbox/point/periodic/_pcperiodic.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index c91cc46..33c9c1b 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -359,7 +359,7 @@ cf2py intent(in) npts, nbins
 cf2py intent(out) absc
 
 c---  Locals:
-	real*8 twopi
+	real*8 twopi, del
 	parameter (twopi = 6.2831853071795862d0)
 
 	del = twopi / nbins / (npts-1)
-- 
2.43.0


From 048dab4fd4cce5addafaccd5af3df9f5cb8ee0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:11 +0000
Subject: [PATCH 76/86] fix: rate_wb integrates over the phase exactly and
 returns the standard deviation

---
 sandbox/point/periodic/_pcperiodic.f | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/sandbox/point/periodic/_pcperiodic.f b/sandbox/point/periodic/_pcperiodic.f
index 33c9c1b..65add7f 100644
--- a/sandbox/point/periodic/_pcperiodic.f
+++ b/sandbox/point/periodic/_pcperiodic.f
@@ -614,8 +614,8 @@ cf2py intent(out) r, r2
 cf2py intent(inplace) phibins, bins
 
 c---  Locals:
-	integer n, j
-	real*8 del, arg, dphi, phi, norm, rc, r2c
+	integer n, j, jn
+	real*8 del, arg, dphi, phi, norm, rc, r2c, step, dr, x
 cb	real*8 binf(nbmax), logS
 	real*8 plimult, one, two, twopi
 	parameter (twopi = 6.2831853071795862d0)
@@ -638,19 +638,23 @@ cb	    arg = plimult(ndat, nbins, bins) - lndfac + logS + lfac
      *                    bins, dphi)
 	    arg = plimult(ndat, nbins, bins) - lndfac + lfac
 	    arg = exp(arg)
-	    norm = norm + arg*dphi
+	    step = min(dphi, del-phi)
+	    norm = norm + arg*step
 	    npts = npts + 1
 	    do 60 n=1, nt
-	        j = one + nbins*mod(rphases(n) + phi, twopi)/twopi
+c---	        The shift moves this phase to the next bin after dr.
+	        x = nbins*mod(rphases(n) + phi, twopi)/twopi
+	        j = min(int(x) + 1, nbins)
+	        dr = min((j - x)*del, step)
+	        jn = mod(j, nbins) + 1
 	        rc = nbins * (bins(j)+one)/(ndat+nbins)
 	        r2c = rc * nbins * (bins(j)+two)/(ndat+nbins+one)
-	        if (phi+dphi .lt. del) then
-	            r(n) = r(n) + rc*arg*dphi
-	            r2(n) = r2(n) + r2c*arg*dphi
-	        else
-	            r(n) = r(n) + rc*arg*(del-phi)
-	            r2(n) = r2(n) + r2c*arg*(del-phi)
-	        endif
+	        r(n) = r(n) + rc*arg*dr
+	        r2(n) = r2(n) + r2c*arg*dr
+	        rc = nbins * (bins(jn)+one)/(ndat+nbins)
+	        r2c = rc * nbins * (bins(jn)+two)/(ndat+nbins+one)
+	        r(n) = r(n) + rc*arg*(step-dr)
+	        r2(n) = r2(n) + r2c*arg*(step-dr)
 60	    continue
 	    if (phi+dphi .lt. del) then
 	        phi = phi + dphi
@@ -658,7 +662,7 @@ cb	    arg = plimult(ndat, nbins, bins) - lndfac + logS + lfac
 	    endif
 	do 100 n=1, nt
 	    r(n) = r(n)/norm
-	    r2(n) = r2(n)/norm
+	    r2(n) = sqrt(max(r2(n)/norm - r(n)**2, 0.d0))
 c	    write(*,'(i3,5(1pg13.4))') nbins,rphases(n),r(n),r2(n),norm,lfac
 100	continue
 
-- 
2.43.0


From 3cb21f3097640f1c76986250b51d3ea833fe6701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 77/86] fix: regress.py can be imported (raise syntax, Float)

---
 sandbox/regress/regress.py | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/sandbox/regress/regress.py b/sandbox/regress/regress.py
index e6d1d45..c5a9900 100755
--- a/sandbox/regress/regress.py
+++ b/sandbox/regress/regress.py
@@ -1,4 +1,4 @@
-from numpy import array, sqrt, ones, Float
+from numpy import array, sqrt, ones
 import _regress
 
 
@@ -14,11 +14,11 @@ def bistats(x, y):
     covar is the covariance
     rho is Pearson's linear correlation coefficient
     """
-    if len(x) != len(y): raise ValueError, 'x, y length mismatch!'
-    if len(x) < 2: raise ValueError, 'Need at least n=2!'
+    if len(x) != len(y): raise ValueError('x, y length mismatch!')
+    if len(x) < 2: raise ValueError('Need at least n=2!')
     xbar, xstd, ybar, ystd, covar, rho, ierr = _regress.datstt(x,y)
     if ierr == 0:
-        raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+        raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
     xstd = sqrt(xstd)
     ystd = sqrt(ystd)
     return xbar, xstd, ybar, ystd, covar, rho
@@ -41,8 +41,8 @@ class BiStats(object):
     """
 
     def __init__(self, x, y, nocopy=None):
-        if len(x) != len(y): raise ValueError, 'x, y length mismatch!'
-        if len(x) < 2: raise ValueError, 'Need at least n=2!'
+        if len(x) != len(y): raise ValueError('x, y length mismatch!')
+        if len(x) < 2: raise ValueError('Need at least n=2!')
         # Handle copying first so the datstt call doesn't duplicate
         # any needed conversion of a sequence to an array.
         if nocopy:
@@ -57,7 +57,7 @@ class BiStats(object):
         self.xbar, self.xstd, self.ybar, self.ystd, \
             self.covar, self.rho, error = _regress.datstt(self.x, self.y)
         if error == 0:
-            raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+            raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
         self.xstd = sqrt(self.xstd)
         self.ystd = sqrt(self.ystd)
 
@@ -113,13 +113,13 @@ def wlss(x, y, yerr):
     # Make a vector of yerr values if yerr is a scalar.
     try:
         if len(yerr) != npts:
-            raise ValueError, 'x, yerr length mismatch!'
+            raise ValueError('x, yerr length mismatch!')
     except TypeError:
-        yerr = yerr * ones(npts, Float)
+        yerr = yerr * ones(npts, float)
     # Check input sizes.
     if len(y) != npts:
-        raise ValueError, 'x, y length mismatch!'
-    if npts < 2: raise ValueError, 'Need  npts >= 2!'
+        raise ValueError('x, y length mismatch!')
+    if npts < 2: raise ValueError('Need  npts >= 2!')
     # _regress.wlss alters x, y (but not yerr) so copy them twice.
     try:
         x, y = x.copy(), y.copy()
@@ -134,7 +134,7 @@ def wlss(x, y, yerr):
         yerr = array(yerr)
     inter, ierr, slope, serr, scat, error = _regress.wlss(x2, y2, yerr)
     if error == 0:
-        raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+        raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
     x, y = x.copy(), y.copy()
     result = LinRegResult('wlss', slope, inter, sqrt(serr), sqrt(ierr),\
              x, y, yerr=yerr)
@@ -167,35 +167,35 @@ class BCES(object):
         # If a vector is provided, copy it.
         try:
             if len(xerr) != npts:
-                raise ValueError, 'x, xerr length mismatch!'
+                raise ValueError('x, xerr length mismatch!')
             try:
                 xerr = xerr.copy()
             except AttributeError:
                 xerr = array(xerr)
         except TypeError:
-            xerr = xerr * ones(npts, Float)
+            xerr = xerr * ones(npts, float)
         try:
             if len(yerr) != npts:
-                raise ValueError, 'x, yerr length mismatch!'
+                raise ValueError('x, yerr length mismatch!')
             try:
                 yerr = yerr.copy()
             except AttributeError:
                 yerr = array(yerr)
         except TypeError:
-            yerr = yerr * ones(npts, Float)
+            yerr = yerr * ones(npts, float)
         try:
             if len(covar) != npts:
-                raise ValueError, 'x, covar length mismatch!'
+                raise ValueError('x, covar length mismatch!')
             try:
                 covar = covar.copy()
             except AttributeError:
                 covar = array(covar)
         except TypeError:
-            covar = covar * ones(npts, Float)
+            covar = covar * ones(npts, float)
         # Check input sizes.
         if len(y) != npts:
-            raise ValueError, 'x, y length mismatch!'
-        if npts < 2: raise ValueError, 'Need  npts >= 2!'
+            raise ValueError('x, y length mismatch!')
+        if npts < 2: raise ValueError('Need  npts >= 2!')
         # Handle copying x, y here so the bess call doesn't duplicate
         # any needed conversion of a sequence to an array.
         try:
@@ -241,8 +241,8 @@ class SixLin(object):
         npts = len(x)
         # Check input sizes.
         if len(y) != npts:
-            raise ValueError, 'x, y length mismatch!'
-        if npts < 2: raise ValueError, 'Need  npts >= 2!'
+            raise ValueError('x, y length mismatch!')
+        if npts < 2: raise ValueError('Need  npts >= 2!')
         # Handle copying x, y here so the sixlin call doesn't duplicate
         # any needed conversion of a sequence to an array.
         try:
@@ -258,7 +258,7 @@ class SixLin(object):
         # Do the regressions.
         inter, ierr, slope, serr, error = _regress.sixlin(x2, y2)
         if error == 0:
-            raise ValueError, 'Input data has zero Sum(x-xbar)(y-ybar)!'
+            raise ValueError('Input data has zero Sum(x-xbar)(y-ybar)!')
         # Store results.
         self.yonx = LinRegResult('SixLin-yonx', slope[0], inter[0],
             serr[0], ierr[0], x, y)
-- 
2.43.0


From 4dcd157b35323b60f1ed3a9e25560df550deb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 78/86] fix: drxn.py can be imported (raise and print syntax)

---
 sandbox/drxn/drxn.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sandbox/drxn/drxn.py b/sandbox/drxn/drxn.py
index 6dd7080..3fdc0bf 100755
--- a/sandbox/drxn/drxn.py
+++ b/sandbox/drxn/drxn.py
@@ -26,13 +26,13 @@ class Direction(object):
         if uvec is not None:
             if lng is not None or lat is not None or ra is not None \
                or dec is not None:  # Don't test deg so subclasses can use it
-                raise ValueError, 'Specify only one type of direction!'
+                raise ValueError('Specify only one type of direction!')
             self.uvec = uvec
             self.long, self.lat = None, None
             self.ra, self.dec = None, None
         elif lng is not None and lat is not None:
             if ra is not None or dec is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec!'
+                raise ValueError('Use only long/lat OR ra/dec!')
             if deg:
                 lng, lat = pi*lng/180., pi*lat/180.
             self.long, self.lat = lng, lat
@@ -44,7 +44,7 @@ class Direction(object):
             self.uvec[2] = sin(lat)
         elif ra is not None and dec is not None:
             if lng is not None or lat is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec!'
+                raise ValueError('Use only long/lat OR ra/dec!')
             if deg:
                 ra, dec = pi*ra/180., pi*dec/180.
             self.ra, self.dec = ra, dec
@@ -55,8 +55,8 @@ class Direction(object):
             self.uvec[1] = sin(ra) * cdec
             self.uvec[2] = sin(dec)
         else:
-            print lng, lat, ra, dec
-            raise ValueError, 'Illegal set of arguments!'
+            print(lng, lat, ra, dec)
+            raise ValueError('Illegal set of arguments!')
 
     def __mul__(self, drxn):
         """The dot product between direction unit vectors."""
@@ -113,11 +113,11 @@ class FDirection(Direction):
         for this FDrxn instance."""
         if drxn:
             if lng or lat or ra or dec or uvec:
-                raise ValueError, 'Use only drxn or long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only drxn or long/lat OR ra/dec OR uvec!')
             uvec = drxn.uvec
         if lng is not None and lat is not None:
             if ra is not None or dec is not None or uvec is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
             uvec = zeros(3,float)
             clat = cos(lat)
             uvec[0] = cos(lng) * clat
@@ -125,7 +125,7 @@ class FDirection(Direction):
             uvec[2] = sin(lat)
         elif ra is not None and dec is not None:
             if lng is not None or lat is not None or uvec is not None:
-                raise ValueError, 'Use only long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
             uvec = zeros(3,float)
             cdec = cos(dec)
             uvec[0] = cos(ra) * cdec
@@ -133,7 +133,7 @@ class FDirection(Direction):
             uvec[2] = sin(dec)
         elif uvec:
             if long or lat or ra or dec:
-                raise ValueError, 'Use only long/lat OR ra/dec OR uvec!'
+                raise ValueError('Use only long/lat OR ra/dec OR uvec!')
         return self.kappa*dot(uvec,self.uvec) - self.const
 
     def __str__(self):
-- 
2.43.0


From d536bda0d0b1e643f7415b98570e83fefafd2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 79/86] fix: intercept error of the orthogonal line for falling
 lines

---
 sandbox/regress/_regress.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index 963bcf8..fa5e392 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -411,7 +411,7 @@ C     *     Prepare For Computation Of Variances
 C     
       Gam1 = B(3)/((B(1) + B(2))
      +     *Dsqrt((1.0 + B(1)**2)*(1.0 + B(2)**2)))
-      Gam2 = B(4)/(Dsqrt(4.0*B(1)**2 + (B(1)*B(2) - 1.0)**2))
+      Gam2 = Sign*B(4)/(Dsqrt(4.0*B(1)**2 + (B(1)*B(2) - 1.0)**2))
       Do 400 I = 1, N
          Sum1 = Sum1 + (X(I)*(Y(I) - B(1)*X(I)))**2
          Sum2 = Sum2 + (Y(I)*(Y(I) - B(2)*X(I)))**2
-- 
2.43.0


From 5489ebfbbe872ac3b53101301299d34344d56980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 80/86] fix: BCES error terms with correlated measurement
 errors and falling lines

---
 sandbox/regress/_regress.f | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index fa5e392..7ca5aee 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -82,10 +82,10 @@ c     with text.)
 c
       do 15 i=1,npts
          xi(i,1) = ( (y1(i)-y1av) * (y2(i)-b(1)*y1(i)-a(1)) + 
-     &        b(1)*y1err(i)**2 ) / (y1var-sig11var)
+     &        b(1)*y1err(i)**2 - cerr(i) ) / (y1var-sig11var)
          zeta(i,1) = y2(i) - b(1)*y1(i) - y1av*xi(i,1)
-         xi(i,2) = ( (y2(i)-y2av) * (y2(i)-b(2)*y1(i)-a(2)) - 
-     &        y2err(i)**2 ) / covar_y1y2
+         xi(i,2) = ( (y2(i)-y2av) * (y2(i)-b(2)*y1(i)-a(2)) + 
+     &        b(2)*cerr(i) - y2err(i)**2 ) / (covar_y1y2-sig12var)
          zeta(i,2) = y2(i) - b(2)*y1(i) - y1av*xi(i,2)
          xi(i,3) = xi(i,1) * 
      &        (1.+b(2)**2)*b(3) / 
@@ -95,8 +95,8 @@ c
      &        ((b(1)+b(2))*sqrt((1.+b(1)**2)*(1.+b(2)**2)))
          zeta(i,3) = y2(i) - b(3)*y1(i) - y1av*xi(i,3)
          xi(i,4) = xi(i,1) * 
-     &        b(4)/(b(1)**2*sqrt(4.+(b(2)-1./b(1))**2)) +
-     &        xi(i,2)*b(4)/sqrt(4.+(b(2)-1./b(1))**2)
+     &        sign*b(4)/(b(1)**2*sqrt(4.+(b(2)-1./b(1))**2)) +
+     &        xi(i,2)*sign*b(4)/sqrt(4.+(b(2)-1./b(1))**2)
          zeta(i,4) = y2(i) - b(4)*y1(i) - y1av*xi(i,4)
  15   continue
 c      
-- 
2.43.0


From d39c889825849069a8d2da744481de38702d8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 81/86] fix: sign of the BCES orthogonal line is that of the
 corrected covariance

---
 sandbox/regress/_regress.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/regress/_regress.f b/sandbox/regress/_regress.f
index 7ca5aee..2160b40 100644
--- a/sandbox/regress/_regress.f
+++ b/sandbox/regress/_regress.f
@@ -62,7 +62,7 @@ c
       b(3) = ( b(1)*b(2) - 1.0 
      &     + sqrt((1.0 + b(1)**2)*(1.0 + b(2)**2)) ) /
      &     (b(1)+b(2))
-      if ( covar_y1y2.lt.0. ) then
+      if ( covar_y1y2-sig12var .lt. 0. ) then
          sign = -1.
       else
          sign = 1.
-- 
2.43.0


From f32ca78e3244af9304c06cd516cf0e455548a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 82/86] fix: llike accepts a unit vector, and longitude and
 latitude

---
 sandbox/drxn/drxn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/drxn/drxn.py b/sandbox/drxn/drxn.py
index 3fdc0bf..c9117c6 100755
--- a/sandbox/drxn/drxn.py
+++ b/sandbox/drxn/drxn.py
@@ -131,8 +131,8 @@ class FDirection(Direction):
             uvec[0] = cos(ra) * cdec
             uvec[1] = sin(ra) * cdec
             uvec[2] = sin(dec)
-        elif uvec:
-            if long or lat or ra or dec:
+        elif uvec is not None:
+            if lng or lat or ra or dec:
                 raise ValueError('Use only long/lat OR ra/dec OR uvec!')
         return self.kappa*dot(uvec,self.uvec) - self.const
 
-- 
2.43.0


From a7398cd9fc79fb777472587377614c3853b4c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 83/86] fix: lsinhc keeps its precision at small and large
 arguments

---
 sandbox/drxn/fisher_coinc.f | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sandbox/drxn/fisher_coinc.f b/sandbox/drxn/fisher_coinc.f
index c1ab2bc..32f6358 100644
--- a/sandbox/drxn/fisher_coinc.f
+++ b/sandbox/drxn/fisher_coinc.f
@@ -196,10 +196,14 @@ c+++  Arguments:
 
 c+++  Locals:
 	real*8 log2
-	parameter (log2 = 0.6931471805599453)
+	parameter (log2 = 0.6931471805599453d0)
 
+	if (x .lt. 1.d-2) then
+	    lsinhc = x**2/6. - x**4/180.
+	    return
+	endif
 	lsinhc = x - log2 - log(x)
-	if (x .lt. 20.) lsinhc = lsinhc - exp(-2.*x)
+	if (x .lt. 20.) lsinhc = lsinhc + log(1. - exp(-2.*x))
 
 	return
 	end
-- 
2.43.0


From 87627f2bb18ff0b1200732c9691a1d6f727c516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 84/86] fix: derivative in sig_to_kappa has the right sign

---
 sandbox/drxn/fisher_coinc.f | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sandbox/drxn/fisher_coinc.f b/sandbox/drxn/fisher_coinc.f
index 32f6358..ddf37db 100644
--- a/sandbox/drxn/fisher_coinc.f
+++ b/sandbox/drxn/fisher_coinc.f
@@ -42,7 +42,7 @@ c---  the Gaussian (small angle) approximation as a starting guess.
 	num = 1. - ekc
 	f = num / den - C
 	kappa = kold -
-     *          f * den / (2.*num*ekk/den - arg*ekc)
+     *          f * den / (-2.*num*ekk/den - arg*ekc)
 	iter = iter + 1
 	if (abs(kappa-kold)/kappa .gt. eps) then
 	    kold = kappa
-- 
2.43.0


From ad691df53996847e6285c3a2423aadd72144d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:06 +0000
Subject: [PATCH 85/86] fix: a NaN metric is refused as not positive definite

---
 sandbox/bha/bhacalc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sandbox/bha/bhacalc.c b/sandbox/bha/bhacalc.c
index 9cad0bc..bfae2dd 100644
--- a/sandbox/bha/bhacalc.c
+++ b/sandbox/bha/bhacalc.c
@@ -234,7 +234,7 @@ bha_harmonicAnalysis (PyObject *self, PyObject *args) {
                 sum -= *(cfdata+an+m) * *(cfdata+bn+m);
             }
             if (a == b) {
-                if (sum <= 0.) {
+                if (!(sum > 0.)) {
                     PyErr_SetString(PyExc_ValueError,
                         "metric is not positive definite!");
                     goto FAIL;
@@ -403,7 +403,7 @@ bha_multipletAnalysis (PyObject *self, PyObject *args) {
                 sum -= *(cfdata+an+m) * *(cfdata+bn+m);
             }
             if (a == b) {
-                if (sum <= 0.) {
+                if (!(sum > 0.)) {
                     PyErr_SetString(PyExc_ValueError,
                         "metric is not positive definite!");
                     goto FAIL;
-- 
2.43.0


From 8a166cdaade998eb9f960392386875804fc0bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:00 +0000
Subject: [PATCH 86/86] fix: one-dimensional locations given as a column are
 passed to the signal as scalars

---
 package/inference/pie/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/package/inference/pie/gaussian.py b/package/inference/pie/gaussian.py
index 12aa1e6..2245e20 100644
--- a/package/inference/pie/gaussian.py
+++ b/package/inference/pie/gaussian.py
@@ -68,7 +68,7 @@ class SampledGaussianHandler(PredictorHandler):
         try:
             self.prdxns = self.owner.signals(self.locns)
         except NotImplementedError:
-            if self.dimen == 1:
+            if len(self.locns.shape) == 1:
                 self.prdxns = [self.owner.signal(locn) for locn in self.locns]
             else:
                 self.prdxns = [self.owner.signal(*locn) for locn in self.locns]
-- 
2.43.0

