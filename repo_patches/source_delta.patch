From 0f95e4d1b0016a6a5d5844c78b49f836e9d99727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 01/58] fix: Grid returns stale coordinates when a dimension
 changed and was queried first

---
 src/pyclaw/geometry.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 240b312..5d3a05e 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -211,6 +211,7 @@ class Grid(object):
         self._p_nodes = None
         self._c_centers = None
         self._c_nodes = None
+        self._cached_extent = None
 
         # Dimension parsing
         if isinstance(dimensions,Dimension):
@@ -227,6 +228,14 @@ class Grid(object):
         self._c_centers = None
         self._c_nodes = None
 
+    def _clear_outdated_values(self):
+        r"""Discard the cached coordinates if a dimension has changed since
+        they were computed."""
+        extent = [(dim.lower, dim.upper, dim.num_cells) for dim in self.dimensions]
+        if extent != self._cached_extent:
+            self._clear_cached_values()
+            self._cached_extent = extent
+
     # ========== Dimension Manipulation ======================================
     def add_dimension(self,dimension):
         r"""
@@ -280,8 +289,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        self._clear_outdated_values()
+        if recompute or (self._c_centers is None):
             index = np.indices(self.num_cells)
             self._c_centers = []
             for i,center_array in enumerate(self.get_dim_attribute('centers')):
@@ -293,8 +302,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._c_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        self._clear_outdated_values()
+        if recompute or (self._c_nodes is None):
             index = np.indices(n+1 for n in self.num_cells)
             self._c_nodes = []
             for i,edge_array in enumerate(self.get_dim_attribute('nodes')):
@@ -306,8 +315,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_centers is None) or \
-           any([c is None for c in self.get_dim_attribute('_centers')]):
+        self._clear_outdated_values()
+        if recompute or (self._p_centers is None):
             self._compute_c_centers(recompute=recompute)
             self._p_centers = self.mapc2p(*self._c_centers)
 
@@ -317,8 +326,8 @@ class Grid(object):
         :Input:
          - *recompute* - (bool) Whether to force a recompute of the arrays
         """
-        if recompute or (self._p_nodes is None) or \
-           any([c is None for c in self.get_dim_attribute('_nodes')]):
+        self._clear_outdated_values()
+        if recompute or (self._p_nodes is None):
             self._compute_c_nodes(recompute=recompute)
             self._p_nodes = self.mapc2p(*self._c_nodes)
 
-- 
2.43.0


From 959756aa47f7d441edf7dc9d451f125531fa4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:57 +0000
Subject: [PATCH 02/58] fix: Grid.c_center/p_center return one cell's center
 (index with a tuple)

---
 src/pyclaw/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 5d3a05e..fb50c9d 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -334,7 +334,7 @@ class Grid(object):
     def c_center(self,ind):
         r"""Compute center of computational cell with index ind."""
 
-        index = [np.array(i) for i in ind]
+        index = tuple(np.array(i) for i in ind)
         return np.array([self.c_centers[i][index] for i in range(self.num_dim)])
 
     def p_center(self,ind):
-- 
2.43.0


From 12711f9c45803fdf84da8a46c6295e6842b77462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:01 +0000
Subject: [PATCH 03/58] fix: superbee_limiter is bounded by min(r,2), not
 min(r,0)

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 223be46..d2d2718 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -157,7 +157,7 @@ def superbee_limiter(r,cfl):
     Superbee vectorized limiter
     """
     a = np.ones((2,len(r)))
-    b = np.zeros((2,len(r)))
+    b = 2.0*np.ones((2,len(r)))
     c = np.zeros((3,len(r)))
 
     a[1,:] = 2.0*r
-- 
2.43.0


From e31f8b012d95acc8012ebeea3a90443a828b1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 04/58] fix: beta, Cada-Torrilhon and upper bound limiters act
 on each element separately

---
 src/pyclaw/limiters/tvd.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index d2d2718..658d3e4 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -323,17 +323,17 @@ def beta_limiter(r,cfl,theta=0.95,beta=0.66666666666666666):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
-    ultra = np.max(b)
+    b[1,:] = np.min(a,axis=0)
+    ultra = np.max(b,axis=0)
     
     a[0,:] = 1.0 + (s2 - beta/2.0) * (r-1.0)
     a[1,:] = 1.0 + (s2 + beta/2.0) * (r-1.0)
     b[0,:] = ultra
-    b[1,:] = np.max(a)
+    b[1,:] = np.max(a,axis=0)
     a[0,:] = 0.0
-    a[1,:] = np.min(b)
+    a[1,:] = np.min(b,axis=0)
     
-    return np.max(a)
+    return np.max(a,axis=0)
 
 
 def hyperbee_limiter(r,cfl):
@@ -387,20 +387,20 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b = np.empty((3,len(r)))
 
     a[0,:] = cfl
-    cfl = np.min(a)
+    a[0,:] = np.min(a,axis=0)
     a[1,:] = 0.05
-    cfl = np.max(a)
+    cfl = np.max(a,axis=0)
     
     # Multiply all parts except b[0,:] by (1.0 - epsilon) as well
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
     b[1,::2] *= (1.0 - epsilon)
-    a[0,:] = np.min(b)
+    a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
     
-    return np.max(a)
+    return np.max(a,axis=0)
     
 def cada_torrilhon_limiter_nonlinear(r,cfl):
     r"""
@@ -413,10 +413,10 @@ def cada_torrilhon_limiter_nonlinear(r,cfl):
     a[0,:] = 1.0 + s2 * (r - 1.0)
     a[1,:] = 2.0 * np.abs(r) / (0.6 + np.abs(r))
     a[2,:] = 5.0 / np.abs(r)
-    b[0,:] = np.min(a)
+    b[0,:] = np.min(a,axis=0)
     b[1,:] = -3.0 / np.abs(r)
     
-    return np.max(b)
+    return np.max(b,axis=0)
     
 def upper_bound_limiter(r,cfl,theta=1.0):
     r"""
@@ -439,9 +439,9 @@ def upper_bound_limiter(r,cfl,theta=1.0):
     
     a[0,:] = s1*r
     a[1,:] = phimax
-    b[1,:] = np.min(a)
+    b[1,:] = np.min(a,axis=0)
     
-    return np.max(b)
+    return np.max(b,axis=0)
 
 
 # ============================================================================
-- 
2.43.0


From cf87ea85a5e65a03111da259f37589c79a3e4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 05/58] fix: cada_torrilhon_limiter scales every element of its
 upper bounds, as commented

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 658d3e4..85695a4 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -395,7 +395,7 @@ def cada_torrilhon_limiter(r,cfl,epsilon=1.0e-3):
     b[0,:] = 1.0 + (1+cfl) / 3.0 * (r - 1)
     b[1,:] = 2.0 * np.abs(r) / (cfl + epsilon)
     b[2,:] = (8.0 - 2.0 * cfl) / (np.abs(r) * (cfl - 1.0 - epsilon)**2)
-    b[1,::2] *= (1.0 - epsilon)
+    b[1:,:] *= (1.0 - epsilon)
     a[0,:] = np.min(b,axis=0)
     a[1,:] = (-2.0 * (cfl**2 - 3.0 * cfl + 8.0) * (1.0-epsilon)
                     / (np.abs(r) * (cfl**3 - cfl**2 - cfl + 1.0 + epsilon)))
-- 
2.43.0


From 74fa8e61377cdd139520507977f544587dceb5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:36 +0000
Subject: [PATCH 06/58] fix: limiter 17 (beta=2/3) was identically zero;
 without theta means theta=1

---
 src/pyclaw/limiters/tvd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/limiters/tvd.py b/src/pyclaw/limiters/tvd.py
index 85695a4..d94360d 100644
--- a/src/pyclaw/limiters/tvd.py
+++ b/src/pyclaw/limiters/tvd.py
@@ -463,7 +463,7 @@ limiter_functions = {1:minmod_limiter,
                      14:lambda r,cfl:theta_limiter(r,cfl,0.5),
                      15:cfl_superbee,
                      16:cfl_superbee_theta,
-                     17:lambda r,cfl:beta_limiter(r,cfl,theta=0.0),
+                     17:lambda r,cfl:beta_limiter(r,cfl,theta=1.0),
                      18:beta_limiter,
                      19:hyperbee_limiter,
                      20:superpower_limiter,
-- 
2.43.0


From 6831f06d1558296105563274ca797cc323ae39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:48 +0000
Subject: [PATCH 07/58] fix: 3D dimensional splitting sweeps all ghost rows

The y and z sweeps limit waves with values two cells outside the domain,
which the x and y sweeps had not updated, so that a second-order split step
was not conservative at periodic boundaries (step2ds already does this).
---
 src/pyclaw/classic/step3ds.f90 | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyclaw/classic/step3ds.f90 b/src/pyclaw/classic/step3ds.f90
index f9f2729..7a334d8 100644
--- a/src/pyclaw/classic/step3ds.f90
+++ b/src/pyclaw/classic/step3ds.f90
@@ -130,9 +130,10 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
     
         ! perform x-sweeps
         ! ==================
+        ! (also in all ghost rows, which the limiters of the later sweeps use)
     
-        do k = 0,mz+1
-            do j = 0,my+1
+        do k = 1-num_ghost,mz+num_ghost
+            do j = 1-num_ghost,my+num_ghost
             
                 forall (m = 1:num_eqn, i = 1-num_ghost:mx+num_ghost)
                     ! copy data along a slice into 1d array:
@@ -148,8 +149,8 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
                 ! Since dimensional splitting is used, only aux2 is needed.
             
                 if (num_aux > 0)  then
-                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost, ka = -1:1)
-                    aux2(ma,i,2+ka) = aux(ma,i,j,k+ka)
+                    forall (ma=1:num_aux,i= 1-num_ghost:mx+num_ghost)
+                    aux2(ma,i,2) = aux(ma,i,j,k)
                     end forall
                 endif
             
@@ -212,7 +213,7 @@ subroutine step3ds(maxm,num_eqn,num_waves,num_ghost,mx,my, &
         ! perform y sweeps
         ! ==================
     
-        do k = 0, mz+1
+        do k = 1-num_ghost, mz+num_ghost
             do i = 0, mx+1
             
                 forall (m = 1:num_eqn, j = 1-num_ghost:my+num_ghost)
-- 
2.43.0


From 5acd4f5c8d7ce7cea92671983b1a160f85e8bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 08/58] fix: evolve_to_time no longer overwrites
 solver.max_steps

Asking for a time already reached set max_steps to 0, and a run with fixed
steps set it to its own number of steps, so that every later call with
variable steps failed. With nothing to do, return at once (also with a fixed
step), and log one message instead of a malformed one.
---
 src/pyclaw/solver.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 72ce8e1..d35c07c 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -581,28 +581,28 @@ class Solver(object):
         tstart = solution.t
 
         num_steps = 0
+        max_steps = self.max_steps
 
         # Setup for the run
+        if not take_one_step and tend <= tstart:
+            self.logger.info("Already at or beyond end time: no evolution "
+                             "required.")
+            return self.status
         if not self.dt_variable:
             if take_one_step:
-                self.max_steps = 1
+                max_steps = 1
             else:
-                self.max_steps = int((tend - tstart + 1e-10) / self.dt)
-                if abs(self.max_steps*self.dt - (tend - tstart)) >      \
+                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
                                     'is fixed!')
         if self.dt_variable == 1 and self.cfl_desired > self.cfl_max:
             raise Exception('Variable time-stepping and desired CFL > maximum '
                             'CFL')
-        if not take_one_step:
-            if tend <= tstart:
-                self.logger.info("Already at or beyond end time: no evolution ",
-                                 "required.")
-                self.max_steps = 0
 
         # Main time-stepping loop
-        for n in range(self.max_steps):
+        for n in range(max_steps):
 
             state = solution.state
 
@@ -660,7 +660,7 @@ class Solver(object):
 
         if not take_one_step:
             if self.dt_variable and solution.t < tend \
-                    and num_steps == self.max_steps:
+                    and num_steps == max_steps:
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From 0255d23f4660be1347b11035f40fb4ac697c43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 09/58] fix: rejected steps no longer end evolve_to_time short
 of its goal

A rejected step counts towards max_steps but not in num_steps, so a run that
used up max_steps with one rejection returned silently before tend. With no
tend, a rejected step was not retried and no step was taken at all.
---
 src/pyclaw/solver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index d35c07c..596a33d 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -652,15 +652,15 @@ class Solver(object):
 
             # See if we are finished yet
             if take_one_step:
-                break
+                if num_steps == 1:
+                    break
             elif solution.t >= tend:
                 break
 
         # End of main time-stepping loop -------------------------------------
 
-        if not take_one_step:
-            if self.dt_variable and solution.t < tend \
-                    and num_steps == max_steps:
+        if self.dt_variable:
+            if num_steps == 0 or (not take_one_step and solution.t < tend):
                 raise Exception("Maximum number of timesteps have been taken")
 
         return self.status
-- 
2.43.0


From e82f60c3b27f0b529b2110b5a0b42c9773dd1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 10/58] fix: dt_max also limits the first step and the steps of
 SharpClaw

---
 src/pyclaw/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 596a33d..fa853c6 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -544,6 +544,9 @@ class Solver(object):
         else:
             self.dt_old = self.dt
 
+        if self.dt_variable:
+            self.dt = min(self.dt, self.dt_max)
+
         # Adjust dt so that we hit tend exactly if we are near tend
         if not take_one_step:
             if t + self.dt > tend and tstart < tend:
-- 
2.43.0


From cadba592cc8ef423cb514ec6e3f1eb110f35c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 11/58] fix: source term is applied when the Courant number
 equals cfl_max

evolve_to_time keeps such a step, but ClawSolver.step returned before its
source term.
---
 src/pyclaw/classic/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index e2fec21..0439171 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -131,7 +131,7 @@ class ClawSolver(Solver):
         # Check here if the CFL condition is satisfied. 
         # If not, return # immediately to evolve_to_time and let it deal with
         # picking a new step size (dt).
-        if self.cfl.get_cached_max() >= self.cfl_max:
+        if self.cfl.get_cached_max() > self.cfl_max:
             return False
 
         if self.step_source is not None:
-- 
2.43.0


From e2a7ad3c1b9aaa319e70988398b0b20e51e56330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 12/58] fix: copies of a State keep the capacity index, p, F
 and gauge data

A copied state lost index_capa, so that a copied solution evolved without
its capacity function, and so did the later stages of SharpClaw's Runge-Kutta
methods (which are copies) with the Python kernels.
---
 src/pyclaw/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 9608b0b..682be98 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -312,7 +312,7 @@ class State(object):
         result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
         
-        for attr in ('t'):
+        for attr in ('t','index_capa','p','F','keep_gauges','gauge_data'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
         
         if self.q is not None:
-- 
2.43.0


From 7e814ca4c59910603a0e7f2918bcb18da7bf29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 13/58] fix: the domain of a copied Solution consists of the
 patches of its states

as it does in the original; it was a second, unrelated copy.
---
 src/pyclaw/geometry.py | 3 +--
 src/pyclaw/solution.py | 4 ++--
 src/pyclaw/state.py    | 3 +--
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index fb50c9d..aec672e 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -818,8 +818,7 @@ class Domain(object):
 
     def __deepcopy__(self,memo={}):
         import copy
-        result = self.__class__(copy.deepcopy(self.patches))
-        result.__init__(copy.deepcopy(self.patches))
+        result = self.__class__(copy.deepcopy(self.patches,memo))
 
         return result
 
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 08d209b..b47c93b 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -243,8 +243,8 @@ class Solution(object):
         
         # Populate the states
         for state in self.states:
-            result.states.append(copy.deepcopy(state))
-        result.domain = copy.deepcopy(self.domain)
+            result.states.append(copy.deepcopy(state,memo))
+        result.domain = copy.deepcopy(self.domain,memo)
         
         return result
     
diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 682be98..81eae97 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -309,8 +309,7 @@ class State(object):
         
     def __deepcopy__(self,memo={}):
         import copy
-        result = self.__class__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
-        result.__init__(copy.deepcopy(self.patch),self.num_eqn,self.num_aux)
+        result = self.__class__(copy.deepcopy(self.patch,memo),self.num_eqn,self.num_aux)
         
         for attr in ('t','index_capa','p','F','keep_gauges','gauge_data'):
             setattr(result,attr,copy.deepcopy(getattr(self,attr)))
-- 
2.43.0


From ca4dfdf8b23b840e76711cae49ea331cd9e9409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 14/58] fix: Solution((num_eqn,num_aux),domain) makes a list of
 states

---
 src/pyclaw/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index b47c93b..9e34c33 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -167,7 +167,7 @@ class Solution(object):
                     # List of States
                     self.states = arg[0]
                 elif isinstance(arg[0][0],int):
-                    self.states = State(self.domain,arg[0][0],arg[0][1])
+                    self.states.append(State(self.domain,arg[0][0],arg[0][1]))
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
             elif isinstance(arg[0],int):
-- 
2.43.0


From 85b761ae8e9cdbe43dd08649e51f6b46fb68e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 15/58] fix: Solution accepts a single Dimension or Patch, as
 documented

---
 src/pyclaw/solution.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 9e34c33..147a608 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -149,12 +149,13 @@ class Solution(object):
             if isinstance(arg[1],Domain):
                 self.domain = arg[1]
             else:
-                if not isinstance(arg[1],(list,tuple)):
-                    arg[1] = list(arg[1])
-                if isinstance(arg[1][0],Dimension):
-                    self.domain = Domain(Patch(arg[1]))
-                elif isinstance(arg[1][0],Patch):
-                    self.domain = Domain(arg[1])
+                geom = arg[1]
+                if not isinstance(geom,(list,tuple)):
+                    geom = [geom]
+                if isinstance(geom[0],Dimension):
+                    self.domain = Domain(Patch(geom))
+                elif isinstance(geom[0],Patch):
+                    self.domain = Domain(geom)
                 else:
                     raise Exception("Invalid arguments for Solution initialization.")
 
-- 
2.43.0


From 014c0e2d04db916265d865c03ab0b22245373ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:08 +0000
Subject: [PATCH 16/58] fix: SharpClaw Fortran kernels use the capacity of the
 cell itself

dtdx = array reallocated dtdx with lower bound 1, so that dtdx(i) held the
value of cell i-num_ghost and dtdx(0) was read out of bounds.
---
 src/pyclaw/sharpclaw/flux1.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index e631ada..bb82973 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -57,7 +57,8 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
     dq1d(:,:) = 0.d0
 
     if (index_capa.gt.0) then
-        dtdx = dt / (dx(ixyz)*aux(index_capa,:))
+        ! Not 'dtdx = ...', which would reallocate dtdx with lower bound 1
+        dtdx(1-num_ghost:mx+num_ghost) = dt / (dx(ixyz)*aux(index_capa,:))
     else
         dtdx = dt / dx(ixyz)
     endif
-- 
2.43.0


From 4c805c912bc03f430cae1ba9738a37da388247c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:37 +0000
Subject: [PATCH 17/58] fix: several live solvers no longer disturb each
 other's Fortran module data

A second SharpClaw solver of the same dimension ended the process (arrays
allocated twice) or freed the arrays of the first, and solvers sharing a
Riemann solver used each other's cparam values.
---
 src/pyclaw/classic/solver.py         |  9 +++++++
 src/pyclaw/sharpclaw/ClawParams.f90  |  1 +
 src/pyclaw/sharpclaw/reconstruct.f90 | 39 ++++++++--------------------
 src/pyclaw/sharpclaw/solver.py       | 28 +++++++++++++++++---
 src/pyclaw/sharpclaw/workspace.f90   |  3 ++-
 src/pyclaw/solver.py                 |  9 +++++++
 6 files changed, 56 insertions(+), 33 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 0439171..3005781 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -233,6 +233,15 @@ class ClawSolver(Solver):
         solution.state.set_cparam(self.fmod)
         solution.state.set_cparam(self.rp)
 
+    def _restore_fortran_parameters(self,state):
+        r"""
+        Set the cparam common block again: another solver may have used the
+        same Riemann solver since this one was set up.
+        """
+        if(self.kernel_language == 'Fortran'):
+            state.set_cparam(self.fmod)
+            state.set_cparam(self.rp)
+
     def __del__(self):
         r"""
         Delete Fortran objects, which otherwise tend to persist in Python sessions.
diff --git a/src/pyclaw/sharpclaw/ClawParams.f90 b/src/pyclaw/sharpclaw/ClawParams.f90
index b1e2835..491db5b 100644
--- a/src/pyclaw/sharpclaw/ClawParams.f90
+++ b/src/pyclaw/sharpclaw/ClawParams.f90
@@ -17,6 +17,7 @@ contains
 
     subroutine alloc_clawparams()
 
+        call dealloc_clawparams()
         allocate(xlower(num_dim))
         allocate(xupper(num_dim))
         allocate(dx(num_dim))
diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 4db6953..e45c443 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -18,6 +18,7 @@ contains
     subroutine alloc_recon_workspace(maxnx,num_ghost,num_eqn,num_waves,lim_type,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp,lim_type
 
+        call dealloc_recon_workspace(lim_type,char_decomp)
         select case(lim_type)
             case(1)
             select case(char_decomp)
@@ -57,34 +58,16 @@ contains
     subroutine dealloc_recon_workspace(lim_type,char_decomp)
         integer,intent(in) :: lim_type,char_decomp
 
-        select case(lim_type)
-            case(1)
-            select case(char_decomp)
-                case(1) ! Storage for tvd2_wave()
-                    deallocate(uu)
-                case(2) ! Storage for tvd2_char()
-                    deallocate(dq)
-                    deallocate( u)
-                    deallocate(hh)
-            end select
-            case(2)
-             select case(char_decomp)
-                case(0)
-                    deallocate(uu)
-                    deallocate(dq1m)
-                case(2) ! Storage for weno5_char
-                    deallocate(dq)
-                    deallocate(uu)
-                    deallocate(hh)
-                case(3) ! Storage for weno5_trans
-                    deallocate(dq)
-                    deallocate(gg)
-                    deallocate( u)
-                    deallocate(hh)
-                    deallocate(uh)
-            end select
-            recon_alloc = .False.
-        end select
+        ! Whatever is there may have been allocated with other values of
+        ! lim_type and char_decomp.
+        if (allocated(uu)) deallocate(uu)
+        if (allocated(dq1m)) deallocate(dq1m)
+        if (allocated(dq)) deallocate(dq)
+        if (allocated(u)) deallocate(u)
+        if (allocated(hh)) deallocate(hh)
+        if (allocated(gg)) deallocate(gg)
+        if (allocated(uh)) deallocate(uh)
+        recon_alloc = .False.
     end subroutine dealloc_recon_workspace
 
 ! ===================================================================
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7f991e6..d0d6a0f 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -153,6 +153,9 @@ class SharpClawSolver(Solver):
     # ========================================================================
     #   Initialization routines
     # ========================================================================
+    # Which solver last set the data of each Fortran module
+    _fortran_owner = {}
+
     def __init__(self,riemann_solver=None,claw_package=None):
         r"""
         Set default options for SharpClawSolvers and call the super's __init__().
@@ -270,10 +273,13 @@ class SharpClawSolver(Solver):
         Deallocate F90 module arrays.
         Also delete Fortran objects, which otherwise tend to persist in Python sessions.
         """
-        if self.kernel_language=='Fortran':
-            self.fmod.clawparams.dealloc_clawparams()
-            self.fmod.workspace.dealloc_workspace(self.char_decomp)
-            self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+        if self.kernel_language=='Fortran' and self.fmod is not None:
+            # The arrays may belong to another solver by now
+            if self._fortran_owner.get(self.fmod.__name__) == id(self):
+                self.fmod.clawparams.dealloc_clawparams()
+                self.fmod.workspace.dealloc_workspace(self.char_decomp)
+                self.fmod.reconstruct.dealloc_recon_workspace(self.fmod.clawparams.lim_type,self.fmod.clawparams.char_decomp)
+                del self._fortran_owner[self.fmod.__name__]
             del self.fmod
 
         super(SharpClawSolver,self).__del__()
@@ -565,6 +571,7 @@ class SharpClawSolver(Solver):
         Set parameters for Fortran modules used by SharpClaw.
         The modules should be imported and passed as arguments to this function.
         """
+        self._fortran_owner[self.fmod.__name__] = id(self)
         grid = state.grid
         clawparams.num_dim       = grid.num_dim
         clawparams.lim_type      = self.lim_type
@@ -588,6 +595,19 @@ class SharpClawSolver(Solver):
                                             clawparams.lim_type,clawparams.char_decomp)
 
 
+    def _restore_fortran_parameters(self,state):
+        r"""
+        Set the Fortran module data again if another solver used the modules
+        since this one was set up.
+        """
+        if self.kernel_language=='Fortran':
+            state.set_cparam(self.fmod)
+            state.set_cparam(self.rp)
+            state.set_cparam(self.tfluct)
+            if self._fortran_owner.get(self.fmod.__name__) != id(self):
+                self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+
+
     def _allocate_registers(self,solution):
         r"""
         Instantiate State objects for Runge--Kutta stages and Linear Multistep method steps.
diff --git a/src/pyclaw/sharpclaw/workspace.f90 b/src/pyclaw/sharpclaw/workspace.f90
index 6dde6e4..f264b02 100644
--- a/src/pyclaw/sharpclaw/workspace.f90
+++ b/src/pyclaw/sharpclaw/workspace.f90
@@ -16,6 +16,7 @@ contains
     subroutine alloc_workspace(maxnx,num_ghost,num_eqn,num_waves,char_decomp)
         integer,intent(in) :: maxnx,num_ghost,num_eqn,num_waves,char_decomp
 
+        call dealloc_workspace(char_decomp)
         allocate(ql(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(qr(num_eqn,1-num_ghost:maxnx+num_ghost))
         allocate(amdq(num_eqn,1-num_ghost:maxnx+num_ghost))
@@ -50,7 +51,7 @@ contains
             deallocate(s)
             deallocate(dtdx)
 
-            if (char_decomp>1) then
+            if (allocated(evl)) then
                 deallocate(evl)
                 deallocate(evr)
             endif
diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index fa853c6..1712dad 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -309,6 +309,13 @@ class Solver(object):
         """
         self._is_set_up = False
 
+    def _restore_fortran_parameters(self,state):
+        r"""
+        Restore data kept in Fortran modules that other solvers may have
+        changed since this solver was set up.  Called by evolve_to_time.
+        """
+        pass
+
     def __str__(self):
         output = "Solver Status:\n"
         for (k,v) in self.status.items():
@@ -574,6 +581,8 @@ class Solver(object):
 
         if not self._is_set_up:
             self.setup(solution)
+        else:
+            self._restore_fortran_parameters(solution.state)
 
         if tend is None:
             take_one_step = True
-- 
2.43.0


From cf6c8fc187627c25e7680952fe3b903c47297fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 18/58] fix: before_step gets the stage value in general
 Runge-Kutta methods

It was called before the stage value was computed.
---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index d0d6a0f..adf9763 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -342,10 +342,10 @@ class SharpClawSolver(Solver):
             for i in range(1,num_stages):
                 self._registers[i].q[:] = state.q
                 self._registers[i].t = state.t + self.dt*self.c[i]
-                if self.call_before_step_each_stage:
-                    self.before_step(self,self._registers[i])
                 for j in range(i):
                     self._registers[i].q += self.a[i,j]*self._registers[j].q
+                if self.call_before_step_each_stage:
+                    self.before_step(self,self._registers[i])
 
                 # self._registers[i].q eventually stores dt*f(y_i) after stage solution y_i is computed
                 self._registers[i].q = self.dq(self._registers[i])
-- 
2.43.0


From e68f6c01a189d8cfb4ca00ea6889dc9014f01ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:19 +0000
Subject: [PATCH 19/58] fix: frames of derived quantities state the number of
 components they contain

---
 src/pyclaw/fileio/ascii.py | 5 ++++-
 src/pyclaw/fileio/hdf5.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 39e3cb6..244ebac 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -42,7 +42,10 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
         f.write("%18.8e     time\n" % solution.t)
-        f.write("%5i                  num_eqn\n" % solution.num_eqn)
+        if write_p:
+            f.write("%5i                  num_eqn\n" % solution.mp)
+        else:
+            f.write("%5i                  num_eqn\n" % solution.num_eqn)
         f.write("%5i                  nstates\n" % len(solution.states))
         f.write("%5i                  num_aux\n" % solution.num_aux)
         f.write("%5i                  num_dim\n" % solution.domain.num_dim)
diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 69e2c54..b0b901f 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -111,7 +111,10 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
 
                 # General patch properties
                 subgroup.attrs['t'] = state.t
-                subgroup.attrs['num_eqn'] = state.num_eqn
+                if write_p:
+                    subgroup.attrs['num_eqn'] = state.mp
+                else:
+                    subgroup.attrs['num_eqn'] = state.num_eqn
                 subgroup.attrs['num_aux'] = state.num_aux
                 for attr in ['num_ghost','patch_index','level']:
                     if hasattr(patch,attr):
-- 
2.43.0


From 0d722aecfcd9866c57362609ad042b956163bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:19 +0000
Subject: [PATCH 20/58] fix: reading and writing frames leaves the caller's
 options alone

---
 src/pyclaw/fileio/hdf5.py | 4 ++--
 src/pyclaw/solution.py    | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index b0b901f..22ef83d 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -94,8 +94,8 @@ def write(solution,frame,path,file_prefix='claw',write_aux=False,
     """
     option_defaults = {'compression':None,'compression_opts':None,
                        'chunks':None,'shuffle':False,'fletcher32':False}
-    for (k,v) in option_defaults.items():
-        options[k] = options.get(k,v)
+    # Do not modify the caller's dictionary
+    options = dict(option_defaults, **options)
     
     filename = os.path.join(path,'%s%s.hdf' % 
                                 (file_prefix,str(frame).zfill(4)))
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 147a608..2ffb16c 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -351,6 +351,7 @@ class Solution(object):
 
         read_func = self.get_read_func(file_format)
 
+        options = dict(options)  # do not modify the caller's dictionary
         if file_format == 'petsc':
             options['format'] = 'binary'
         else:
-- 
2.43.0


From e349a3756758b29c841817c62e1830e08b2fce9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:19 +0000
Subject: [PATCH 21/58] fix: patches of an HDF5 frame are read in the order of
 their index

---
 src/pyclaw/fileio/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 22ef83d..776b57d 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -172,7 +172,9 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
     if use_h5py:
         with h5py.File(filename,'r') as f:
         
-            for patch in f.values():
+            # Groups are stored by name, patch10 before patch2
+            for patch in sorted(f.values(),
+                                key=lambda group: group.attrs['patch_index']):
                 # Construct each dimension
                 dimensions = []
                 dim_names = np.array(patch.attrs["dimensions"]).astype(str)
-- 
2.43.0


From c7dc5ff2d3f7520f4a9f239337516ab1cfd57776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:19 +0000
Subject: [PATCH 22/58] fix: binary frames without ghost cells keep their
 auxiliary values

---
 src/pyclaw/fileio/binary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/binary.py b/src/pyclaw/fileio/binary.py
index 6604815..0c7fdba 100644
--- a/src/pyclaw/fileio/binary.py
+++ b/src/pyclaw/fileio/binary.py
@@ -190,7 +190,9 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
             auxpatch = np.reshape(auxpatch, aux_shape, order='F')
 
             # Fill in aux values
-            if patch.num_dim == 1:
+            if mbc == 0 and patch.num_dim <= 3:
+                state.aux = auxpatch
+            elif patch.num_dim == 1:
                 ##  NOT YET TESTED ##
                 state.aux = auxpatch[:,mbc:-mbc]
             elif patch.num_dim == 2:
-- 
2.43.0


From b8bfae1d3779f522717f328095198a77a762351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:43 +0000
Subject: [PATCH 23/58] fix: reading a frame replaces the states of a Solution
 instead of adding to them

---
 src/pyclaw/solution.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 2ffb16c..57d031d 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -358,11 +358,17 @@ class Solution(object):
             options['format'] = file_format
 
         path = os.path.expandvars(os.path.expanduser(path))
-        if file_prefix is None:
-            read_func(self,frame,path,read_aux=read_aux,options=options)
-        else:
-            read_func(self,frame,path,file_prefix=file_prefix,
-                                    read_aux=read_aux,options=options)
+        # The frame replaces whatever this Solution contained
+        old_states, self.states = self.states, []
+        try:
+            if file_prefix is None:
+                read_func(self,frame,path,read_aux=read_aux,options=options)
+            else:
+                read_func(self,frame,path,file_prefix=file_prefix,
+                                        read_aux=read_aux,options=options)
+        except:
+            self.states = old_states
+            raise
         logging.getLogger('pyclaw.fileio').info("Read in solution for time t=%s" % self.t)
 
 
-- 
2.43.0


From 00fa382b45ad8a39c6f1a1b514b14c339b0c33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:58 +0000
Subject: [PATCH 24/58] fix: writing VTK output no longer adds a component to
 the solution; levels in any order

---
 src/pyclaw/fileio/claw_vtk.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index e4c3785..d137aa1 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -111,7 +111,7 @@ def write(
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-    _set_overlapped_status(solution)
+    overlapped_status = _get_overlapped_status(solution)
 
     global_origin = solution.state.patch.lower_global + [0.]  # base patch
     levels = [state.patch.level-1 for state in solution.states]
@@ -143,12 +143,14 @@ def write(
     amr.SetOrigin(global_origin)
 
     # get states and initialize the global index (used below)
-    states_sorted = sorted(solution.states, key=lambda a: a.patch.level)
+    order = sorted(range(len(levels)), key=lambda i: levels[i])
+    states_sorted = [solution.states[i] for i in order]
+    status_sorted = [overlapped_status[i] for i in order]
     global_index = 0
 
     # for each AMR level create the vtkAMRBox and vtkUniformGrid and add to
     # the vtkOverlappingAMR object.
-    for level in level_count.keys():
+    for level in sorted(level_count.keys()):
         # get number of blocks per level.
         nblocks = blocksPerLevel[level]
 
@@ -180,11 +182,9 @@ def write(
             # Set the data of the vtkUniformGrid
 
             # get the cell data, and add each to the uniform grid.
-            # ignore the last element of q, which provides info about overlapping.
-            # it is set next.
             q = states_sorted[local_index].q
 
-            for i in range(q.shape[0]-1):
+            for i in range(q.shape[0]):
                 array_name = "q_"+str(i)
                 q_i = q[i, ...]
                 q_i = q_i.transpose()
@@ -203,8 +203,7 @@ def write(
                 grid.GetCellData().AddArray(array)
 
             # mark overlapping cells using the vtkGhostType array name.
-            q_ol = q[-1, ...]  # last piece is used to mark overlapped cells
-            q_ol = q_ol.transpose()
+            q_ol = status_sorted[local_index].transpose()
             array = numpy_support.numpy_to_vtk(q_ol.ravel(), deep=True, array_type=vtk.VTK_UNSIGNED_CHAR)
             array.SetName("vtkGhostType")
             # add the array to the uniform grid.
@@ -233,7 +232,7 @@ def write(
     assert success == 1
 
 
-def _set_overlapped_status(sol):
+def _get_overlapped_status(sol):
     """
     return a list, overlapped_states,
     whose entries denote overlapped status for each patch.
@@ -242,8 +241,8 @@ def _set_overlapped_status(sol):
     @param sol: Solution object of pyclaw that contains all information
                 of this time step.
     @rtype:     list
-    @return:    add a component to the solution q,
-                which contains overlapped status of each patch
+    @return:    an array with the overlapped status of each cell,
+                for each patch
 
     @type level_count:       dictionary
     @variable level_count:   a dictionary that maps levels
@@ -276,6 +275,7 @@ def _set_overlapped_status(sol):
                             key=lambda a: a[0])]
     box_per_level = np.array(box_per_level)
 
+    overlapped_states = []
     for state in sol.states:
         level = state.patch.level-1
         xlower_coarse = state.patch.dimensions[0].lower
@@ -289,7 +289,7 @@ def _set_overlapped_status(sol):
         # in overlapped_status, entry with value 0 denotes
         # that the cell is not overlapped
         # entry with value 8 denotes that the cell is overlapped
-        overlapped_status = np.zeros((1, state.q.shape[1], state.q.shape[2]))
+        overlapped_status = np.zeros((state.q.shape[1], state.q.shape[2]))
         # convert from Fortran-Style to C-style
         # overlapped_status = overlapped_status.transpose(0, 2, 1)
         # In the future, efficiency of this part can be improved
@@ -316,11 +316,10 @@ def _set_overlapped_status(sol):
                     min(int(round((yupper_fine-ylower_fine)/dy)) +
                         y_idx_lower, ny)
                 # set these cells to 8
-                overlapped_status[0, x_idx_lower:x_idx_upper,
+                overlapped_status[x_idx_lower:x_idx_upper,
                                   y_idx_lower:y_idx_upper].fill(8)
 
             else:
                 continue
-        # state.q is in fortran style
-        # state.q = np.vstack((state.q, overlapped_status.transpose(0, 2, 1)))
-        state.q = np.vstack((state.q, overlapped_status))
+        overlapped_states.append(overlapped_status)
+    return overlapped_states
-- 
2.43.0


From e6e7259f749c5a3b0c8f175ace1bf3ce319c736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:58 +0000
Subject: [PATCH 25/58] fix: VTK output marks only the cells that a finer patch
 covers

---
 src/pyclaw/fileio/claw_vtk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index d137aa1..97a4d11 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -307,14 +307,14 @@ def _get_overlapped_status(sol):
                     max(int(round((xlower_fine - xlower_coarse) /
                             float(dx))), 0)
                 x_idx_upper = \
-                    min(int(round((xupper_fine-xlower_fine)/dx)) +
-                        x_idx_lower, nx)
+                    max(min(int(round((xupper_fine - xlower_coarse) /
+                            float(dx))), nx), 0)
                 y_idx_lower = \
                     max(int(round((ylower_fine - ylower_coarse) /
                             float(dy))), 0)
                 y_idx_upper = \
-                    min(int(round((yupper_fine-ylower_fine)/dy)) +
-                        y_idx_lower, ny)
+                    max(min(int(round((yupper_fine - ylower_coarse) /
+                            float(dy))), ny), 0)
                 # set these cells to 8
                 overlapped_status[x_idx_lower:x_idx_upper,
                                   y_idx_lower:y_idx_upper].fill(8)
-- 
2.43.0


From 53a3b5e5e58ddbc557370136b374bfad1e025c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:58 +0000
Subject: [PATCH 26/58] fix: a Controller can write VTK output

---
 src/pyclaw/fileio/claw_vtk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/fileio/claw_vtk.py b/src/pyclaw/fileio/claw_vtk.py
index 97a4d11..9b7719f 100644
--- a/src/pyclaw/fileio/claw_vtk.py
+++ b/src/pyclaw/fileio/claw_vtk.py
@@ -9,6 +9,7 @@ import sys
 import os
 import numpy as np
 from clawpack.pyclaw import Solution
+from clawpack.pyclaw.util import FrameCounter
 
 import logging
 
@@ -104,10 +105,12 @@ def write(
         - Consider making an equivalent vtk.read function.
     """
     # get options from the options dictionary.
+    if options is None:
+        options = {}
     binary = options.get("binary", False)
 
     # check types.
-    assert(isinstance(frame, int))
+    assert(isinstance(frame, (int, FrameCounter)))
     assert(isinstance(solution, Solution))
 
     # calculate overlapped status, used to identify some cells as ghosts.
-- 
2.43.0


From ef8f845ad605de6abb07ca99f2092fd8eef326c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:21 +0000
Subject: [PATCH 27/58] fix: the format of a frame is also found below a path
 with ~ or variables

---
 src/pyclaw/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 57d031d..81d6ad7 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -338,7 +338,8 @@ class Solution(object):
 
         from clawpack.pyclaw.fileio.ascii import read_t
         file_format2 = None
-        
+        path = os.path.expandvars(os.path.expanduser(path))
+
         try:
             [t,num_eqn,nstates,num_aux,num_dim,num_ghost,file_format2] = \
                  read_t(frame,path,file_prefix=file_prefix)
@@ -357,7 +358,6 @@ class Solution(object):
         else:
             options['format'] = file_format
 
-        path = os.path.expandvars(os.path.expanduser(path))
         # The frame replaces whatever this Solution contained
         old_states, self.states = self.states, []
         try:
-- 
2.43.0


From 8b2942cec8dbad694e6af21ee2ad6c0c3b8cdfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 28/58] fix: a gauge close to the upper boundary gets the index
 of the last cell

---
 src/pyclaw/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index aec672e..87acf67 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -407,7 +407,9 @@ class Grid(object):
             # Check if gauge belongs to this grid:
             if all(self.lower[n]<=gauge[n]<self.upper[n] for n in range(self.num_dim)):
                 # Set indices relative to this grid
-                gauge_index = [int((gauge[n]-self.lower[n])//self.delta[n])
+                # (rounding must not lead beyond the last cell)
+                gauge_index = [min(int((gauge[n]-self.lower[n])//self.delta[n]),
+                                   self.num_cells[n]-1)
                                for n in range(self.num_dim)]
                 gauge_file_name = 'gauge'+'_'.join(str(coord) for coord in gauge)+'.txt'
                 self.gauge_file_names.append(gauge_file_name)
-- 
2.43.0


From 68f09b9e5a4f26bae2124ed5b707a31896d54e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 29/58] fix: a second run with gauges writes to newly opened
 gauge files

---
 src/pyclaw/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyclaw/geometry.py b/src/pyclaw/geometry.py
index 87acf67..cfadebd 100644
--- a/src/pyclaw/geometry.py
+++ b/src/pyclaw/geometry.py
@@ -427,6 +427,7 @@ class Grid(object):
             except OSError:
                 print("gauge directory already exists, ignoring")
 
+        self.gauge_files = []  # files of an earlier run are closed
         for gauge in self.gauge_file_names:
             gauge_file = os.path.join(gauge_path,gauge)
             if os.path.isfile(gauge_file):
-- 
2.43.0


From 36d5a4e327a39c4811150b8ae052a65bc93d2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 30/58] fix: gauges work in three dimensions

---
 src/pyclaw/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index 1712dad..a4c3377 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -707,6 +707,11 @@ class Solver(object):
                 if solution.num_aux > 0:
                     aux = solution.state.aux[:,ix,iy]
                 q=solution.state.q[:,ix,iy]
+            elif self.num_dim == 3:
+                ix, iy, iz = gauge
+                if solution.num_aux > 0:
+                    aux = solution.state.aux[:,ix,iy,iz]
+                q=solution.state.q[:,ix,iy,iz]
             p=self.compute_gauge_values(q,aux)
             if not hasattr(p,'__iter__'):
                 p = [p]
-- 
2.43.0


From 6101b7b0440b206df166177b6a04a9f5b576b726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 31/58] fix: a further run continues the frame numbers whether
 or not copies are kept

---
 src/pyclaw/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 772edb1..3dbec71 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -389,7 +389,8 @@ class Controller(object):
 
         for gfile in self.solution.state.grid.gauge_files: gfile.close()
 
-        self.solution._start_frame = len(self.frames)
+        # A further run continues the numbering
+        self.solution._start_frame = frame.get_counter() + 1
 
         # Return the current status of the solver
         return status
-- 
2.43.0


From 08fd9ea43e4510e0db4d1a00cca0c07d9d809023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 32/58] fix: overwrite=False protects gauge and functional
 files and does not refuse a new directory

---
 src/pyclaw/controller.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 3dbec71..ce156ef 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -292,6 +292,13 @@ class Controller(object):
         if self.solver is None or self.solution is None:
             raise Exception('To run, a Controller must have a Solver and a Solution.')
 
+        # Nothing may be written (gauge files included) before this check
+        if self.output_format is not None or self.compute_F is not None \
+                or len(self.solution.patch.grid.gauges)>0:
+            if os.path.exists(self.outdir) and self.overwrite is False:
+                raise Exception("Refusing to overwrite existing output data. \
+                 \nEither delete/move the directory or set controller.overwrite=True.")
+
         self.start_frame = self.solution.start_frame
         if len(self.solution.patch.grid.gauges)>0:
             self.solution.patch.grid.setup_gauge_files(self.outdir)
@@ -330,9 +337,6 @@ class Controller(object):
         if self.keep_copy:
             self.frames.append(copy.deepcopy(self.solution))
         if self.output_format is not None:
-            if os.path.exists(self.outdir) and self.overwrite is False:
-                raise Exception("Refusing to overwrite existing output data. \
-                 \nEither delete/move the directory or set controller.overwrite=True.")
             if self.compute_p is not None:
                 self.compute_p(self.solution.state)
                 self.solution.write(frame,self.outdir_p,
-- 
2.43.0


From 1958c6355501e4d3ff7810f6de017ed8898d43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:52 +0000
Subject: [PATCH 33/58] fix: a run with only the initial frame, or with
 functionals as its only output, ends normally

---
 src/pyclaw/controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index ce156ef..8e1abfd 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -358,6 +358,7 @@ class Controller(object):
         self.log_info("Solution %s computed for time t=%f" %
                         (frame,self.solution.t) )
 
+        status = self.solver.status
         for t in output_times[1:]:
             if self.output_style < 3:
                 status = self.solver.evolve_to_time(self.solution,t)
@@ -409,6 +410,8 @@ class Controller(object):
                 F[i] = self.solution.state.sum_F(i)
             if self.is_proc_0():
                 t=self.solution.t
+                if not os.path.exists(self.outdir):
+                    os.makedirs(self.outdir)
                 F_file = open(self.F_path,mode)
                 F_file.write(str(t)+' '+' '.join(str(j) for j in F) + '\n')
                 F_file.close()
-- 
2.43.0


From f2c5b3685a0f3169e2832d04e23cd28ac7c615e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 34/58] fix: the solution does not share memory with the arrays
 of the solver; a 2D or 3D run can be continued by a Controller

---
 src/pyclaw/state.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyclaw/state.py b/src/pyclaw/state.py
index 81eae97..cc347b7 100755
--- a/src/pyclaw/state.py
+++ b/src/pyclaw/state.py
@@ -240,15 +240,18 @@ class State(object):
         """
         Set the value of q using the array qbc. Typically this is called
         after qbc has been updated by the solver.
+
+        The values are copied, so that q stays contiguous and does not change
+        when the solver uses qbc for something else.
         """
         
         num_dim = self.patch.num_dim
         if num_dim == 1:
-            self.q = qbc[:,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost].copy('F')
         elif num_dim == 2:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         elif num_dim == 3:
-            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.q = qbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
             
@@ -259,11 +262,11 @@ class State(object):
         
         patch = self.patch
         if patch.num_dim == 1:
-            self.aux = auxbc[:,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost].copy('F')
         elif patch.num_dim == 2:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         elif patch.num_dim == 3:
-            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost]
+            self.aux = auxbc[:,num_ghost:-num_ghost,num_ghost:-num_ghost,num_ghost:-num_ghost].copy('F')
         else:
             raise Exception("Assumption (1 <= num_dim <= 3) violated.")
 
-- 
2.43.0


From f2408ce9faaf29c5597eb812dbce6d017a22f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 35/58] fix: gauges in one and three dimensions are written
 with their location

---
 src/pyclaw/gauges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index f908ea8..b3b5421 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -248,8 +248,9 @@ class GaugeSolution(object):
         gauge_file_name = "gauge%s.txt" % str(self.id).zfill(5)
         with open(os.path.join(path, gauge_file_name), "w") as gauge_file:
 
-            gauge_file.write("# gauge_id= %s location=( %s %s ) num_eqn= %s\n" %
-                 (self.id, self.location[0], self.location[1], self.q.shape[0]))
+            location = " ".join(str(coord) for coord in self.location)
+            gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
+                 (self.id, location, self.q.shape[0]))
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From c35a005d465ef5ac69a6e3de22fd2704fb4a0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 36/58] fix: a Lagrangian gauge is written as one

---
 src/pyclaw/gauges.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index b3b5421..01949f9 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -251,6 +251,8 @@ class GaugeSolution(object):
             location = " ".join(str(coord) for coord in self.location)
             gauge_file.write("# gauge_id= %s location=( %s ) num_eqn= %s\n" %
                  (self.id, location, self.q.shape[0]))
+            if self.gtype == 'lagrangian':
+                gauge_file.write("# Lagrangian gauge\n")
             gauge_file.write("# Columns: level time q(1 ... num_eqn)\n")
 
             # print(self.q.shape)
-- 
2.43.0


From 2590be620037ff7ce9a073c73768a06bc4a29ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:29 +0000
Subject: [PATCH 37/58] fix: convert_gauges compares with the old gauge data
 and accepts a single record

---
 src/pyclaw/gauges.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/gauges.py b/src/pyclaw/gauges.py
index 01949f9..d34fb1c 100644
--- a/src/pyclaw/gauges.py
+++ b/src/pyclaw/gauges.py
@@ -373,7 +373,7 @@ def convert_gauges(path, output_path=None):
         output_path = os.getcwd()
 
     # Load old data
-    data = np.loadtxt(path)
+    data = np.loadtxt(path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     unique_ids = np.asarray(list(set(old_ids)))
 
@@ -389,7 +389,7 @@ def convert_gauges(path, output_path=None):
         new_gauge.write(output_path)
 
         # Test gauge data
-        if not compare_gauges(path, output_path, gauge_id):
+        if not compare_old_gauges(path, output_path, gauge_id):
             print("WARNING:  New gauge data does not match old gauge data.")
             print("          gauge id = %s" % gauge_id)
 
@@ -423,7 +423,7 @@ def compare_old_gauges(old_path, new_path, gauge_id, plot=False, abs_tol=1e-14,
     """
 
     # Load old gauge data
-    data = np.loadtxt(old_path)
+    data = np.loadtxt(old_path, ndmin=2)
     old_ids = np.asarray(data[:, 0], dtype=int)
     gauge_indices = np.nonzero(old_ids == gauge_id)[0]
     q = data[gauge_indices, 3:]
-- 
2.43.0


From f40fcbced704875bfbc662cec6f3f756c4e36652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:19 +0000
Subject: [PATCH 38/58] fix: _method_info_from_argv accepts numbers and other
 JSON values, as documented

---
 src/pyclaw/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index 6fa22a4..33be926 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -642,7 +642,7 @@ def _method_info_from_argv(argv=None):
         except ValueError:
             pass
         if value=='True': value=True
-        if value.lower()=='false': value=False
+        if isinstance(value, str) and value.lower()=='false': value=False
         if key:
             kwargs[key] = value
         else:
-- 
2.43.0


From c60e9f649f26a38ed659560db66aad741e6f63ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:19 +0000
Subject: [PATCH 39/58] fix: convert_fort_double_to_float returns the nearest
 double, also for D exponents

---
 src/pyclaw/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index 33be926..eaacf70 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -591,8 +591,7 @@ def convert_fort_double_to_float(number):
     be of the form "1.0d0"
 
     """
-    a = number.split('d')
-    return float(a[0])*10**float(a[1])
+    return float(number.lower().replace('d','e'))
 
 #-----------------------------
 def current_time(addtz=False):
-- 
2.43.0


From c64c24a8e9e91e180ffc6d49b7553c48c302dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:19 +0000
Subject: [PATCH 40/58] fix: every variant of gen_variants runs with its own
 arguments

---
 src/pyclaw/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index eaacf70..f41b4e1 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -168,7 +168,7 @@ def gen_variants(application, verifier, kernel_languages=('Fortran',), disable_p
             solver_info = 'solver_type={solver_type!s}, '
         else:
             solver_info = ''
-        test = lambda: test_app(application, verifier, test_kwargs)
+        test = lambda test_kwargs=test_kwargs: test_app(application, verifier, test_kwargs)
         test.description = '%s(%s)' % (test_name, str(kwargs))
         yield test
     return
-- 
2.43.0


From 29f3f1590e60f85c48fce14025cdd8dfeab934aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:19 +0000
Subject: [PATCH 41/58] fix: function handles of different files do not replace
 each other's functions

---
 src/pyclaw/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/util.py b/src/pyclaw/util.py
index f41b4e1..214189c 100755
--- a/src/pyclaw/util.py
+++ b/src/pyclaw/util.py
@@ -540,8 +540,9 @@ def construct_function_handle(path,function_name=None):
         suffix = path.split('.')[-1]
         # This is a python file and we just need to read it and map it
         if suffix in ['py']:
-            exec(compile(open(full_path).read(), full_path, 'exec'),globals())
-            return eval('%s' % function_name)
+            namespace = dict(globals())
+            exec(compile(open(full_path).read(), full_path, 'exec'),namespace)
+            return namespace[function_name]
         else:
             raise Exception("Invalid file type for function handle.")
     else:
-- 
2.43.0


From e03a3fca450262bd4fab2c33b09285fdc36864ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:14 +0000
Subject: [PATCH 42/58] fix: SharpClaw never calls the Riemann solver with
 undefined states in the outermost ghost cells

---
 src/pyclaw/sharpclaw/flux1.f90 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index bb82973..8e29a04 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -63,6 +63,11 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
         dtdx = dt / dx(ixyz)
     endif
 
+    ! The reconstruction does not reach the outermost ghost cells, but the
+    ! Riemann solver loops over them too: give it defined (and valid) states
+    ql(:,1-num_ghost:mx+num_ghost) = q1d
+    qr(:,1-num_ghost:mx+num_ghost) = q1d
+
     select case(lim_type)
         case(1) ! lim_type = 1: 2nd-order TVD reconstruction
         select case(char_decomp)
-- 
2.43.0


From 234bdc43d7ca0fb1e177e4d99dbf4d8d35d41fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:14 +0000
Subject: [PATCH 43/58] fix: TVD reconstruction of SharpClaw is defined where
 the data are constant

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index e45c443..9a29884 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -586,10 +586,15 @@ contains
 
             ! compute and store the differences of the cell averages
 
+            dqp=0.d0
             do i=1,mx2-1
                 dqm=dqp
                 dqp=q(m,i+1)-q(m,i)
-                r=dqp/dqm
+                if (dqm.ne.0.d0) then
+                    r=dqp/dqm
+                else
+                    r=0.d0  ! the slope is zero then
+                endif
 
                 select case(mthlim(m))
                 case(1)
-- 
2.43.0


From 9a1fadd8e084e251239473bd9db8bb8c26861343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:14 +0000
Subject: [PATCH 44/58] fix: wave-based TVD reconstruction includes the
 interface at the upper boundary

---
 src/pyclaw/sharpclaw/reconstruct.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 9a29884..9ebc52f 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -755,7 +755,7 @@ contains
 
         do mw=1,num_waves
             dotr = 0.d0
-            do i=num_ghost,mx2-num_ghost
+            do i=num_ghost,mx2-num_ghost+1
                 wnorm2=0.d0
                 dotl=dotr
                 dotr=0.d0
-- 
2.43.0


From b48e6d4bc7a3c224c9face5e69147d585b027218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:34 +0000
Subject: [PATCH 45/58] fix: SSP multistep methods run where no wave moves

---
 src/pyclaw/sharpclaw/solver.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index adf9763..7fbdb6b 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -436,6 +436,16 @@ class SharpClawSolver(Solver):
         state.q += 0.6 * s1.q + 0.1 * self.dq(s1)
 
 
+    def _forward_euler_dt(self,cfl):
+        r"""
+        Step size up to which a forward Euler step is stable, for a state whose cfl number with self.dt is cfl.
+        Without moving waves nothing limits the step but dt_max.
+        """
+        if cfl > 0.0:
+            return self.dt / cfl * self.cfl_max / self.sspcoeff
+        return self.dt_max
+
+
     def update_saved_values(self,state,step_index):
         r""" 
         Updates lists of saved function evaluations, solution values, dt and dtFE for LMMs.
@@ -450,13 +460,13 @@ class SharpClawSolver(Solver):
             self.prev_dt_values.append(0.) # Not used
             if 'SSPLMM' in self.time_integrator:
                 cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self._forward_euler_dt(cfl)
                 self.prev_dtFE_values.append(dtFE)
                 self.sspcoeff0 = self._sspcoeff['SSP22']
         elif self.accept_step == True: # Previous step was accepted
             if 'SSPLMM' in self.time_integrator:
                 cfl = self.cfl.get_cached_max()
-                dtFE = self.dt / cfl * self.cfl_max / self.sspcoeff
+                dtFE = self._forward_euler_dt(cfl)
 
                 if self.time_integrator == 'SSPLMMk3' and self.check_lmm_cond:
                     self.lmm_cond = self.check_3rd_ord_cond(state,step_index,dtFE)
-- 
2.43.0


From 8f20b9bbf98ff6279b178bb951a5726c519a4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:14 +0000
Subject: [PATCH 46/58] fix: fixed steps are counted alike for every magnitude
 of the step

---
 src/pyclaw/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index a4c3377..a3f9bdf 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -604,7 +604,7 @@ class Solver(object):
             if take_one_step:
                 max_steps = 1
             else:
-                max_steps = int((tend - tstart + 1e-10) / self.dt)
+                max_steps = int(round((tend - tstart) / self.dt))
                 if abs(max_steps*self.dt - (tend - tstart)) >      \
                    1e-5 * (tend - tstart):
                     raise Exception('dt does not divide (tend-tstart) and dt '
-- 
2.43.0


From 8c8ba97b7735c086c32dfe37a6c4e6d7ef3e49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:58 +0000
Subject: [PATCH 47/58] fix: the Courant number of the Python SharpClaw kernel
 leaves out an interface between two ghost cells

The loop limits included the interface between the two ghost cells below
the lower boundary, but not the one above the upper boundary, so that the
steps of a problem and of its mirror image differed.
---
 src/pyclaw/sharpclaw/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 7fbdb6b..cf8761a 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -836,8 +836,8 @@ class SharpClawSolver1D(SharpClawSolver):
             # Compute maximum wave speed
             cfl = 0.0
             for mw in range(self.num_waves):
-                smax1 = np.max( dtdx[LL  :UL]  *s[mw,LL-1:UL-1])
-                smax2 = np.max(-dtdx[LL-1:UL-1]*s[mw,LL-1:UL-1])
+                smax1 = np.max( dtdx[LL+1:UL]  *s[mw,LL:UL-1])
+                smax2 = np.max(-dtdx[LL  :UL-1]*s[mw,LL:UL-1])
                 cfl = max(cfl,smax1,smax2)
 
             #Find total fluctuation within each cell
-- 
2.43.0


From 61598f9618915a77ccd7a716e6e0f71507236e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:02 +0000
Subject: [PATCH 48/58] fix: wave-based WENO reconstructions stay within their
 arrays

weno5_wave read, and weno5_fwave read and wrote, beyond the ends of the
arrays; only the interfaces of the interior cells are needed.
---
 src/pyclaw/sharpclaw/reconstruct.f90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 9ebc52f..9168a93 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -409,7 +409,7 @@ contains
         mx2  = size(q,2); num_eqn = size(q,1); num_waves=size(wave,2)
 
         ! loop over interfaces (i-1/2)
-        do i=2,mx2
+        do i=num_ghost+1,mx2-num_ghost+1
             ! Compute the part of the reconstruction that is stencil-independent
             do m=1,num_eqn
                 qr(m,i-1) = (-q(m,i-2)+7.*(q(m,i-1)+q(m,i))-q(m,i+1))/12.
@@ -498,7 +498,7 @@ contains
       end forall
 
       ! loop over interfaces (i-1/2)
-      do i=2,mx2+2
+      do i=num_ghost+1,mx2-num_ghost+1
         ! Compute the part of the reconstruction that is
         !  stencil-independent
         do m=1,num_eqn
-- 
2.43.0


From 5f12f006079eb623e963f02eb2bc2cfaf3e7f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 49/58] fix: fixed time steps stay as given and end exactly at
 the requested time

---
 src/pyclaw/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyclaw/solver.py b/src/pyclaw/solver.py
index a3f9bdf..ac27467 100644
--- a/src/pyclaw/solver.py
+++ b/src/pyclaw/solver.py
@@ -555,7 +555,8 @@ class Solver(object):
             self.dt = min(self.dt, self.dt_max)
 
         # Adjust dt so that we hit tend exactly if we are near tend
-        if not take_one_step:
+        # (a fixed dt is left as it is: it divides the interval)
+        if self.dt_variable and not take_one_step:
             if t + self.dt > tend and tstart < tend:
                 self.dt = tend - t
             if tend - t - self.dt < 1.e-14*t:
@@ -637,6 +638,9 @@ class Solver(object):
                 self.status['cflmax'] = max(cfl, self.status['cflmax'])
                 if self.dt_variable:
                     solution.t += self.dt
+                elif not take_one_step and n == max_steps-1:
+                    # Last fixed step: we are at tend
+                    solution.t = tend
                 else:
                     # Avoid roundoff error if dt_variable==False:
                     solution.t = tstart+(n+1)*self.dt
-- 
2.43.0


From 0836429754a1048d85d71d391f7d770e392c0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:45 +0000
Subject: [PATCH 50/58] fix: a controller run without output times returns as
 intended instead of raising

---
 src/pyclaw/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyclaw/controller.py b/src/pyclaw/controller.py
index 8e1abfd..7028e80 100644
--- a/src/pyclaw/controller.py
+++ b/src/pyclaw/controller.py
@@ -329,7 +329,7 @@ class Controller(object):
 
         if len(output_times) == 0:
             print("No valid output times; halting.")
-            if self.t == self.tfinal:
+            if self.solution.t == self.tfinal:
                 print("Simulation has already reached tfinal.")
             return None
 
-- 
2.43.0


From 4cea9581753378c69023222d43bfeaec4cdd9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:57 +0000
Subject: [PATCH 51/58] fix: a read that fails leaves the domain of the
 Solution as it was

---
 src/pyclaw/solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 81d6ad7..57a21cd 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -359,7 +359,7 @@ class Solution(object):
             options['format'] = file_format
 
         # The frame replaces whatever this Solution contained
-        old_states, self.states = self.states, []
+        old_states, old_domain, self.states = self.states, self.domain, []
         try:
             if file_prefix is None:
                 read_func(self,frame,path,read_aux=read_aux,options=options)
@@ -367,7 +367,7 @@ class Solution(object):
                 read_func(self,frame,path,file_prefix=file_prefix,
                                         read_aux=read_aux,options=options)
         except:
-            self.states = old_states
+            self.states, self.domain = old_states, old_domain
             raise
         logging.getLogger('pyclaw.fileio').info("Read in solution for time t=%s" % self.t)
 
-- 
2.43.0


From b8ca9f4f7f93fdd913f8fb85178d75269a97b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:33 +0000
Subject: [PATCH 52/58] fix: wave-based reconstruction of the SharpClaw Python
 kernel turns f-waves into waves

---
 src/pyclaw/sharpclaw/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index cf8761a..16710c6 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -819,6 +819,8 @@ class SharpClawSolver1D(SharpClawSolver):
                     q_l=q[:,:-1]
                     q_r=q[:,1: ]
                     wave,s,amdq,apdq = self.rp(q_l,q_r,aux_l,aux_r,state.problem_data)
+                    if self.fwave:
+                        wave = wave / s # convert f-waves to waves, as weno5_fwave does
                     ql,qr=recon.weno5_wave(q,wave,s)
                 elif self.char_decomp==2: #Characteristic-wise reconstruction
                     raise NotImplementedError
-- 
2.43.0


From 24ad587060bbb79582f74503d1748886dfeb63ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:46 +0000
Subject: [PATCH 53/58] fix: auxiliary values that an HDF5 frame does not hold
 are marked undefined

---
 src/pyclaw/fileio/hdf5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyclaw/fileio/hdf5.py b/src/pyclaw/fileio/hdf5.py
index 776b57d..2fe198d 100644
--- a/src/pyclaw/fileio/hdf5.py
+++ b/src/pyclaw/fileio/hdf5.py
@@ -205,6 +205,9 @@ def read(solution,frame,path='./',file_prefix='claw',read_aux=True,
                 # Read in aux if applicable
                 if read_aux and patch.get('aux',None) is not None:
                     state.aux = patch['aux'][:].ravel(order='F').reshape(state.aux.shape,order='F')
+                elif state.num_aux > 0:
+                    # Write NaNs to indicate that aux is uninitialized
+                    state.aux[...] = np.nan
 
                 solution.states.append(state)
                 patches.append(pyclaw_patch)
-- 
2.43.0


From ac9492fcbdd027398f1ad117691d2675683f0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:36 +0000
Subject: [PATCH 54/58] fix: using the ForestClaw format does not change the
 ASCII format of pyclaw

---
 src/forestclaw/fileio/__init__.py |  6 +-----
 src/forestclaw/fileio/ascii.py    | 16 +++++++++-------
 src/pyclaw/fileio/ascii.py        | 21 +++++++++++++++------
 src/pyclaw/solution.py            |  6 ++++--
 4 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/forestclaw/fileio/__init__.py b/src/forestclaw/fileio/__init__.py
index 42fbfe7..27ef514 100644
--- a/src/forestclaw/fileio/__init__.py
+++ b/src/forestclaw/fileio/__init__.py
@@ -5,10 +5,6 @@
 import logging
 logger = logging.getLogger('pyclaw.fileio')
 
-from . import ascii as forestascii
-from clawpack.pyclaw.fileio import ascii
-
-ascii.read_patch_header = forestascii.read_patch_header
-ascii.write_patch_header = forestascii.write_patch_header
+from . import ascii
 
 __all__ = ["ascii.read", "ascii.write"]
diff --git a/src/forestclaw/fileio/ascii.py b/src/forestclaw/fileio/ascii.py
index 8464f73..7427046 100644
--- a/src/forestclaw/fileio/ascii.py
+++ b/src/forestclaw/fileio/ascii.py
@@ -9,8 +9,7 @@ import numpy as np
 from clawpack import forestclaw
 
 from .. import Dimension, Patch
-from clawpack.pyclaw.fileio.ascii import write
-from clawpack.pyclaw.fileio.ascii import read
+from clawpack.pyclaw.fileio import ascii
 from clawpack.pyclaw.util import read_data_line
 
 
@@ -80,8 +79,11 @@ def read_patch_header(f, num_dim):
 
     return patch
 
-# # Replace the ascii module functions with those defined above
-# # ascii.read_patch_header = read_patch_header
-# # ascii.write_patch_header = write_patch_header
-# read = ascii.read
-# write = ascii.write
+
+# Use the ascii module functions with the headers defined above
+def write(*args, **kargs):
+    return ascii.write(*args, write_header=write_patch_header, **kargs)
+
+
+def read(*args, **kargs):
+    return ascii.read(*args, read_header=read_patch_header, **kargs)
diff --git a/src/pyclaw/fileio/ascii.py b/src/pyclaw/fileio/ascii.py
index 244ebac..0b31cc4 100644
--- a/src/pyclaw/fileio/ascii.py
+++ b/src/pyclaw/fileio/ascii.py
@@ -15,7 +15,7 @@ from clawpack.pyclaw.util import read_data_line
 logger = logging.getLogger('pyclaw.fileio')
 
 def write(solution, frame, path, file_prefix='fort', write_aux=False,
-                    options={}, write_p=False):
+                    options={}, write_p=False, write_header=None):
     r"""
     Write out ascii data file
     
@@ -37,7 +37,12 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
        auxiliary array should be written out.  ``default = False``
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being written.  ``default = {}``
+     - *write_header* - (func) Function that writes the header of a patch.
+       ``default = write_patch_header``
     """
+    if write_header is None:
+        write_header = write_patch_header
+
     # Write fort.txxxx file
     file_name = '%s.t%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as f:
@@ -56,7 +61,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
     file_name = '%s.q%s' % (file_prefix,str(frame).zfill(4))
     with open(os.path.join(path,file_name),'w') as q_file:
         for state in solution.states:
-            write_patch_header(q_file,state.patch)
+            write_header(q_file,state.patch)
             if write_p:
                 q = state.p
             else:
@@ -68,7 +73,7 @@ def write(solution, frame, path, file_prefix='fort', write_aux=False,
         file_name = '%s.a%s' % (file_prefix,str(frame).zfill(4))
         with open(os.path.join(path,file_name),'w') as aux_file:
             for state in solution.states:
-                write_patch_header(aux_file,state.patch)
+                write_header(aux_file,state.patch)
                 write_array(aux_file,state.patch,state.aux)
 
     # Write fort.pklxxxx file
@@ -130,7 +135,7 @@ def write_array(f,patch,q):
 
 
 def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
-                options={}):
+                options={},read_header=None):
     r"""
     Read in a frame of ascii formatted files, and enter the data into the
     solution object.
@@ -150,7 +155,11 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
        in.  ``default = False``
      - *options* - (dict) Dictionary of optional arguments dependent on 
        the format being read in.  ``default = {}``
+     - *read_header* - (func) Function that reads the header of a patch.
+       ``default = read_patch_header``
     """
+    if read_header is None:
+        read_header = read_patch_header
 
     pickle_filename = os.path.join(path, '%s.pkl' % file_prefix) + str(frame).zfill(4)
     problem_data = None
@@ -180,7 +189,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         # Loop through every patch setting the appropriate information
         for m in range(nstates):
             # Read header for this patch
-            patch = read_patch_header(f, num_dim)
+            patch = read_header(f, num_dim)
 
             # Construct state
             state= pyclaw.state.State(patch,num_eqn,num_aux)
@@ -226,7 +235,7 @@ def read(solution,frame,path='./',file_prefix='fort',read_aux=False,
         with open(fname,'r') as f:
             for state in solution.states:
                 patch = state.patch
-                aux_patch = read_patch_header(f, num_dim)
+                aux_patch = read_header(f, num_dim)
 
                 # Read patch header and check that it matches that from fort.qxxxx
                 assert patch.level == aux_patch.level, \
diff --git a/src/pyclaw/solution.py b/src/pyclaw/solution.py
index 57a21cd..5c96511 100755
--- a/src/pyclaw/solution.py
+++ b/src/pyclaw/solution.py
@@ -346,8 +346,10 @@ class Solution(object):
         except:
             pass
 
-        if file_format2 is not None:
-            # value was read in from file, use it:
+        if file_format2 is not None and not (file_format == 'forestclaw'
+                                             and file_format2 == 'ascii'):
+            # value was read in from file, use it
+            # (ForestClaw has ascii files with headers of its own):
             file_format = file_format2
 
         read_func = self.get_read_func(file_format)
-- 
2.43.0


From bae02bda7abe3575137f1ad814911d34f327f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:36 +0000
Subject: [PATCH 55/58] fix: deep copies of ForestClaw patches keep block
 number and rank

---
 src/forestclaw/geometry.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/forestclaw/geometry.py b/src/forestclaw/geometry.py
index 36df218..b5f72c6 100644
--- a/src/forestclaw/geometry.py
+++ b/src/forestclaw/geometry.py
@@ -24,3 +24,11 @@ class Patch(pyclaw_geometry.Patch):
         r"""(int) - Block number of current patch, ``default = 0``"""
         self.mpi_rank = 0
         r"""(int) - MPI rank this patch belongs to, ``default = 0``"""
+
+    def __deepcopy__(self, memo={}):
+        result = super(Patch, self).__deepcopy__(memo)
+
+        for attr in ('block_number', 'mpi_rank'):
+            setattr(result, attr, getattr(self, attr))
+
+        return result
-- 
2.43.0


From bd1b86d9bcd281266def7ff809f3d297637ad443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:30 +0000
Subject: [PATCH 56/58] fix: SharpClaw's WENO reconstruction refers to no
 undefined cells, neither beyond the end of a row shorter than the longest nor
 before the first difference

---
 src/pyclaw/sharpclaw/flux1.f90       | 6 +++---
 src/pyclaw/sharpclaw/reconstruct.f90 | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyclaw/sharpclaw/flux1.f90 b/src/pyclaw/sharpclaw/flux1.f90
index 8e29a04..f61aee0 100644
--- a/src/pyclaw/sharpclaw/flux1.f90
+++ b/src/pyclaw/sharpclaw/flux1.f90
@@ -93,7 +93,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
         case(2) ! lim_type = 2: High-order WENO reconstruction
         select case (char_decomp)
             case (0) ! no characteristic decomposition
-                call weno_comp(q1d,ql,qr,num_eqn,maxnx,num_ghost)
+                call weno_comp(q1d,ql,qr,num_eqn,mx,num_ghost)
             case (1) ! wave-based reconstruction
                 if (num_dim.eq.1) then
                     call rp(maxnx,num_eqn,num_waves,num_aux,num_ghost,mx,&
@@ -110,7 +110,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
                 endif
             case (2) ! characteristic-wise reconstruction
                 call evec(mx,num_eqn,num_ghost,mx,q1d,aux,aux,evl,evr)
-                call weno5_char(q1d,ql,qr,maxnx,num_eqn,num_ghost,evl,evr)
+                call weno5_char(q1d,ql,qr,mx,num_eqn,num_ghost,evl,evr)
             case (3) ! transmission-based reconstruction
                 call evec(mx,num_eqn,num_ghost,mx,q1d,aux,aux,evl,evr)
                 call weno5_trans(q1d,ql,qr,evl,evr)
@@ -120,7 +120,7 @@ subroutine flux1(q1d,dq1d,aux,dt,cfl,t,ixyz,num_aux,num_eqn,mx,num_ghost,maxnx,r
                 stop
         end select
         case(3)
-            call weno5(q1d,ql,qr,num_eqn,maxnx,num_ghost)
+            call weno5(q1d,ql,qr,num_eqn,mx,num_ghost)
         case default
             write(*,*) 'ERROR: Unrecognized limiter type option'
             write(*,*) 'You should set 1<=lim_type<=3'
diff --git a/src/pyclaw/sharpclaw/reconstruct.f90 b/src/pyclaw/sharpclaw/reconstruct.f90
index 9168a93..26c804b 100644
--- a/src/pyclaw/sharpclaw/reconstruct.f90
+++ b/src/pyclaw/sharpclaw/reconstruct.f90
@@ -128,6 +128,10 @@ contains
         !the reconstruction is performed component-wise;
         !no characteristic decomposition is used here
 
+        ! There is no difference at the first cell, which only the
+        ! reconstruction in the ghost cells refers to
+        dq1m(1)=0.d0
+
         do m=1,num_eqn
 
             forall (i=2:mx2)
-- 
2.43.0


From 039559cc00fbaa31cd3ca82598cdd4268679cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:48 +0000
Subject: [PATCH 57/58] fix: a solver used again on another solution takes its
 grid and capacity function from that solution

---
 src/pyclaw/classic/solver.py   |  4 +++-
 src/pyclaw/sharpclaw/solver.py | 22 ++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/pyclaw/classic/solver.py b/src/pyclaw/classic/solver.py
index 3005781..19d34fe 100644
--- a/src/pyclaw/classic/solver.py
+++ b/src/pyclaw/classic/solver.py
@@ -236,9 +236,11 @@ class ClawSolver(Solver):
     def _restore_fortran_parameters(self,state):
         r"""
         Set the cparam common block again: another solver may have used the
-        same Riemann solver since this one was set up.
+        same Riemann solver since this one was set up.  The solution may be
+        another one, too, with its capacity function elsewhere.
         """
         if(self.kernel_language == 'Fortran'):
+            self._method[5] = state.index_capa + 1
             state.set_cparam(self.fmod)
             state.set_cparam(self.rp)
 
diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 16710c6..92d3abd 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -589,14 +589,10 @@ class SharpClawSolver(Solver):
         clawparams.char_decomp   = self.char_decomp
         clawparams.tfluct_solver = self.tfluct_solver
         clawparams.fwave         = self.fwave
-        clawparams.index_capa         = state.index_capa+1
 
         clawparams.num_waves     = self.num_waves
         clawparams.alloc_clawparams()
-        for idim in range(grid.num_dim):
-            clawparams.xlower[idim]=grid.dimensions[idim].lower
-            clawparams.xupper[idim]=grid.dimensions[idim].upper
-        clawparams.dx       =grid.delta
+        self._set_fortran_grid(state,clawparams)
         clawparams.mthlim   =self._mthlim
 
         maxnx = max(grid.num_cells)+2*self.num_ghost
@@ -605,10 +601,22 @@ class SharpClawSolver(Solver):
                                             clawparams.lim_type,clawparams.char_decomp)
 
 
+    def _set_fortran_grid(self,state,clawparams):
+        r"""
+        Set what the Fortran modules know of the grid and the capacity function.
+        """
+        grid = state.grid
+        clawparams.index_capa         = state.index_capa+1
+        for idim in range(grid.num_dim):
+            clawparams.xlower[idim]=grid.dimensions[idim].lower
+            clawparams.xupper[idim]=grid.dimensions[idim].upper
+        clawparams.dx       =grid.delta
+
+
     def _restore_fortran_parameters(self,state):
         r"""
         Set the Fortran module data again if another solver used the modules
-        since this one was set up.
+        since this one was set up, or if this one was used for another solution.
         """
         if self.kernel_language=='Fortran':
             state.set_cparam(self.fmod)
@@ -616,6 +624,8 @@ class SharpClawSolver(Solver):
             state.set_cparam(self.tfluct)
             if self._fortran_owner.get(self.fmod.__name__) != id(self):
                 self._set_fortran_parameters(state,self.fmod.clawparams,self.fmod.workspace,self.fmod.reconstruct)
+            else:
+                self._set_fortran_grid(state,self.fmod.clawparams)
 
 
     def _allocate_registers(self,solution):
-- 
2.43.0


From 50a8e603664808aae5d1938d7aa8b1934cdddabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:48 +0000
Subject: [PATCH 58/58] fix: SharpClaw stages use the current auxiliary values,
 parameters and grid of the state, not those at set-up

---
 src/pyclaw/sharpclaw/solver.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyclaw/sharpclaw/solver.py b/src/pyclaw/sharpclaw/solver.py
index 92d3abd..d96ca6f 100644
--- a/src/pyclaw/sharpclaw/solver.py
+++ b/src/pyclaw/sharpclaw/solver.py
@@ -293,6 +293,7 @@ class SharpClawSolver(Solver):
         `solver.time_integrator`.
         """
         state = solution.states[0]
+        self._update_registers(state)
         step_index = self.status['numsteps'] + 1
         if self.accept_step == True:
             self.cfl.set_global_max(0.)
@@ -659,6 +660,19 @@ class SharpClawSolver(Solver):
             self._registers.append(copy.deepcopy(state))
 
 
+    def _update_registers(self,state):
+        r"""
+        Let the stages use the grid, parameters and auxiliary values of the
+        state that is evolved now: these may have changed since set-up.
+        """
+        for register in self._registers:
+            register.patch = state.patch
+            register.problem_data = state.problem_data
+            register.index_capa = state.index_capa
+            if state.num_aux > 0:
+                register.aux[:] = state.aux
+
+
     def accept_reject_step(self,state):
         r"""
         Decide whether to accept or not the current step.
-- 
2.43.0

