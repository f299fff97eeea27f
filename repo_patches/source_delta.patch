From 6922636b95d20de7dc26c2f6478aea121aae9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 01/49] fix: goos optimizer constraints each evaluate their own
 constraint

The constraint callbacks were created in a loop and read the loop variable
when called, so every constraint of a kind evaluated the last one.
---
 spins/goos/optimize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 1f59b6e..cc853c9 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -150,13 +150,13 @@ class ScipyOptimizer(goos.Action):
             constraints = []
             for eq in self._cons_eq:
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     unpack_and_set(x)
                     val = plan.eval_node(eq).array
                     plan.logger.debug("Eq. cons. function evaluated: %f", val)
                     return val
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(eq, variables)
                     val = []
@@ -182,13 +182,13 @@ class ScipyOptimizer(goos.Action):
             for ineq in self._cons_ineq:
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
                     val = plan.eval_node(ineq).array
                     plan.logger.debug("Ineq. cons. function evaluated: %f", val)
                     return -val
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(ineq, variables)
                     val = []
-- 
2.43.0


From 76a9c5aa59307084638828dafe63ccd7a7615879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 02/49] fix: scipy optimizer constraints each evaluate their
 own constraint

---
 spins/invdes/optimization/scipy_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 94dd2a7..3689b80 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -87,11 +87,11 @@ class ScipyOptimizer:
             constraints = []
             for eq in opt.get_equality_constraints():
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_gradient(param)
 
@@ -103,11 +103,11 @@ class ScipyOptimizer:
             for ineq in opt.get_inequality_constraints():
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_gradient(param)
 
-- 
2.43.0


From 900f3fa512e14986792b22d8f82baf6750341f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 03/49] fix: rasterizing a polygon outside of the grid returns
 a blank grid

The name zeros was not defined, so the call failed with a NameError.
---
 spins/gridlock/float_raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/float_raster.py b/spins/gridlock/float_raster.py
index f7fffe4..5ef69b1 100644
--- a/spins/gridlock/float_raster.py
+++ b/spins/gridlock/float_raster.py
@@ -444,7 +444,7 @@ def raster_2D(poly_xy: np.ndarray,
 
     # If the shape fell completely outside our area, just return a blank grid.
     if vertices.size == 0:
-        return zeros((grid_x.size - 1, grid_y.size - 1))
+        return np.zeros((grid_x.size - 1, grid_y.size - 1))
     # Calculate segment cover, area, and corresponding pixel's subscripts.
     poly = np.hstack((vertices, vertices[0]))
     endpoint_avg = (poly[:-1] + poly[1:]) * 0.5
-- 
2.43.0


From 307bffa7b3dfc48eb933fdefa06718398edce277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 04/49] fix: schema registry push appends the registry it is
 given

---
 spins/goos/schema_registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/schema_registry.py b/spins/goos/schema_registry.py
index c1e575e..99dfc25 100644
--- a/spins/goos/schema_registry.py
+++ b/spins/goos/schema_registry.py
@@ -45,7 +45,7 @@ class SchemaRegistryStack:
     def push(self, registry: SchemaRegistry = None):
         if not registry:
             registry = SchemaRegistry()
-        self._stack.append(context)
+        self._stack.append(registry)
 
     def pop(self):
         return self._stack.pop()
-- 
2.43.0


From 5bd14fb64bf59ee2255167b7db348789274eea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 05/49] fix: grid fill and polygon checks refer to names that
 exist

---
 spins/gridlock/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index eb4d3c2..84596dd 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -495,7 +495,7 @@ class Grid:
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
         elif eps.ndim != 1 and eps.size != self.shifts.shape[0]:
-            raise GridErro(
+            raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
             )
         # Translating polygon by its center
@@ -627,7 +627,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
@@ -660,7 +660,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
-- 
2.43.0


From 123b6bc483859f251912d176e1ab82575fd45019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 06/49] fix: grid constructor raises the errors it detects

---
 spins/gridlock/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 84596dd..b99cb66 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -363,19 +363,19 @@ class Grid:
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
         if self.shifts.shape[1] != 3:
-            GridError(
+            raise GridError(
                 'Misshapen shifts on the primary grid; second axis size should be 3,'
                 ' shape is {}'.format(self.shifts.shape))
         if self.comp_shifts.shape[1] != 3:
-            GridError(
+            raise GridError(
                 'Misshapen shifts on the complementary grid: second axis size should be 3,'
                 ' shape is {}'.format(self.comp_shifts.shape))
         if self.comp_shifts.shape[0] != self.shifts.shape[0]:
-            GridError(
+            raise GridError(
                 'Inconsistent number of shifts in the primary and complementary grid'
             )
         if not ((self.shifts >= 0).all() and (self.comp_shifts >= 0).all()):
-            GridError(
+            raise GridError(
                 'Shifts are required to be non-negative for both primary and complementary grid'
             )
 
-- 
2.43.0


From 07264dcde61d3e40a57fe525ee6bcaca62c31e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 07/49] fix: grid honours a periodicity given per axis

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index b99cb66..9e6bdfe 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -358,7 +358,7 @@ class Grid:
         if is_scalar(periodic):
             self.periodic = [periodic] * 3
         else:
-            self.periodic = [False] * 3
+            self.periodic = list(periodic)
 
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
-- 
2.43.0


From 5e18bfad6ff897cf955110f8da11cb5ab21b7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 08/49] fix: unimplemented operations raise NotImplementedError

---
 spins/goos/flows.py                           | 2 +-
 spins/goos/optplan/optplan.py                 | 2 +-
 spins/goos_sim/maxwell/simulate.py            | 4 ++--
 spins/invdes/optimization/gradient_descent.py | 2 +-
 spins/invdes/problem/emobjective.py           | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 748f412..23d5d20 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -168,7 +168,7 @@ class Flow(metaclass=FlowMeta):
             return True
 
         if self.__class__ != other.__class__:
-            raise NotImplemented(
+            raise NotImplementedError(
                 "Cannot compare flow types, got {} and {}".format(self, other))
 
         for val1, val2 in zip(dataclasses.astuple(self),
diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 649e844..9da7911 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -213,7 +213,7 @@ class ProblemGraphNode(metaclass=ProblemGraphNodeMeta):
 
     def eval(self, inputs: Iterable["ProblemGraphNode"],
              eval_context: EvalContext):
-        raise NotImplemented()
+        raise NotImplementedError()
 
     def __hash__(self):
         return id(self)
diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index c818a92..fb58609 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -224,14 +224,14 @@ class SimOutputImpl:
         pass
 
     def eval(self, sim: FdfdSimProp) -> goos.Flow:
-        raise NotImplemented("{} cannot be evaluated.".format(type(self)))
+        raise NotImplementedError("{} cannot be evaluated.".format(type(self)))
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.Flow.Grad) -> None:
         # If an implementation is not provided, then the gradient must be
         # `None` to indicate that the gradient is not needed.
         if grad_val:
-            raise NotImplemented(
+            raise NotImplementedError(
                 "Cannot differentiate with respect to {}".format(type(self)))
 
 
diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index acd63b0..3dfc2c6 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -52,7 +52,7 @@ class GradientOptimizer:
         A single step is defined by a sequence of operations that
         should be performed before a check on convergence.
         """
-        raise NotImplementedException('iterate is not implemented.')
+        raise NotImplementedError('iterate is not implemented.')
 
     def optimize(self, iters=None, callback=None):
         """ Runs the optimizer.
diff --git a/spins/invdes/problem/emobjective.py b/spins/invdes/problem/emobjective.py
index 797e524..c3f927e 100644
--- a/spins/invdes/problem/emobjective.py
+++ b/spins/invdes/problem/emobjective.py
@@ -59,7 +59,7 @@ class EmObjective(OptimizationFunction):
         return self.calculate_f(efields, struct)
 
     def calculate_f(self, efields, struct):
-        raise NotImplemented('calculate_f not implemented')
+        raise NotImplementedError('calculate_f not implemented')
 
     def calculate_partial_df_dx(self, efields, struct):
         return 0
-- 
2.43.0


From e4f9de83442468202b8cc2fadc93e79a20ce2bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 09/49] fix: mode solvers import warnings before warning about
 lossy materials

---
 spins/fdfd_solvers/waveguide_mode.py | 1 +
 spins/fdfd_tools/waveguide_mode.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/spins/fdfd_solvers/waveguide_mode.py b/spins/fdfd_solvers/waveguide_mode.py
index da605ec..92c132f 100644
--- a/spins/fdfd_solvers/waveguide_mode.py
+++ b/spins/fdfd_solvers/waveguide_mode.py
@@ -1,3 +1,4 @@
+import warnings
 import copy
 import numpy as np
 import scipy.sparse as sparse
diff --git a/spins/fdfd_tools/waveguide_mode.py b/spins/fdfd_tools/waveguide_mode.py
index 205d9fb..5c85bde 100644
--- a/spins/fdfd_tools/waveguide_mode.py
+++ b/spins/fdfd_tools/waveguide_mode.py
@@ -1,3 +1,4 @@
+import warnings
 from typing import Dict, List, Union, Optional
 import numpy as np
 import scipy.sparse as sparse
-- 
2.43.0


From a44b103298946748fdda5ae43421f60691fb49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 10/49] fix: beam and plane wave sources leave the caller's
 slices alone

---
 spins/fdfd_tools/free_space_sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/fdfd_tools/free_space_sources.py b/spins/fdfd_tools/free_space_sources.py
index 04d1911..b4345eb 100644
--- a/spins/fdfd_tools/free_space_sources.py
+++ b/spins/fdfd_tools/free_space_sources.py
@@ -337,7 +337,7 @@ def build_plane_wave_source(eps_grid: Grid,
 
     # make current
     field_slices = [slice(None, None)] * 3
-    J_slices = slices
+    J_slices = list(slices)
     if polarity == -1:
         ind = slices[axis].start
         field_slices[axis] = slice(None, ind)
@@ -423,7 +423,7 @@ def build_gaussian_source(eps_grid: Grid,
 
     # make current
     field_slices = [slice(None, None)] * 3
-    J_slices = slices
+    J_slices = list(slices)
     if polarity == -1:
         ind = slices[axis].start
         field_slices[axis] = slice(None, ind)
-- 
2.43.0


From fe69f04e2546bb6e9e90bca4f6025bde0e5d1063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 11/49] fix: lattice selection matrices leave the caller's
 design bounds alone

---
 spins/gridlock/selection_matrix.py       | 1 +
 spins/invdes/problem/selection_matrix.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/spins/gridlock/selection_matrix.py b/spins/gridlock/selection_matrix.py
index 55fd8a2..d9f63de 100644
--- a/spins/gridlock/selection_matrix.py
+++ b/spins/gridlock/selection_matrix.py
@@ -107,6 +107,7 @@ def direct_lattice_deprecated(grid_size,
     'design_bounds' refers to the epsilon_z voxels in the x-y plane to be
     included in the selection matrix.
     """
+    design_bounds = [list(bound) for bound in design_bounds]
     design_bounds[0][0] = np.max([design_bounds[0][0], 0])
     design_bounds[0][1] = np.max([design_bounds[0][1], 0])
     design_bounds[1][0] = np.min([design_bounds[1][0], grid_size[0] - 1])
diff --git a/spins/invdes/problem/selection_matrix.py b/spins/invdes/problem/selection_matrix.py
index 38743e7..f2e08d5 100644
--- a/spins/invdes/problem/selection_matrix.py
+++ b/spins/invdes/problem/selection_matrix.py
@@ -101,6 +101,7 @@ def direct_lattice(grid_size,
     'design_bounds' refers to the epsilon_z voxels in the x-y plane to be
     included in the selection matrix.
     """
+    design_bounds = [list(bound) for bound in design_bounds]
     design_bounds[0][0] = np.max([design_bounds[0][0], 0])
     design_bounds[0][1] = np.max([design_bounds[0][1], 0])
     design_bounds[1][0] = np.min([design_bounds[1][0], grid_size[0] - 1])
-- 
2.43.0


From 72c544dc399f8b437e4bd911f6f2338aa4afe421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 12/49] fix: creating a Gaussian source does not rewrite its
 plan node

---
 spins/invdes/problem_graph/creator_em.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index cfbd252..43ed0d0 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -159,8 +159,9 @@ class GaussianSource:
             work: Unused.
         """
         self._params = params
-        if self._params.beam_center is None:
-            self._params.beam_center = self._params.center
+        self._beam_center = params.beam_center
+        if self._beam_center is None:
+            self._beam_center = params.center
 
     def __call__(self, simspace: SimulationSpace, wlen: float, solver: Callable,
                  **kwargs) -> fdfd_tools.VecField:
@@ -189,7 +190,7 @@ class GaussianSource:
             psi=self._params.psi,
             polarization_angle=self._params.polarization_angle,
             w0=self._params.w0,
-            center=self._params.beam_center,
+            center=self._beam_center,
             power=self._params.power)
 
         if self._params.normalize_by_sim:
-- 
2.43.0


From 28c895f33df65c0c33bcf351f8366351f304235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:24 +0000
Subject: [PATCH 13/49] fix: optimizer options that are unset are dropped
 without failing

Deleting from the dictionary while iterating over it raised a RuntimeError
(and changed the plan).
---
 spins/invdes/problem_graph/creator_opt.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index bafe7ac..dd7e3ef 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -46,9 +46,11 @@ class ScipyOptimizer:
         if optimization_options is None:
             optimization_options = {}
         else:
-            for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
+            optimization_options = {
+                key: value
+                for key, value in optimization_options.items()
+                if value
+            }
         self.optimization_options = optimization_options
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
@@ -247,9 +249,11 @@ class PenaltyOptimizer:
         if optimization_options is None:
             optimization_options = {}
         else:
-            for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
+            optimization_options = {
+                key: value
+                for key, value in optimization_options.items()
+                if value
+            }
         self.optimization_options = optimization_options
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
-- 
2.43.0


From 3ca3ac98b92eed6d51cd85872f83d48da4949bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 14/49] fix: goos gradients of different inputs do not share
 storage

---
 spins/goos/graph_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d688101..e511f0d 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -24,6 +24,7 @@ from typing import Dict, List, Set, Tuple, Union
 
 import collections
 import concurrent.futures
+import copy
 import inspect
 
 import numpy as np
@@ -309,7 +310,9 @@ def eval_grad(
             if next_node in grad_vals:
                 grad_vals[next_node] += next_fun_grad
             else:
-                grad_vals[next_node] = next_fun_grad
+                # Contributions are accumulated in place so do not hold on to
+                # a gradient that may be shared with another node.
+                grad_vals[next_node] = copy.deepcopy(next_fun_grad)
 
     try:
         node_iter = iter(top_sorted_nodes)
-- 
2.43.0


From fc4cb3d07f5fcc3fd383491ccc4c2798039aa164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 15/49] fix: goos empty gradients are of the type of the input
 they stand for

---
 spins/goos/graph_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index e511f0d..9ae1a59 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -303,7 +303,7 @@ def eval_grad(
         # empty gradient structure.
         for i in range(len(node_grad_vals)):
             if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(input_vals[i]).Grad()
+                node_grad_vals[i] = type(fun_vals[graph[node][i]]).Grad()
 
         # Update the gradient values.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
-- 
2.43.0


From caf567ee85f7ee0bfbc3337bc7222fc241dea6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 16/49] fix: resumed goos optimization runs only the remaining
 iterations

---
 spins/goos/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index cc853c9..8969dfe 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -238,8 +238,8 @@ class ScipyOptimizer(goos.Action):
 
         # Adjust total number of iterations if we are resuming.
         options = copy.deepcopy(self._options)
-        if "maxiter" in options:
-            options["maxiter"] -= start_iter
+        if "maxiter" in options["options"]:
+            options["options"]["maxiter"] -= start_iter
 
         initial_val = np.hstack(initial_val)
         self._results = scipy.optimize.minimize(func,
-- 
2.43.0


From 6bb8c4b0368a71b20d9323e1dcce812ca29ee850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 17/49] fix: make_slice honours index zero

---
 spins/goos/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos/util.py b/spins/goos/util.py
index d252826..3508d55 100644
--- a/spins/goos/util.py
+++ b/spins/goos/util.py
@@ -148,10 +148,10 @@ def make_slice(
     if z == "center":
         z = shape[2] // 2
 
-    if x:
+    if x is not None:
         slicer[0] = slice(x, x + 1)
-    if y:
+    if y is not None:
         slicer[1] = slice(y, y + 1)
-    if z:
+    if z is not None:
         slicer[2] = slice(z, z + 1)
     return tuple(slicer)
-- 
2.43.0


From 10d9d78b6fc926ed30317553f684e940ceed1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 18/49] fix: pop_plan returns the plan it pops

---
 spins/goos/optplan/optplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 9da7911..9549dc1 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -709,7 +709,7 @@ def push_plan(plan: OptimizationPlan) -> None:
 
 
 def pop_plan() -> OptimizationPlan:
-    optplan.GLOBAL_PLAN_STACK.pop()
+    return optplan.GLOBAL_PLAN_STACK.pop()
 
 
 def get_default_plan() -> OptimizationPlan:
-- 
2.43.0


From 932c9cc9d9ea799dbd769a925bc0212b0f1b2671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:18 +0000
Subject: [PATCH 19/49] fix: resume passes auto_checkpoint on to the remaining
 actions

---
 spins/goos/optplan/optplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 9549dc1..2a5bd9e 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -624,7 +624,7 @@ class OptimizationPlan:
         self._action_data = None
         self._modifiable = False
 
-        self.run()
+        self.run(auto_checkpoint)
 
     def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
         """Evaluates nodes.
-- 
2.43.0


From ff78aa5773877d9533c5fa6a385710d3d46cb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:49 +0000
Subject: [PATCH 20/49] fix: goos executor never runs a heavy node concurrently
 with its inputs

---
 spins/goos/graph_executor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 9ae1a59..136ed33 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -194,7 +194,12 @@ def _eval_fun_vals(
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # Nodes in a block are computed concurrently so a node cannot
+                # be in the same block as one of its inputs.
+                while (_is_heavy_fun(fun_map[node]) and
+                       node not in fun_vals and
+                       not any(in_node in heavy_node_block
+                               for in_node in graph[node])):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -339,7 +344,11 @@ def eval_grad(
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # Nodes in a block are computed concurrently so a node cannot
+                # be in the same block as a node that depends on it.
+                while (_is_heavy_fun(fun_map[node]) and
+                       not any(node in graph[node_]
+                               for node_ in heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
-- 
2.43.0


From 777e009a90679f8110e7e85ef1adfeb949bcd454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:49 +0000
Subject: [PATCH 21/49] fix: invdes executor never runs a heavy node
 concurrently with its inputs

---
 spins/invdes/problem/graph_executor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index f214d71..ce00f89 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -158,7 +158,12 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # Nodes in a block are computed concurrently so a node cannot
+                # be in the same block as one of its inputs.
+                while (_is_heavy_fun(fun_map[node]) and
+                       node not in fun_vals and
+                       not any(in_node in heavy_node_block
+                               for in_node in graph[node])):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -287,7 +292,11 @@ def eval_grad(fun: "OptimizationFunction",
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                # Nodes in a block are computed concurrently so a node cannot
+                # be in the same block as a node that depends on it.
+                while (_is_heavy_fun(fun_map[node]) and
+                       not any(node in graph[node_]
+                               for node_ in heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
-- 
2.43.0


From e11ada6731027bf9568b80aaf4c3b7d1b7a52f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:07 +0000
Subject: [PATCH 22/49] fix: goos flow gradients add inherited fields once

---
 spins/goos/flows.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 23d5d20..39948bc 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -95,8 +95,16 @@ class FlowMeta(type):
                                                   grad_fields,
                                                   bases=grad_bases)
 
+            # Inherited gradient fields are added up by the base classes.
+            inherited_fields = set()
+            for grad_base in grad_bases:
+                inherited_fields.update(
+                    getattr(grad_base, "__dataclass_fields__", {}))
+
             def __iadd__(self, value):
                 for field in grad_fields:
+                    if field[0] in inherited_fields:
+                        continue
                     field_val = getattr(self, field[0])
                     value_val = getattr(value, field[0])
                     try:
-- 
2.43.0


From 3e00edbf5448c2845cefb95dfa76d117804a4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:21 +0000
Subject: [PATCH 23/49] fix: goos plans with nodes in tuples can be saved

---
 spins/goos/optplan/optplan.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 2a5bd9e..f59d6b6 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -144,8 +144,7 @@ def _replace_node_with_schema(value: Any) -> Any:
     if isinstance(value, list):
         return [_replace_node_with_schema(item) for item in value]
     elif isinstance(value, tuple):
-        # TODO
-        pass
+        return tuple(_replace_node_with_schema(item) for item in value)
     elif isinstance(value, dict):
         # TODO: check key of dictionary
         return {
-- 
2.43.0


From 0f2fb825a4b36ec253739b944f80f1bbffc3a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:19 +0000
Subject: [PATCH 24/49] fix: adjoint simulation on a stretched grid undoes the
 right symmetrization

---
 spins/invdes/problem/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index b384270..e2d7319 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -235,7 +235,7 @@ class AdjointFdfdSimulation:
         new_J = np.copy(fdfd_tools.unvec(J, self.sim.dims))
 
         for k in range(3):
-            new_J[k] /= np.conj(s[k])
+            new_J[k] /= s[k]
         new_J = fdfd_tools.vec(new_J)
         mu = None
         if self.sim.mu is not None:
@@ -254,6 +254,6 @@ class AdjointFdfdSimulation:
         # Unvec to undo right pre-conditioner.
         efields = fdfd_tools.unvec(efields, self.sim.dims)
         for i in range(3):
-            efields[i] = np.multiply(efields[i], np.conj(s[i]))
+            efields[i] = np.multiply(efields[i], s[i])
         efields = fdfd_tools.vec(efields)
         return efields
-- 
2.43.0


From b02e4b4f17fe7f46c7739f1c0d13bd149c9b3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:19 +0000
Subject: [PATCH 25/49] fix: simulation caches keep their own copy of the
 structure

---
 spins/invdes/problem/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index e2d7319..7c9350e 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -107,7 +107,7 @@ class FdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, electric_fields))
+            self.cache.append((np.array(z), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
@@ -182,7 +182,7 @@ class AdjointFdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, J, electric_fields))
+            self.cache.append((np.array(z), np.array(J), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 454f39f93201e259fe6c88371bb8dbc1ba98918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:43 +0000
Subject: [PATCH 26/49] fix: workspace can be created on current Python
 versions

---
 spins/invdes/problem_graph/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 989b91b..ad1fe2c 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -4,7 +4,7 @@ The workspace has the following responsibilities:
     1) Creating and caching problem graph node objects.
     2) Handling execution of transformations.
 """
-import collections
+import collections.abc
 from datetime import datetime
 import glob
 import logging
@@ -56,7 +56,7 @@ class Workspace:
         # TODO(logansu): Accept argument-less variable.
         self._objects[VARIABLE_NODE] = problem.Variable(1)
 
-        if isinstance(nodes, collections.Iterable):
+        if isinstance(nodes, collections.abc.Iterable):
             for node in nodes:
                 self._add_node(node)
         elif nodes:
-- 
2.43.0


From f5b63fd20f4cac6b41a23c812b9d6da102992d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:49 +0000
Subject: [PATCH 27/49] fix: scipy transformation accepts options given as a
 dictionary or not at all

---
 spins/invdes/problem_graph/creator_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index dd7e3ef..1524790 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -141,7 +141,7 @@ class ScipyOptimizer:
                 monitor_list=self.monitor_lists.callback_monitors)
 
         # Run optimization.
-        opt_options = self.optimization_options.to_native()
+        opt_options = dict(self.optimization_options)
         # If restoring, decrease maximum number of iterations based on
         # number of iterations already performed.
         if "maxiter" in opt_options:
-- 
2.43.0


From ba01e4a199fe3059b1705d9a2c2797764153a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:44 +0000
Subject: [PATCH 28/49] fix: goos sums and products combine scalars with arrays
 on current numpy

---
 spins/goos/math.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 45c2c27..6129114 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -1,6 +1,7 @@
 from typing import List, Iterable, Union
 
 import copy
+import functools
 import numbers
 
 import numpy as np
@@ -251,7 +252,7 @@ class Sum(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.sum([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(np.add, [x.array for x in inputs], 0)
         return flow
 
     def grad(self, inputs: List[flows.NumericFlow],
@@ -289,7 +290,7 @@ class Product(Function):
 
     def eval(self, inputs: List[flows.NumericFlow]) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.prod([x.array for x in inputs], axis=0)
+        flow.array = functools.reduce(np.multiply, [x.array for x in inputs], 1)
         return flow
 
     def grad(self, input_vals: List[flows.NumericFlow],
@@ -298,8 +299,9 @@ class Product(Function):
         grads = []
         for i in range(len(input_val_arr)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_val_arr[:i], axis=0)
-            prod_after = np.prod(input_val_arr[i + 1:], axis=0)
+            prod_before = functools.reduce(np.multiply, input_val_arr[:i], 1.0)
+            prod_after = functools.reduce(np.multiply, input_val_arr[i + 1:],
+                                          1.0)
             grads.append(prod_before * prod_after * grad_val.array_grad)
 
         grad_flows = []
-- 
2.43.0


From 7e5db0da2e7b166dc32d0a564c8df05be907d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 29/49] fix: goos sums and products add up the gradient of a
 broadcast operand

---
 spins/goos/math.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 6129114..c4ebd59 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -242,6 +242,24 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
         return dom_flow
 
 
+def _sum_broadcast(grad: np.ndarray, arr: np.ndarray) -> np.ndarray:
+    """Sums a gradient over the axes along which an operand was broadcast.
+
+    Args:
+        grad: Gradient with respect to each element of the result.
+        arr: The operand.
+
+    Returns:
+        Gradient with respect to each element of the operand.
+    """
+    if np.size(grad) <= np.size(arr):
+        return grad
+    shape = np.shape(arr) or (1,)
+    grad = np.sum(grad, axis=tuple(range(np.ndim(grad) - len(shape))))
+    axes = tuple(axis for axis, size in enumerate(shape) if size == 1)
+    return np.sum(grad, axis=axes, keepdims=True)
+
+
 class Sum(Function):
     node_type = "goos.function.sum"
 
@@ -264,7 +282,9 @@ class Sum(Function):
             if ind == i:
                 grads.append(copy.deepcopy(grad_val))
             else:
-                grads.append(goos.NumericFlow.Grad(grad_val.array_grad))
+                grads.append(
+                    goos.NumericFlow.Grad(
+                        _sum_broadcast(grad_val.array_grad, inputs[i].array)))
         return grads
 
     def __add__(self, obj):
@@ -302,7 +322,9 @@ class Product(Function):
             prod_before = functools.reduce(np.multiply, input_val_arr[:i], 1.0)
             prod_after = functools.reduce(np.multiply, input_val_arr[i + 1:],
                                           1.0)
-            grads.append(prod_before * prod_after * grad_val.array_grad)
+            grads.append(
+                _sum_broadcast(prod_before * prod_after * grad_val.array_grad,
+                               input_val_arr[i]))
 
         grad_flows = []
         _, ind = find_dominant_numeric_flow(input_vals, return_ind=True)
-- 
2.43.0


From a944378fd99ab245928efa746df026a3ebe16310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 30/49] fix: checkpoints can be written when there is no action
 left to run

---
 spins/goos/optplan/optplan.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index f59d6b6..0b55de8 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -350,10 +350,15 @@ class OptimizationPlan:
                 "bounds": self._var_bounds[var_name],
             }
 
+        # There is no current action if all actions have been run.
+        action_name = None
+        if self._action_ptr < len(self._actions):
+            action_name = self._actions[self._action_ptr]._goos_name
+
         data = {
             "version": "0.2.0",
             "action_ptr": self._action_ptr,
-            "action": self._actions[self._action_ptr]._goos_name,
+            "action": action_name,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
         }
-- 
2.43.0


From d5742bf889aeaa1e5df8d5bf518b373cc56194ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 31/49] fix: checkpoints restore the log counter so resumed
 runs keep earlier logs

---
 spins/goos/optplan/optplan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 0b55de8..929abfc 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -360,6 +360,7 @@ class OptimizationPlan:
             "action_ptr": self._action_ptr,
             "action": action_name,
             "time": str(datetime.datetime.now()),
+            "log_counter": self._log_counter,
             "variable_data": var_data,
         }
         # TODO(logansu): Remove "transformation" and "parametrization".
@@ -466,6 +467,7 @@ class OptimizationPlan:
 
         self._action_ptr = data["action_ptr"]
         self._action_data = data.get("event", None)
+        self._log_counter = data.get("log_counter", self._log_counter)
 
         # Unpack variables.
         for var_name, var_data in data["variable_data"].items():
-- 
2.43.0


From 2ff481504b863041210594b224c7719cbfba23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 32/49] fix: resuming from the checkpoint of a completed action
 does not rerun it

---
 spins/goos/optplan/optplan.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 929abfc..3fec238 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -568,13 +568,13 @@ class OptimizationPlan:
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
             self._actions[self._action_ptr].run(self)
 
+            self._action_ptr += 1
+            self._action_data = None
+
             if auto_checkpoint and self._save_path:
                 self.write_checkpoint(
                     os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
-
-            self._action_ptr += 1
-            self._action_data = None
+                                 "action{}.chkpt".format(self._action_ptr - 1)))
         self._modifiable = False
 
     def resume(self,
@@ -602,6 +602,10 @@ class OptimizationPlan:
         if checkpoint:
             self.read_checkpoint(checkpoint)
 
+        # Nothing to resume if all the actions have been completed.
+        if self._action_ptr >= len(self._actions):
+            return
+
         self._modifiable = True
 
         # Attempt to resume if there is event data to resume from.
@@ -621,13 +625,13 @@ class OptimizationPlan:
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
             self._actions[self._action_ptr].run(self)
 
+        self._action_ptr += 1
+        self._action_data = None
+
         if auto_checkpoint and self._save_path:
             self.write_checkpoint(
                 os.path.join(self._save_path,
-                             "action{}.chkpt".format(self._action_ptr)))
-
-        self._action_ptr += 1
-        self._action_data = None
+                             "action{}.chkpt".format(self._action_ptr - 1)))
         self._modifiable = False
 
         self.run(auto_checkpoint)
-- 
2.43.0


From 5a3d11b8247cdb2e21d0bc27f828459a9b83acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:02 +0000
Subject: [PATCH 33/49] fix: a plan cannot be modified after one of its actions
 failed

---
 spins/goos/optplan/optplan.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 3fec238..c6a6d15 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, Iterable, List, NamedTuple, Optional, Union
 import copy
 import dataclasses
 import datetime
+import functools
 import inspect
 import json
 import logging
@@ -234,6 +235,20 @@ def _requires_action(method):
     return decorator
 
 
+# Decorator to mark methods in `OptimizationPlan` that run actions. Whether or
+# not an action fails, the plan cannot be modified once the method is done.
+def _runs_actions(method):
+
+    @functools.wraps(method)
+    def decorator(self, *args, **kwargs):
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            self._modifiable = False
+
+    return decorator
+
+
 class OptimizationPlan:
 
     def __init__(self,
@@ -554,6 +569,7 @@ class OptimizationPlan:
             if not self._var_frozen[var_name]
         ]
 
+    @_runs_actions
     def run(self, auto_checkpoint: bool = True) -> None:
         """Runs the optimization plan.
 
@@ -577,6 +593,7 @@ class OptimizationPlan:
                                  "action{}.chkpt".format(self._action_ptr - 1)))
         self._modifiable = False
 
+    @_runs_actions
     def resume(self,
                checkpoint: str = None,
                auto_checkpoint: bool = True) -> None:
-- 
2.43.0


From a4909307c87c17968045d82ef126100d644c63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:29 +0000
Subject: [PATCH 34/49] fix: resuming inside a transformation restores the
 parameter values

---
 spins/invdes/problem_graph/solver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index e4ed8cc..4cda4da 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -177,6 +177,14 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
                 log_data["parametrization"])
         event_data = log_data["event"]
 
+        # The transformation is not started anew so its parameters will not be
+        # set again: restore their values.
+        parameter_list = plan.transformations[transform_index].parameter_list
+        for set_param in parameter_list or []:
+            work._add_node(set_param.parameter)
+        for param, param_value in log_data["parameters"].items():
+            work.get_object(param).set_parameter_value(param_value)
+
     # TODO(logansu): Remove hack.
     work.logger._log_counter = log_data["log_counter"]
 
-- 
2.43.0


From f6ccd2836fe9a548138f6ab763e78564a93d3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:54 +0000
Subject: [PATCH 35/49] fix: ind2pos works with rounded indices and checks the
 upper bound

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 9e6bdfe..005a918 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -250,13 +250,13 @@ class Grid:
             else:
                 low_bound = -0.5
                 high_bound = -0.5
-            if (ind < low_bound).any() or (ind > self.shape - high_bound).any():
+            if (ind < low_bound).any() or (ind > self.shape + high_bound).any():
                 raise GridError('Position outside of grid: {}'.format(ind))
 
         if round_ind:
             rind = np.clip(np.round(ind), 0, self.shape - 1)
             sxyz = self.shifted_xyz(which_shifts, which_grid)
-            position = [sxyz[a][rind[a]].astype(int) for a in range(3)]
+            position = [sxyz[a][int(rind[a])] for a in range(3)]
         else:
             sexyz = self.shifted_exyz(which_shifts, which_grid)
             position = [
-- 
2.43.0


From 621aed896bb695ba80671287f8e4515dad10d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:27 +0000
Subject: [PATCH 36/49] fix: complex rendering gradients weigh all field
 components equally

---
 spins/goos_sim/maxwell/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/render.py b/spins/goos_sim/maxwell/render.py
index ecd2c4e..680d79d 100644
--- a/spins/goos_sim/maxwell/render.py
+++ b/spins/goos_sim/maxwell/render.py
@@ -151,10 +151,11 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
             ]
             mat = get_rendering_matrix(shape_coords, grid_coords)
             grid_vals = contrast * mat.T @ grid.grids[axis].flatten()
-            grad += np.real(np.reshape(grid_vals, self.shape.array.shape))
+            grad_axis = np.real(np.reshape(grid_vals, self.shape.array.shape))
             # TODO(logansu): Fix complex gradient.
             if np.iscomplexobj(grid_vals):
-                grad *= 2
+                grad_axis = 2 * grad_axis
+            grad += grad_axis
 
         return goos.PixelatedContShapeFlow.Grad(array_grad=grad)
 
-- 
2.43.0


From 880ce21a230bd60f41f966ba557bf5b9957542d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:57 +0000
Subject: [PATCH 37/49] fix: derivative of the first-edge grating constraint
 has the sign of its value

---
 spins/goos/grating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 97a954b..a398ede 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -729,7 +729,7 @@ class EdgeLocConstraint(goos.Function):
 
             # Append constraints for first and last edge.
             first = np.zeros(len(vector))
-            first[0] = 1
+            first[0] = -1
             last = np.zeros(len(vector))
             last[-1] = 1
             self._diff_mat = np.vstack([self._diff_mat, first, last])
-- 
2.43.0


From 998ee1e3b09eb1f6df289bf15f0dba086cccfb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 38/49] fix: multiplying an objective by an array builds a
 product

---
 spins/invdes/problem/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 028924a..17513bd 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -147,7 +147,7 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         if isinstance(obj, numbers.Number):
             return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, np.ndarray):
-            return Sum([self, Constant(obj)], parallelize=False)
+            return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, OptimizationFunction):
             return Product([self, obj])
         raise TypeError("Attempting to add unknown object to objective")
-- 
2.43.0


From c9f7b55a0d22082241237bcc82e73075795684c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 39/49] fix: products of real and complex arrays can be
 evaluated

---
 spins/invdes/problem/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 17513bd..602c9ae 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -580,7 +580,7 @@ class Product(OptimizationFunction):
     def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
         total = 1.0
         for obj in input_vals:
-            total *= obj
+            total = total * obj
         return total
 
     def grad(self, input_vals: List[np.ndarray],
-- 
2.43.0


From 54ad01c7817db105539a844b8f7b6ac7ccd1ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 40/49] fix: products of arrays and several scalars can be
 differentiated

---
 spins/invdes/problem/objective.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 602c9ae..db93123 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -8,6 +8,7 @@ objectives.
 
 import abc
 import concurrent.futures
+import functools
 import numbers
 from typing import List, Union
 
@@ -588,8 +589,8 @@ class Product(OptimizationFunction):
         grads = []
         for i in range(len(input_vals)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_vals[:i], axis=0)
-            prod_after = np.prod(input_vals[i + 1:], axis=0)
+            prod_before = functools.reduce(np.multiply, input_vals[:i], 1.0)
+            prod_after = functools.reduce(np.multiply, input_vals[i + 1:], 1.0)
             grads.append(prod_before * prod_after * grad_val)
         return grads
 
-- 
2.43.0


From 24f7289afbb7d4dc7918c068e8654bc4466e35e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 41/49] fix: functional wave operator divides by the
 permeability

---
 spins/fdfd_tools/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_tools/functional.py b/spins/fdfd_tools/functional.py
index c0fd2d9..38ea02a 100644
--- a/spins/fdfd_tools/functional.py
+++ b/spins/fdfd_tools/functional.py
@@ -84,7 +84,7 @@ def e_full(omega: complex,
         return [c - omega**2 * e * x for c, e, x in zip(curls, epsilon, e)]
 
     def op_mu(e):
-        curls = ch([m * y for m, y in zip(mu, ce(e))])
+        curls = ch([y / m for m, y in zip(mu, ce(e))])
         return [c - omega**2 * p * x for c, p, x in zip(curls, epsilon, e)]
 
     if np.any(np.equal(mu, None)):
-- 
2.43.0


From a03166f8eb08d8b8a3439b4f0c218ee3f066a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 42/49] fix: nonuniform grids use the default spacing of each
 axis

---
 spins/fdfd_tools/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/fdfd_tools/grid.py b/spins/fdfd_tools/grid.py
index f769a1f..27e22d6 100644
--- a/spins/fdfd_tools/grid.py
+++ b/spins/fdfd_tools/grid.py
@@ -217,8 +217,8 @@ def make_nonuniform_grid(SimBorders: List[int],
     y = np.linspace(np.floor(SimBorders[2]), np.ceil(SimBorders[3]), NY + 1)
     z = np.linspace(np.floor(SimBorders[4]), np.ceil(SimBorders[5]), NZ + 1)
     dx = dx_default[0] * np.ones((1, NX + 1))
-    dy = dx_default[0] * np.ones((1, NY + 1))
-    dz = dx_default[0] * np.ones((1, NZ + 1))
+    dy = dx_default[1] * np.ones((1, NY + 1))
+    dz = dx_default[2] * np.ones((1, NZ + 1))
 
     # define a function that makes a dx vector with DX in between x0 and xn and
     # that increases outside of the [x0, xn] with grad_mesh
-- 
2.43.0


From 47211a6f53decc4f27ed9ad99bef19ed0f65bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 43/49] fix: goos plan versions are compared as a whole

---
 spins/goos/optplan/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/optplan/schema.py b/spins/goos/optplan/schema.py
index 6f7d19f..33e4f1f 100644
--- a/spins/goos/optplan/schema.py
+++ b/spins/goos/optplan/schema.py
@@ -448,7 +448,7 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 3:
+    if version_parts < [0, 3]:
         raise ValueError(
             "Optplan must be at least version 0.3.0, got {}".format(version))
 
-- 
2.43.0


From 983520e4e45b129991e21ffbbbe3408f72008989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 44/49] fix: optimization plan versions are compared as a whole

---
 spins/invdes/problem_graph/optplan/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index 261dff3..f251385 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -286,7 +286,7 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 2 or version_parts[2] < 3:
+    if version_parts < [0, 2, 3]:
         raise ValueError(
             "Optplan must be at least version 0.2.1, got {}".format(version))
 
-- 
2.43.0


From 5f1cce90fae7737331e3966d671bcb2a5f4c1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 45/49] fix: gradient of the permittivity fit is that of the
 squared error

---
 spins/invdes/problem/structure_objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/structure_objectives.py b/spins/invdes/problem/structure_objectives.py
index 9ce0e86..703ab26 100644
--- a/spins/invdes/problem/structure_objectives.py
+++ b/spins/invdes/problem/structure_objectives.py
@@ -29,7 +29,7 @@ class Fit2Eps(OptimizationFunction):
         z = param.get_structure()
         err = self.eps_bg + self.S @ z - self.eps
         return np.asfortranarray(
-            np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
+            2 * np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
 
     def __str__(self) -> str:
         return 'fit2eps()'
-- 
2.43.0


From 19a27361576ace1a971e066aa5665ff46e73ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:57 +0000
Subject: [PATCH 46/49] fix: goos optimizer can count iterations in a parameter

---
 spins/goos/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 8969dfe..dffc649 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -229,7 +229,9 @@ class ScipyOptimizer(goos.Action):
             nonlocal iter_num
             iter_num += 1
             if self._iter:
-                plan.set_var_value(self._iter, iter_num)
+                plan.set_var_value(self._iter,
+                                   iter_num,
+                                   check_frozen=not self._iter._is_param)
 
             plan.write_event({
                 "state": "optimizing",
-- 
2.43.0


From 1e0fa6fe37bf5bd66eca6b2385eddf1a0190c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:45 +0000
Subject: [PATCH 47/49] fix: tolerance of iterative solvers is relative to the
 source once

---
 spins/fdfd_solvers/local_matrix_solvers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/spins/fdfd_solvers/local_matrix_solvers.py b/spins/fdfd_solvers/local_matrix_solvers.py
index 7186b06..a5614c6 100644
--- a/spins/fdfd_solvers/local_matrix_solvers.py
+++ b/spins/fdfd_solvers/local_matrix_solvers.py
@@ -137,8 +137,7 @@ class QmrSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.qmr(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.qmr(A, b, tol=self.relative_tol)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
@@ -158,8 +157,7 @@ class BiCgSolver(LocalMatrixSolver):
         self.relative_tol = relative_tol
 
     def solve_matrix_equation(self, A, b):
-        tol = self.relative_tol * np.linalg.norm(b)
-        x, info = scipy.sparse.linalg.bicg(A, b, tol=tol)
+        x, info = scipy.sparse.linalg.bicg(A, b, tol=self.relative_tol)
         if info > 0:
             logger.error('Convergence tolerance not achieved.')
         elif info < 0:
-- 
2.43.0


From 1d0ad5c6349be4d383037283694d080194a5ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:45 +0000
Subject: [PATCH 48/49] fix: ScipyOptimizer leaves the options it is given
 unchanged

---
 spins/invdes/optimization/scipy_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 3689b80..f91ac3f 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -44,7 +44,9 @@ class ScipyOptimizer:
         if options:
             if "tol" in options.keys():
                 self.tol = options["tol"]
-                del self.options["tol"]
+                self.options = {
+                    key: value for key, value in options.items() if key != "tol"
+                }
 
     def __call__(self, opt, param, callback=None):
         if isinstance(opt, OptimizationFunction):
-- 
2.43.0


From a060c739c5fa05576a70792d5d022bd485fa35be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:45 +0000
Subject: [PATCH 49/49] fix: gradients of composite parametrizations can be
 multiplied from the left

---
 .../composite_parametrization.py              | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/parametrization/composite_parametrization.py b/spins/invdes/parametrization/composite_parametrization.py
index 3f6c8c4..1ece6ca 100644
--- a/spins/invdes/parametrization/composite_parametrization.py
+++ b/spins/invdes/parametrization/composite_parametrization.py
@@ -89,8 +89,8 @@ class CompositeParam(parametrization.Parametrization):
 
         # Compute the total size of the `z` vector corresponding to the
         # composite parametrization.
-        self._z_size = np.sum([param.get_structure().size
-                               for param in self._params])
+        self._z_sizes = [param.get_structure().size for param in self._params]
+        self._z_size = np.sum(self._z_sizes)
 
     def get_structure(self) -> np.ndarray:
         """Calculate the `z` vector for the parametrization.
@@ -143,8 +143,23 @@ class CompositeParam(parametrization.Parametrization):
             return np.hstack([param.calculate_gradient() @ sub_vec for
                               param, sub_vec in zip(self._params, split_vec)])
 
+        def _jacobian_adjoint_vec_prod(vec: np.ndarray) -> np.ndarray:
+            """Calculate the product of the adjoint jacobian with a vector.
+
+            Args:
+                 vec: The numpy array to multiply the adjoint jacobian to.
+
+            Returns:
+                 The product of the adjoint of the jacobian with `vec`.
+            """
+            split_vec = _split_vector(np.conj(vec), self._z_sizes)
+            return np.conj(
+                np.hstack([sub_vec @ param.calculate_gradient() for
+                           param, sub_vec in zip(self._params, split_vec)]))
+
         return linalg.LinearOperator((self._z_size, np.sum(self._param_sizes)),
-                                     matvec=_jacobian_vec_prod)
+                                     matvec=_jacobian_vec_prod,
+                                     rmatvec=_jacobian_adjoint_vec_prod)
 
     def encode(self) -> np.ndarray:
         """Encode the parametrization into a vector form.
-- 
2.43.0

