From 17f0e25e6c7030a8da44c797f0915ba7e7a35a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:25 +0000
Subject: [PATCH 01/33] fix: reduce the stepsize once, and never increase it,
 when the solver diverges

Stepsize.adapt() divided the stepsize by the change ratio on divergence and
then applied the rule of converged steps on top: with maximum_iterations < 5
the stepsize was left unchanged and the solve retried forever.
---
 festim/stepsize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index f601069..1d65393 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -102,7 +102,7 @@ class Stepsize:
                 self.value.assign(float(self.value) / change_ratio)
                 if float(self.value) < dt_min:
                     raise ValueError("stepsize reached minimal value")
-            if nb_it < 5:
+            elif nb_it < 5:
                 self.value.assign(float(self.value) * change_ratio)
             else:
                 self.value.assign(float(self.value) / change_ratio)
-- 
2.43.0


From 0a3a1dc4632bbf1531a8def71c30f92e8a319ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:25 +0000
Subject: [PATCH 02/33] fix: don't skip the milestone that follows one reached
 up to rounding

When t ended up just below a milestone, that milestone was still returned as
the next one, the stepsize was not adapted and the following milestone could
be jumped over.
---
 festim/stepsize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/festim/stepsize.py b/festim/stepsize.py
index 1d65393..3033488 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -116,9 +116,7 @@ class Stepsize:
         # adapt for next milestone
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
-            if t + float(self.value) > next_milestone and not np.isclose(
-                t, next_milestone, atol=0
-            ):
+            if t + float(self.value) > next_milestone:
                 self.value.assign((next_milestone - t))
 
     def next_milestone(self, current_time: float):
@@ -134,6 +132,9 @@ class Stepsize:
         if self.milestones is None:
             return None
         for milestone in self.milestones:
-            if current_time < milestone:
+            # a milestone reached up to rounding errors is not the next one
+            if current_time < milestone and not np.isclose(
+                current_time, milestone, atol=0
+            ):
                 return milestone
         return None
-- 
2.43.0


From 88d111f2c1fea5029e37f9794f678e9f7d1b45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:19 +0000
Subject: [PATCH 03/33] fix: don't let the first step go past a milestone or
 the final time

The initial stepsize was only compared to milestones and to the final time
after the first step.
---
 festim/generic_simulation.py | 8 ++++++++
 festim/stepsize.py           | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index beb556f..96d78e3 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -475,6 +475,10 @@ class Simulation:
         if not self.settings.update_jacobian:
             self.h_transport_problem.compute_jacobian()
 
+        # the first step must not go past a milestone or the final time
+        self.dt.adapt_to_next_milestone(self.t)
+        self.adapt_dt_to_final_time()
+
         #  Time-stepping
         festim.festim_print("Time stepping...")
         while self.t < self.settings.final_time and not np.isclose(
@@ -517,6 +521,10 @@ class Simulation:
         self.run_post_processing()
 
         # avoid t > final_time
+        self.adapt_dt_to_final_time()
+
+    def adapt_dt_to_final_time(self):
+        """Shortens the stepsize if it would go past the final time"""
         next_time = self.t + float(self.dt.value)
         if next_time > self.settings.final_time:
             self.dt.value.assign(self.settings.final_time - self.t)
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 3033488..3274927 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -113,7 +113,14 @@ class Stepsize:
                 if float(self.value) > max_stepsize:
                     self.value.assign(max_stepsize)
 
-        # adapt for next milestone
+        self.adapt_to_next_milestone(t)
+
+    def adapt_to_next_milestone(self, t):
+        """Shortens the stepsize if it would go past the next milestone.
+
+        Args:
+            t (float): current time.
+        """
         next_milestone = self.next_milestone(t)
         if next_milestone is not None:
             if t + float(self.value) > next_milestone:
-- 
2.43.0


From 758f9b9e3bcc9eb0c31315be2ce3dfb6119ddf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:19 +0000
Subject: [PATCH 04/33] fix: keep the initial condition of a
 HeatTransferProblem as given

create_functions() replaced initial_condition.value by a fenics.Expression,
which can't be converted by sympy when the model is initialised again.
---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index c520463..8a23afa 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -123,8 +123,8 @@ class HeatTransferProblem(festim.Temperature):
                         )
             else:
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
-                self.initial_condition.value = f.Expression(ccode_T_ini, degree=2, t=0)
-                self.T_n.assign(f.interpolate(self.initial_condition.value, V))
+                T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
+                self.T_n.assign(f.interpolate(T_ini, V))
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
-- 
2.43.0


From eb2a82f94216f626765217deb14a859fa78b7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 05/33] fix: previous temperature of a transient
 HeatTransferProblem

T_n was overwritten by the new temperature before the hydrogen transport
problem was solved, so that with conservation of chemical potential the
previous concentration theta_n*S(T_n) was evaluated at the new temperature.
T was also left to zero until the first step, where initial conditions are
divided by S(T).
---
 festim/temperature/temperature_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index 8a23afa..ca966fb 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -125,6 +125,7 @@ class HeatTransferProblem(festim.Temperature):
                 ccode_T_ini = sp.printing.ccode(self.initial_condition.value)
                 T_ini = f.Expression(ccode_T_ini, degree=2, t=0)
                 self.T_n.assign(f.interpolate(T_ini, V))
+            self.T.assign(self.T_n)
 
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
@@ -260,6 +261,7 @@ class HeatTransferProblem(festim.Temperature):
             t (float): the time
         """
         if self.transient:
+            self.T_n.assign(self.T)
             festim.update_expressions(self.sub_expressions, t)
             # Solve heat transfers
             dT = f.TrialFunction(self.T.function_space())
@@ -272,7 +274,5 @@ class HeatTransferProblem(festim.Temperature):
             self.newton_solver.solve(problem, self.T.vector())
             f.end()
 
-            self.T_n.assign(self.T)
-
     def is_steady_state(self):
         return not self.transient
-- 
2.43.0


From fbcbe34f995cac39d9ade08bff1b4810cb5072ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:27 +0000
Subject: [PATCH 06/33] fix: retry a step that doesn't converge at the time of
 the reduced stepsize

Only the stepsize was reduced: the step was retried with the time, temperature
and time dependent inputs of the full step, and the run went on from that
time. With a stepsize that isn't adaptive the solve was retried forever.
---
 festim/generic_simulation.py  | 18 ++++++++++++------
 festim/h_transport_problem.py | 17 ++++++++++++-----
 festim/stepsize.py            |  3 +++
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 96d78e3..4491c73 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -507,12 +507,18 @@ class Simulation:
 
     def iterate(self):
         """Advance the model by one iteration"""
-        # Update current time
-        self.t += float(self.dt.value)
-        # update temperature
-        self.T.update(self.t)
-        # update H problem
-        self.h_transport_problem.update(self.t, self.dt)
+        previous_t = self.t
+        converged = False
+        while not converged:
+            # Update current time
+            self.t = previous_t + float(self.dt.value)
+            # update temperature
+            self.T.update(self.t)
+            # update H problem
+            converged = self.h_transport_problem.update(self.t, self.dt)
+            if not converged:
+                # start again from the last temperature
+                self.T.T.assign(self.T.T_n)
 
         # Display time
         self.display_time()
diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 24cc3f5..3a6433b 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -330,23 +330,30 @@ class HTransportProblem:
         Args:
             t (float): the current time (s)
             dt (festim.Stepsize): the stepsize
+
+        Returns:
+            bool: True if the solver converged, else False. In that case the
+                solution is left unchanged and the stepsize is reduced.
         """
         festim.update_expressions(self.expressions, t)
 
-        converged = False
         u_ = Function(self.u.function_space())
         u_.assign(self.u)
-        while converged is False:
+        nb_it, converged = self.solve_once()
+        if not converged:
+            # the step has to be retried with a smaller stepsize
             self.u.assign(u_)
-            nb_it, converged = self.solve_once()
-            if dt.adaptive_stepsize is not None or dt.milestones is not None:
-                dt.adapt(t, nb_it, converged)
+            dt.adapt(t - float(dt.value), nb_it, converged)
+            return False
+        if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            dt.adapt(t, nb_it, converged)
 
         # Update previous solutions
         self.update_previous_solutions()
 
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
+        return True
 
     def solve_once(self):
         """Solves non linear problem
diff --git a/festim/stepsize.py b/festim/stepsize.py
index 3274927..0d7b223 100644
--- a/festim/stepsize.py
+++ b/festim/stepsize.py
@@ -90,6 +90,9 @@ class Stepsize:
             nb_it (int): number of iterations the solver required to converge.
             converged (bool): True if the solver converged, else False.
         """
+        if not converged and not self.adaptive_stepsize:
+            raise ValueError("Solver diverged but the stepsize is not adaptive.")
+
         if self.adaptive_stepsize:
             change_ratio = self.adaptive_stepsize["stepsize_change_ratio"]
             dt_min = self.adaptive_stepsize["dt_min"]
-- 
2.43.0


From b564d6bed281406472b86fd815c7c468733da825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:27 +0000
Subject: [PATCH 07/33] fix: integrate extrinsic trap densities over the step
 that was taken

The densities were solved after the stepsize had been adapted for the next
step, so with a new value of dt.
---
 festim/h_transport_problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index 3a6433b..b96d6e3 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -345,14 +345,16 @@ class HTransportProblem:
             self.u.assign(u_)
             dt.adapt(t - float(dt.value), nb_it, converged)
             return False
-        if dt.adaptive_stepsize is not None or dt.milestones is not None:
-            dt.adapt(t, nb_it, converged)
 
         # Update previous solutions
         self.update_previous_solutions()
 
         # Solve extrinsic traps formulation
         self.traps.solve_extrinsic_traps()
+
+        # Adapt the stepsize once everything has been solved with it
+        if dt.adaptive_stepsize is not None or dt.milestones is not None:
+            dt.adapt(t, nb_it, converged)
         return True
 
     def solve_once(self):
-- 
2.43.0


From 5dbd888f5af61daec091fd4116c9b5652eb3a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:19 +0000
Subject: [PATCH 08/33] fix: update the time dependent parameters of extrinsic
 traps

phi, K, n_max... given as expressions of time were evaluated at t=0 throughout
the run.
---
 festim/concentration/traps/extrinsic_trap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/concentration/traps/extrinsic_trap.py b/festim/concentration/traps/extrinsic_trap.py
index 8eeef4d..de1c573 100644
--- a/festim/concentration/traps/extrinsic_trap.py
+++ b/festim/concentration/traps/extrinsic_trap.py
@@ -1,5 +1,5 @@
 from festim import Trap, as_constant_or_expression, festim_print
-from fenics import NewtonSolver, MPI
+from fenics import NewtonSolver, MPI, Expression, UserExpression
 
 
 class ExtrinsicTrapBase(Trap):
@@ -51,7 +51,11 @@ class ExtrinsicTrapBase(Trap):
 
         self.newton_solver = None
         for name, val in kwargs.items():
-            setattr(self, name, as_constant_or_expression(val))
+            val = as_constant_or_expression(val)
+            setattr(self, name, val)
+            # time dependent parameters have to be updated
+            if isinstance(val, (Expression, UserExpression)):
+                self.sub_expressions.append(val)
         self.density_previous_solution = None
         self.density_test_function = None
 
-- 
2.43.0


From 626614fcdcadef2dae5a553b6bb8fcf88f464d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:30 +0000
Subject: [PATCH 09/33] fix: CustomDirichlet with conservation of chemical
 potential

sub_expressions was a dict view, to which normalise_by_solubility() can't
append.
---
 festim/boundary_conditions/dirichlets/custom_dc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/boundary_conditions/dirichlets/custom_dc.py b/festim/boundary_conditions/dirichlets/custom_dc.py
index fa84daf..5481c60 100644
--- a/festim/boundary_conditions/dirichlets/custom_dc.py
+++ b/festim/boundary_conditions/dirichlets/custom_dc.py
@@ -39,7 +39,7 @@ class CustomDirichlet(DirichletBC):
             **self.prms,
         )
         self.expression = value_BC
-        self.sub_expressions = self.prms.values()
+        self.sub_expressions = list(self.prms.values())
 
     def convert_prms(self):
         """Creates Expressions or Constant for all parameters"""
-- 
2.43.0


From a6f32d1aa2794286584ebfe707fb6985546c3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:30 +0000
Subject: [PATCH 10/33] fix: apply initial conditions to the trap they name
 when ids are given

The position of the trap was used as its id.
---
 festim/h_transport_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/h_transport_problem.py b/festim/h_transport_problem.py
index b96d6e3..2746fbc 100644
--- a/festim/h_transport_problem.py
+++ b/festim/h_transport_problem.py
@@ -204,7 +204,7 @@ class HTransportProblem:
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
             else:
-                trap = self.traps.get_trap(component)
+                trap = self.traps[component - 1]
                 trap.initialise(
                     functionspace, value, label=ini.label, time_step=ini.time_step
                 )
-- 
2.43.0


From d2c8711ab705db2d66309281ec4044b184e7a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:02 +0000
Subject: [PATCH 11/33] fix: same meaning for the fields "0", "1"... and 0,
 1... of boundary conditions

A FluxBC with field="0" was silently ignored, a DirichletBC with field="0" or
"1" failed as soon as there were several fields, and the check for
conditions set twice on the same surface missed them.
---
 festim/boundary_conditions/boundary_condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/festim/boundary_conditions/boundary_condition.py b/festim/boundary_conditions/boundary_condition.py
index 2f23ebc..7f64eeb 100644
--- a/festim/boundary_conditions/boundary_condition.py
+++ b/festim/boundary_conditions/boundary_condition.py
@@ -15,6 +15,9 @@ class BoundaryCondition:
 
         if field == "solute":
             self.field = 0
+        elif isinstance(field, str) and field.isdigit():
+            # "0", "1"... stand for the same fields as 0, 1...
+            self.field = int(field)
         else:
             self.field = field
         self.expression = None
-- 
2.43.0


From b59aac8df5123f142c0b7f457adddec9f2573431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:39 +0000
Subject: [PATCH 12/33] fix: previous concentration in SurfaceKinetics with
 conservation of chemical potential

lambda_IS*(c - c_n)/dt was evaluated with theta_n instead of c_n.
---
 festim/concentration/mobile.py |  5 ++++-
 festim/concentration/theta.py  | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index af57b0d..98bda53 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -219,7 +219,7 @@ class Mobile(Concentration):
                     if isinstance(bc, SurfaceKinetics):
                         bc.create_form(
                             solute,
-                            self.previous_solution,
+                            self.previous_mobile_concentration(),
                             self.test_function,
                             T,
                             ds,
@@ -242,3 +242,6 @@ class Mobile(Concentration):
 
     def mobile_concentration(self):
         return self.solution
+
+    def previous_mobile_concentration(self):
+        return self.previous_solution
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index 51fb816..d151855 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -1,4 +1,5 @@
 from festim import Mobile, k_B
+from festim.materials.materials import ArheniusCoeff
 import fenics as f
 
 
@@ -81,6 +82,24 @@ class Theta(Mobile):
             + self.materials.sievert_marker * sieverts_to_concentration
         )
 
+    def previous_mobile_concentration(self):
+        """Returns the hydrogen concentration of the previous timestep.
+        This is needed with SurfaceKinetics
+
+        Returns:
+            ufl.algebra.Sum: the previous hydrogen mobile concentration
+        """
+        if self.T.is_steady_state():
+            S_n = self.S
+        else:
+            S_n = ArheniusCoeff(
+                self.materials, self.volume_markers, self.T.T_n, "S_0", "E_S", degree=2
+            )
+        return (
+            self.materials.henry_marker * self.previous_solution**2 * S_n
+            + self.materials.sievert_marker * self.previous_solution * S_n
+        )
+
     def post_processing_solution_to_concentration(self):
         """Converts the post_processing_solution from theta to mobile
         concentration.
-- 
2.43.0


From d48d431922514bbb5558f15e937756ceab5493e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:44 +0000
Subject: [PATCH 13/33] fix: MaximumSurface and MinimumSurface in
 DerivedQuantities

compute() was called without the surface markers it needs, and facet indices
were taken for cell indices.
---
 .../derived_quantities/derived_quantities.py  |  5 ++++
 .../derived_quantities/derived_quantity.py    | 30 +++++++++++++++++++
 .../derived_quantities/maximum_surface.py     | 16 ++--------
 .../derived_quantities/minimum_surface.py     | 16 ++--------
 4 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index dec5644..547909d 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -1,6 +1,8 @@
 from festim import (
     MinimumVolume,
     MaximumVolume,
+    MinimumSurface,
+    MaximumSurface,
     DerivedQuantity,
 )
 import fenics as f
@@ -106,6 +108,7 @@ class DerivedQuantities(list):
 
     def assign_measures_to_quantities(self, dx, ds):
         self.volume_markers = dx.subdomain_data()
+        self.surface_markers = ds.subdomain_data()
         for quantity in self:
             quantity.dx = dx
             quantity.ds = ds
@@ -129,6 +132,8 @@ class DerivedQuantities(list):
         for quantity in self:
             if isinstance(quantity, (MaximumVolume, MinimumVolume)):
                 value = quantity.compute(self.volume_markers)
+            elif isinstance(quantity, (MaximumSurface, MinimumSurface)):
+                value = quantity.compute(self.surface_markers)
             else:
                 value = quantity.compute()
 
diff --git a/festim/exports/derived_quantities/derived_quantity.py b/festim/exports/derived_quantities/derived_quantity.py
index 9df98d8..f9b4c85 100644
--- a/festim/exports/derived_quantities/derived_quantity.py
+++ b/festim/exports/derived_quantities/derived_quantity.py
@@ -1,4 +1,6 @@
 from festim import Export
+import fenics as f
+import numpy as np
 
 
 class DerivedQuantity(Export):
@@ -96,3 +98,31 @@ class SurfaceQuantity(DerivedQuantity):
         if not isinstance(value, int) or isinstance(value, bool):
             raise TypeError("surface should be an int")
         self._surface = value
+
+    def find_dofs_on_surface(self, surface_markers):
+        """Returns the degrees of freedom of self.function located on the
+        entities marked with self.surface
+
+        Args:
+            surface_markers (fenics.MeshFunction): the surface markers
+
+        Returns:
+            np.array: the indices of the dofs
+        """
+        V = self.function.function_space()
+        mesh = V.mesh()
+        dofmap, element = V.dofmap(), V.element()
+        coordinates = mesh.coordinates()
+
+        dofs = []
+        for entity in f.SubsetIterator(surface_markers, self.surface):
+            if entity.dim() == mesh.topology().dim():
+                dofs.append(dofmap.cell_dofs(entity.index()))
+                continue
+            points = coordinates[entity.entities(0)]
+            for cell in f.cells(entity):
+                cell_dofs = dofmap.cell_dofs(cell.index())
+                x = element.tabulate_dof_coordinates(cell)
+                distances = np.linalg.norm(x[:, None, :] - points[None, :, :], axis=2)
+                dofs.append(cell_dofs[distances.min(axis=1) < 1e-10 * cell.h()])
+        return np.unique(np.hstack(dofs))
diff --git a/festim/exports/derived_quantities/maximum_surface.py b/festim/exports/derived_quantities/maximum_surface.py
index e83bc0e..0681f0e 100644
--- a/festim/exports/derived_quantities/maximum_surface.py
+++ b/festim/exports/derived_quantities/maximum_surface.py
@@ -1,5 +1,4 @@
 from festim import SurfaceQuantity
-import fenics as f
 import numpy as np
 
 
@@ -45,17 +44,6 @@ class MaximumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Maximum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
+        dofs = self.find_dofs_on_surface(surface_markers)
 
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
-
-        return np.max(self.function.vector().get_local()[subd_dofs])
+        return np.max(self.function.vector().get_local()[dofs])
diff --git a/festim/exports/derived_quantities/minimum_surface.py b/festim/exports/derived_quantities/minimum_surface.py
index ec81482..03f9acf 100644
--- a/festim/exports/derived_quantities/minimum_surface.py
+++ b/festim/exports/derived_quantities/minimum_surface.py
@@ -1,5 +1,4 @@
 from festim import SurfaceQuantity
-import fenics as f
 import numpy as np
 
 
@@ -45,17 +44,6 @@ class MinimumSurface(SurfaceQuantity):
 
     def compute(self, surface_markers):
         """Minimum of f over subdomains facets marked with self.surface"""
-        V = self.function.function_space()
+        dofs = self.find_dofs_on_surface(surface_markers)
 
-        dm = V.dofmap()
-
-        subd_dofs = np.unique(
-            np.hstack(
-                [
-                    dm.cell_dofs(c.index())
-                    for c in f.SubsetIterator(surface_markers, self.surface)
-                ]
-            )
-        )
-
-        return np.min(self.function.vector().get_local()[subd_dofs])
+        return np.min(self.function.vector().get_local()[dofs])
-- 
2.43.0


From 4a20e4087ae1075230e679a232b6374b4bc0e43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:45 +0000
Subject: [PATCH 14/33] fix: derived quantities of the retention field with
 traps

Retention is a sum of functions and was only projected for the extrema over
volumes: the cylindrical and spherical quantities, the extrema over surfaces
and PointValue failed.
---
 festim/exports/exports.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index 989a4ae..a62e067 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -56,9 +56,7 @@ class Exports(list):
                 if export.is_compute(self.nb_iterations):
                     # check if function has to be projected
                     for quantity in export:
-                        if isinstance(
-                            quantity, (festim.MaximumVolume, festim.MinimumVolume)
-                        ):
+                        if not isinstance(quantity, festim.AdsorbedHydrogen):
                             if not isinstance(
                                 label_to_function[quantity.field], f.Function
                             ):
-- 
2.43.0


From 036200788bd2a609acc8231f63cdd14db6e7adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:46 +0000
Subject: [PATCH 15/33] fix: export to .txt and .csv files in the current
 directory

---
 festim/exports/derived_quantities/derived_quantities.py | 2 +-
 festim/exports/txt_export.py                            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 547909d..605db28 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -152,7 +152,7 @@ class DerivedQuantities(list):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 6137b8b..283fa79 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -201,7 +201,7 @@ class TXTExport(festim.Export):
             # if the directory doesn't exist
             # create it
             dirname = os.path.dirname(self.filename)
-            if not os.path.exists(dirname):
+            if dirname and not os.path.exists(dirname):
                 os.makedirs(dirname, exist_ok=True)
 
             # if steady, add the corresponding label
-- 
2.43.0


From 4e441af5c6e7f8468f39d6ed2c3955783205bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:02 +0000
Subject: [PATCH 16/33] fix: TXTExport with materials made of several layers

---
 festim/exports/txt_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/festim/exports/txt_export.py b/festim/exports/txt_export.py
index 283fa79..874b074 100644
--- a/festim/exports/txt_export.py
+++ b/festim/exports/txt_export.py
@@ -154,8 +154,8 @@ class TXTExport(festim.Export):
             borders = []
             for material in materials:
                 if material.borders:
-                    for border in material.borders:
-                        borders.append(border)
+                    # material.borders can be a list of pairs of borders
+                    borders += list(np.ravel(material.borders))
             borders = np.unique(borders)
 
             # Find indices of the closest duplicates to interfaces
-- 
2.43.0


From b8402d2d8e8b98cbec0e9f5e4fbc15670a775d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:02 +0000
Subject: [PATCH 17/33] fix: accept a list of one pair of borders

check_borders() accepts borders=[[a, b]], find_subdomain_from_x_coordinate()
didn't.
---
 festim/materials/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index c88c7be..e8a5b69 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -256,7 +256,7 @@ class Materials(list):
                 return material.id
             # else find the correct material
             else:
-                if isinstance(material.borders[0], list) and len(material.borders) > 1:
+                if isinstance(material.borders[0], list):
                     list_of_borders = material.borders
                 else:
                     list_of_borders = [material.borders]
-- 
2.43.0


From cee86b5d93105d7b432d08c374c919d7767990c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 18/33] fix: XDMFExport with mode="last" in steady state

---
 festim/exports/xdmf_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 14383fa..4fc2f19 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -152,8 +152,9 @@ class XDMFExport(Export):
         Returns:
             bool: True if export should be exported, else False
         """
-        if self.mode == "last" and np.isclose(t, final_time, atol=0):
-            return True
+        if self.mode == "last":
+            # in steady state (no final_time) there is only one step
+            return final_time is None or bool(np.isclose(t, final_time, atol=0))
         elif isinstance(self.mode, int):
             if nb_iterations % self.mode == 0:
                 return True
-- 
2.43.0


From 47ba4e434edf8c263eeb7594f88c3bfc7167f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:19 +0000
Subject: [PATCH 19/33] fix: TrapDensityXDMF of a trap with one density per
 material

---
 festim/exports/trap_density_xdmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 2da2463..389c141 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -28,8 +28,10 @@ class TrapDensityXDMF(XDMFExport):
         v = f.TestFunction(functionspace)
         F = f.inner(u, v) * dx
 
-        for mat in self.trap.materials:
-            F -= f.inner(self.trap.density[0], v) * dx(mat.id)
+        for i, mat in enumerate(self.trap.materials):
+            # densities can be given for each material
+            density = self.trap.density[i if type(self.trap.k_0) is list else 0]
+            F -= f.inner(density, v) * dx(mat.id)
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
-- 
2.43.0


From 71ad7f3f8585b60d6e1f90f9200e5e120a1a07b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:35 +0000
Subject: [PATCH 20/33] fix: don't share the default lists of sources and
 conditions between models

Simulation() used mutable default arguments: appending to the sources,
boundary or initial conditions of a model changed those of the others.
---
 festim/generic_simulation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 4491c73..8715b62 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -78,13 +78,13 @@ class Simulation:
         self,
         mesh=None,
         materials=None,
-        sources=[],
-        boundary_conditions=[],
+        sources=None,
+        boundary_conditions=None,
         traps=None,
         dt=None,
         settings=None,
         temperature=None,
-        initial_conditions=[],
+        initial_conditions=None,
         exports=None,
         log_level=40,
     ):
@@ -96,12 +96,16 @@ class Simulation:
         self.traps = traps
         self.materials = materials
 
-        self.boundary_conditions = boundary_conditions
-        self.initial_conditions = initial_conditions
+        self.boundary_conditions = (
+            [] if boundary_conditions is None else boundary_conditions
+        )
+        self.initial_conditions = (
+            [] if initial_conditions is None else initial_conditions
+        )
         self.T = temperature
         self.exports = exports
         self.mesh = mesh
-        self.sources = sources
+        self.sources = [] if sources is None else sources
 
         # internal attributes
         self.h_transport_problem = None
-- 
2.43.0


From 7575489fd5f13ff8b57f440d02094c4165249109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:12 +0000
Subject: [PATCH 21/33] fix: exports start from scratch when a model is
 initialised again

The XDMF files, the step counter and the final time kept the values of the
previous run.
---
 festim/generic_simulation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 8715b62..0308d1e 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -367,6 +367,14 @@ class Simulation:
         self.V_DG1 = FunctionSpace(self.mesh.mesh, "DG", 1)
         self.exports.V_DG1 = self.V_DG1
 
+        # exports start from scratch when the model is initialised again
+        self.exports.nb_iterations = 0
+        self.exports.final_time = None
+        for export in self.exports:
+            if isinstance(export, festim.XDMFExport) and export.append:
+                export.append = False
+                export.define_xdmf_file()
+
         # Define temperature
         if isinstance(self.T, festim.HeatTransferProblem):
             self.T.create_functions(self.materials, self.mesh, self.dt)
-- 
2.43.0


From d38c2139396fc3d55928468d227c2e348ca42756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:55 +0000
Subject: [PATCH 22/33] fix: traps and solubilities of materials with several
 ids

fenics measures accept a tuple of ids, not a list.
---
 festim/concentration/mobile.py      |  4 ++--
 festim/concentration/theta.py       | 10 +++++-----
 festim/concentration/traps/trap.py  | 11 +++++++----
 festim/exports/trap_density_xdmf.py |  2 +-
 festim/materials/material.py        |  8 ++++++++
 festim/materials/materials.py       |  4 ++--
 6 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/festim/concentration/mobile.py b/festim/concentration/mobile.py
index 98bda53..cb7b039 100644
--- a/festim/concentration/mobile.py
+++ b/festim/concentration/mobile.py
@@ -162,14 +162,14 @@ class Mobile(Concentration):
                         * c_m
                         * (density - trap.solution)
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(mat.subdomain_id)
                     )
                     F_trapping += (
                         p_0
                         * exp(-E_p / k_B / T.T)
                         * trap.solution
                         * self.test_function
-                        * dx(mat.id)
+                        * dx(mat.subdomain_id)
                     )
         F += -F_trapping
 
diff --git a/festim/concentration/theta.py b/festim/concentration/theta.py
index d151855..c90fdb1 100644
--- a/festim/concentration/theta.py
+++ b/festim/concentration/theta.py
@@ -33,11 +33,11 @@ class Theta(Mobile):
         F = 0
         for mat in self.materials:
             S = mat.S_0 * f.exp(-mat.E_S / k_B / self.T.T)
-            F += -prev_sol * v * dx(mat.id)
+            F += -prev_sol * v * dx(mat.subdomain_id)
             if mat.solubility_law == "sievert":
-                F += comp / S * v * dx(mat.id)
+                F += comp / S * v * dx(mat.subdomain_id)
             elif mat.solubility_law == "henry":
-                F += (comp / S) ** 0.5 * v * dx(mat.id)
+                F += (comp / S) ** 0.5 * v * dx(mat.subdomain_id)
         f.solve(F == 0, prev_sol, bcs=[])
 
         f.assign(self.previous_solution, prev_sol)
@@ -132,10 +132,10 @@ class Theta(Mobile):
         for mat in materials:
             if mat.solubility_law == "sievert":
                 # for sievert materials c = theta * S
-                F += self.solution * self.S * v * dx(mat.id)
+                F += self.solution * self.S * v * dx(mat.subdomain_id)
             elif mat.solubility_law == "henry":
                 # for henry materials c = theta**2 * S
-                F += self.solution**2 * self.S * v * dx(mat.id)
+                F += self.solution**2 * self.S * v * dx(mat.subdomain_id)
 
         self.form_post_processing = F
         self.post_processing_solution = f.Function(V)
diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 1fef133..697789e 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -152,7 +152,7 @@ class Trap(Concentration):
             # add c_t = 0 to the form in this subdomain
             for mat in materials:
                 if mat not in self.materials:
-                    F_trapping += solution * test_function * dx(mat.id)
+                    F_trapping += solution * test_function * dx(mat.subdomain_id)
 
         for i, mat in enumerate(self.materials):
             if type(self.k_0) is list:
@@ -186,10 +186,10 @@ class Trap(Concentration):
                 * c_0
                 * (density - solution)
                 * test_function
-                * dx(mat.id)
+                * dx(mat.subdomain_id)
             )
             F_trapping += (
-                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.id)
+                p_0 * exp(-E_p / k_B / T.T) * solution * test_function * dx(mat.subdomain_id)
             )
 
         self.F_trapping = F_trapping
@@ -205,7 +205,10 @@ class Trap(Concentration):
         for source in self.sources:
             if isinstance(source, RadioactiveDecay):
                 source.value = source.form(self.solution)
-            self.F_source = -source.value * self.test_function * dx(source.volume)
+            volume = source.volume
+            if isinstance(volume, list):
+                volume = tuple(volume)
+            self.F_source = -source.value * self.test_function * dx(volume)
             self.F += self.F_source
             if isinstance(source.value, (Expression, UserExpression)):
                 self.sub_expressions.append(source.value)
diff --git a/festim/exports/trap_density_xdmf.py b/festim/exports/trap_density_xdmf.py
index 389c141..51b29c1 100644
--- a/festim/exports/trap_density_xdmf.py
+++ b/festim/exports/trap_density_xdmf.py
@@ -31,7 +31,7 @@ class TrapDensityXDMF(XDMFExport):
         for i, mat in enumerate(self.trap.materials):
             # densities can be given for each material
             density = self.trap.density[i if type(self.trap.k_0) is list else 0]
-            F -= f.inner(density, v) * dx(mat.id)
+            F -= f.inner(density, v) * dx(mat.subdomain_id)
 
         f.solve(F == 0, u, bcs=[])
         self.function = u
diff --git a/festim/materials/material.py b/festim/materials/material.py
index 247af5a..920d12d 100644
--- a/festim/materials/material.py
+++ b/festim/materials/material.py
@@ -70,6 +70,14 @@ class Material:
         self.solubility_law = solubility_law
         self.check_properties()
 
+    @property
+    def subdomain_id(self):
+        """The id of the material, or a tuple of ids if it has several, as
+        expected by the fenics measures"""
+        if isinstance(self.id, list):
+            return tuple(self.id)
+        return self.id
+
     def check_properties(self):
         """Checks that if S_0 is None E_S is not None and reverse.
 
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index e8a5b69..9556c3e 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -299,8 +299,8 @@ class Materials(list):
         dx = mesh.dx
         F = 0
         for mat in self:
-            F += -S * vS * dx(mat.id)
-            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.id)
+            F += -S * vS * dx(mat.subdomain_id)
+            F += mat.S_0 * f.exp(-mat.E_S / k_B / T) * vS * dx(mat.subdomain_id)
         f.solve(F == 0, S, bcs=[])
 
         self.S = S
-- 
2.43.0


From 184273c373b726e6c9cb865172ac3b78937cbf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:15 +0000
Subject: [PATCH 23/33] fix: MaximumSurface and MinimumSurface on the end
 points of 1D meshes

---
 festim/exports/derived_quantities/derived_quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/exports/derived_quantities/derived_quantity.py b/festim/exports/derived_quantities/derived_quantity.py
index f9b4c85..78893d5 100644
--- a/festim/exports/derived_quantities/derived_quantity.py
+++ b/festim/exports/derived_quantities/derived_quantity.py
@@ -119,7 +119,9 @@ class SurfaceQuantity(DerivedQuantity):
             if entity.dim() == mesh.topology().dim():
                 dofs.append(dofmap.cell_dofs(entity.index()))
                 continue
-            points = coordinates[entity.entities(0)]
+            # the vertex itself in 1D
+            vertices = entity.entities(0) if entity.dim() > 0 else [entity.index()]
+            points = coordinates[vertices]
             for cell in f.cells(entity):
                 cell_dofs = dofmap.cell_dofs(cell.index())
                 x = element.tabulate_dof_coordinates(cell)
-- 
2.43.0


From ca74d19718aced1cd513a9cce5cf188895c693cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:58 +0000
Subject: [PATCH 24/33] fix: quote the titles with commas in the files of
 derived quantities

---
 festim/exports/derived_quantities/derived_quantities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 605db28..99ec4e0 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -6,6 +6,7 @@ from festim import (
     DerivedQuantity,
 )
 import fenics as f
+import csv
 import os
 import numpy as np
 from typing import Union
@@ -156,7 +157,9 @@ class DerivedQuantities(list):
                 os.makedirs(dirname, exist_ok=True)
 
             # save the data to csv
-            np.savetxt(self.filename, np.array(self.data), fmt="%s", delimiter=",")
+            # (titles with commas, eg. PointValue in 2D, are quoted)
+            with open(self.filename, "w", newline="") as file:
+                csv.writer(file, lineterminator="\n").writerows(np.array(self.data))
         return True
 
     def is_export(self, t, final_time, nb_iterations):
-- 
2.43.0


From 09798fd772331cb58e55494058ff4f8f4481e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 25/33] fix: read initial conditions on the element they were
 exported on

---
 festim/concentration/concentration.py |  6 +++++-
 festim/helpers.py                     | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/festim/concentration/concentration.py b/festim/concentration/concentration.py
index 72e8452..218eb7e 100644
--- a/festim/concentration/concentration.py
+++ b/festim/concentration/concentration.py
@@ -1,5 +1,6 @@
 from fenics import *
 import sympy as sp
+from festim.helpers import extract_xdmf_element
 
 
 class Concentration:
@@ -42,7 +43,10 @@ class Concentration:
 
     def get_comp(self, V, value, label=None, time_step=None):
         if type(value) == str and value.endswith(".xdmf"):
-            comp = Function(V)
+            # the field can be exported on another element than V (eg. discontinuous
+            # concentrations with conservation of chemical potential)
+            element = extract_xdmf_element(value, label)
+            comp = Function(FunctionSpace(V.mesh(), *element))
             with XDMFFile(value) as f:
                 f.read_checkpoint(comp, label, time_step)
         else:
diff --git a/festim/helpers.py b/festim/helpers.py
index f790050..14373db 100644
--- a/festim/helpers.py
+++ b/festim/helpers.py
@@ -110,6 +110,26 @@ def extract_xdmf_labels(filename):
     return unique_labels
 
 
+def extract_xdmf_element(filename, label):
+    """Returns the finite element of a function in an XDMF checkpoint file
+
+    Args:
+        filename (str): the XDMF filename (must end with .xdmf)
+        label (str): the label of the function
+
+    Returns:
+        str, int: the family and degree of the element ("CG", 1 if it isn't
+            given in the file)
+    """
+    for attribute in ET.parse(filename).getroot().iter("Attribute"):
+        if attribute.attrib["Name"] == label and "ElementFamily" in attribute.attrib:
+            return (
+                attribute.attrib["ElementFamily"],
+                int(attribute.attrib["ElementDegree"]),
+            )
+    return "CG", 1
+
+
 def festim_print(msg, end="\n"):
     if MPI.comm_world.rank == 0:
         print(msg, end=end)
-- 
2.43.0


From e95629f882d14d4b61976f93dda2701d660ace76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:12 +0000
Subject: [PATCH 26/33] fix: write components of mixed functions to XDMF
 checkpoints as functions of their own

---
 festim/exports/xdmf_export.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/festim/exports/xdmf_export.py b/festim/exports/xdmf_export.py
index 4fc2f19..2caea7d 100644
--- a/festim/exports/xdmf_export.py
+++ b/festim/exports/xdmf_export.py
@@ -120,6 +120,12 @@ class XDMFExport(Export):
         Args:
             t (float): current time
         """
+        V = self.function.function_space()
+        if len(V.component()) > 0:
+            # component of a mixed function: write_checkpoint needs a function
+            # of its own function space
+            self.function = f.interpolate(self.function, V.collapse())
+
         self.function.rename(self.label, "label")
 
         if self.checkpoint:
-- 
2.43.0


From 8405de35b2d01be121c4abc29bb9a9654d5facd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:46 +0000
Subject: [PATCH 27/33] fix: new default Newton solver when a
 HeatTransferProblem is initialised again

---
 festim/temperature/temperature_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/festim/temperature/temperature_solver.py b/festim/temperature/temperature_solver.py
index ca966fb..b6cf596 100644
--- a/festim/temperature/temperature_solver.py
+++ b/festim/temperature/temperature_solver.py
@@ -62,6 +62,7 @@ class HeatTransferProblem(festim.Temperature):
         self.boundary_conditions = []
         self.sub_expressions = []
         self.newton_solver = None
+        self._default_newton_solver = None
 
     @property
     def newton_solver(self):
@@ -130,8 +131,11 @@ class HeatTransferProblem(festim.Temperature):
         self.define_variational_problem(materials, mesh, dt)
         self.create_dirichlet_bcs(mesh.surface_markers)
 
-        if not self.newton_solver:
+        # the default solver depends on the mesh and settings of the initialisation
+        if self.newton_solver is self._default_newton_solver:
+            self.newton_solver = None
             self.define_newton_solver()
+            self._default_newton_solver = self.newton_solver
 
         if not self.transient:
             festim.festim_print("Solving stationary heat equation")
-- 
2.43.0


From 4d00c45fc593783494006f0dc7c36290b2ba2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:36 +0000
Subject: [PATCH 28/33] fix: derived quantities in cylindrical and spherical
 coordinates when the mesh is changed

---
 festim/exports/derived_quantities/derived_quantities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 99ec4e0..8d69847 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -114,6 +114,8 @@ class DerivedQuantities(list):
             quantity.dx = dx
             quantity.ds = ds
             quantity.n = f.FacetNormal(dx.subdomain_data().mesh())
+            if hasattr(quantity, "r"):
+                quantity.r = None  # radius of the previous mesh
 
     def assign_properties_to_quantities(self, materials):
         """Assign properties attributes to all DerivedQuantity objects
-- 
2.43.0


From 3b1b3933fad90c43dfc9a2dae38ae60c501f2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:45 +0000
Subject: [PATCH 29/33] fix: reject a 1D domain that starts before the borders
 of its materials

---
 festim/materials/materials.py | 6 +++++-
 festim/meshing/mesh_1d.py     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index 9556c3e..d097af1 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -48,14 +48,16 @@ class Materials(list):
             return value
         raise TypeError("festim.Materials must be a list of festim.Material")
 
-    def check_borders(self, size):
+    def check_borders(self, size, start=0):
         """Checks that the borders of the materials match
 
         Args:
             size (float): size of the 1D domain
+            start (float, optional): starting point of the 1D domain. Defaults to 0.
 
         Raises:
             ValueError: if the borders don't begin at zero
+            ValueError: if the domain starts before the borders
             ValueError: if borders don't match
             ValueError: if borders don't end at size
 
@@ -72,6 +74,8 @@ class Materials(list):
         all_borders = sorted(all_borders, key=itemgetter(0))
         if all_borders[0][0] != 0:
             raise ValueError("Borders don't begin at zero")
+        if start < all_borders[0][0]:
+            raise ValueError("The domain starts before the borders")
         for i in range(0, len(all_borders) - 1):
             if all_borders[i][1] != all_borders[i + 1][0]:
                 raise ValueError("Borders don't match to each other")
diff --git a/festim/meshing/mesh_1d.py b/festim/meshing/mesh_1d.py
index 0fc95f5..3963233 100644
--- a/festim/meshing/mesh_1d.py
+++ b/festim/meshing/mesh_1d.py
@@ -78,6 +78,6 @@ class Mesh1D(Mesh):
                 "borders attributes need to be set for multiple 1D domains"
             )
         if materials[0].borders is not None:
-            materials.check_borders(self.size)
+            materials.check_borders(self.size, self.start)
         self.define_markers(materials)
         super().define_measures()
-- 
2.43.0


From 7a7b1a9ace3266622366334d41f386c06ba60e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 30/33] fix: validate the items added to typed collections with
 +=

---
 festim/concentration/traps/traps.py                     | 4 ++++
 festim/exports/derived_quantities/derived_quantities.py | 4 ++++
 festim/exports/exports.py                               | 4 ++++
 festim/materials/materials.py                           | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/festim/concentration/traps/traps.py b/festim/concentration/traps/traps.py
index f99cec5..cafa4d1 100644
--- a/festim/concentration/traps/traps.py
+++ b/festim/concentration/traps/traps.py
@@ -35,6 +35,10 @@ class Traps(list):
         else:
             super().extend(self._validate_trap(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_trap(self, value):
         if isinstance(value, festim.Trap):
             return value
diff --git a/festim/exports/derived_quantities/derived_quantities.py b/festim/exports/derived_quantities/derived_quantities.py
index 8d69847..5064dd3 100644
--- a/festim/exports/derived_quantities/derived_quantities.py
+++ b/festim/exports/derived_quantities/derived_quantities.py
@@ -80,6 +80,10 @@ class DerivedQuantities(list):
         else:
             super().extend(self._validate_derived_quantity(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_derived_quantity(self, value):
         if isinstance(value, DerivedQuantity):
             return value
diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index a62e067..bcad6f3 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -36,6 +36,10 @@ class Exports(list):
         else:
             super().extend(self._validate_export(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_export(self, value):
         if isinstance(value, festim.Export) or isinstance(
             value, festim.DerivedQuantities
diff --git a/festim/materials/materials.py b/festim/materials/materials.py
index d097af1..f1a1d52 100644
--- a/festim/materials/materials.py
+++ b/festim/materials/materials.py
@@ -43,6 +43,10 @@ class Materials(list):
         else:
             super().extend(self._validate_material(item) for item in other)
 
+    def __iadd__(self, other):
+        self.extend(other)
+        return self
+
     def _validate_material(self, value):
         if isinstance(value, festim.Material):
             return value
-- 
2.43.0


From ef223d892133fe837143ce8f34ac9108e6a2415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 31/33] fix: reject unknown types of coordinates

---
 festim/generic_simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/festim/generic_simulation.py b/festim/generic_simulation.py
index 0308d1e..7a5be7f 100644
--- a/festim/generic_simulation.py
+++ b/festim/generic_simulation.py
@@ -300,6 +300,10 @@ class Simulation:
     def check_mesh_dim_coords(self):
         """Checks if the used coordinates can be applied for geometry with the specified dimensions"""
 
+        if self.mesh.type not in ["cartesian", "cylindrical", "spherical"]:
+            raise ValueError(
+                "accepted types of coordinates are cartesian, cylindrical and spherical"
+            )
         if self.mesh.type == "spherical" and self.mesh.mesh.topology().dim() != 1:
             raise AttributeError(
                 "spherical coordinates can be used for one-dimensional domains only"
-- 
2.43.0


From 901da4e0f8bdebab741b631e8329a2e6859cb7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:58 +0000
Subject: [PATCH 32/33] fix: reject traps with more parameters than materials

---
 festim/concentration/traps/trap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/festim/concentration/traps/trap.py b/festim/concentration/traps/trap.py
index 697789e..e94a446 100644
--- a/festim/concentration/traps/trap.py
+++ b/festim/concentration/traps/trap.py
@@ -84,6 +84,13 @@ class Trap(Concentration):
         if len(self.materials) != len(list(set(self.materials))):
             raise ValueError("Duplicate materials in trap")
 
+        if isinstance(self.k_0, list):
+            for values in [self.k_0, self.E_k, self.p_0, self.E_p, self.density]:
+                if len(values) != len(self.materials):
+                    raise ValueError(
+                        "Parameters given in lists must have one value per material"
+                    )
+
     def make_density(self, densities):
         if type(densities) is not list:
             densities = [densities]
-- 
2.43.0


From 917912e13b74c543b1090c65828eb5066c397b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:52 +0000
Subject: [PATCH 33/33] fix: TrapDensityXDMF when no trap has the id 1

---
 festim/exports/exports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/festim/exports/exports.py b/festim/exports/exports.py
index bcad6f3..5a15083 100644
--- a/festim/exports/exports.py
+++ b/festim/exports/exports.py
@@ -89,10 +89,12 @@ class Exports(list):
                             label_to_function["retention"] = f.project(
                                 label_to_function["retention"], self.V_DG1
                             )
-                    export.function = label_to_function[export.field]
                     if isinstance(export, festim.TrapDensityXDMF):
+                        # written on the function space of its own trap
+                        export.function = export.trap.post_processing_solution
                         export.write(self.t, dx)
                     else:
+                        export.function = label_to_function[export.field]
                         export.write(self.t)
                     export.append = True
 
-- 
2.43.0

