From 552cd6d6caea892345630ec4461eb0b561ea95cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 01/14] fix: make the integrator entities instantiable

BaseEntity.orientation is abstract and none of the integrator classes
implemented it, so Integrator1d/2d/3d raised TypeError on construction.
A point mass has no orientation: return the identity, as CWHSpacecraft does.
---
 safe_autonomy_dynamics/integrators.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..36ead28 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -85,6 +86,20 @@ class BaseIntegrator(BaseEntity):
         """Get velocity vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """
+        Get orientation of integrator, which is always an identity rotation as a point mass model doesn't rotate.
+
+        Returns
+        -------
+        scipy.spatial.transform.Rotation
+            Rotation transformation of the entity's local reference frame basis vectors in the global reference frame.
+            i.e. applying this rotation to [1, 0, 0] yields the entity's local x-axis in the global frame.
+        """
+        # always return a no rotation quaternion as points do not have an orientation
+        return Rotation.from_quat([0, 0, 0, 1])
+
 
 class Integrator1d(BaseIntegrator):
     """
-- 
2.43.0


From af16f3941e62e5dec71f379e73441f855004b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 02/14] fix: map integrator thrust_y and thrust_z to their own
 control elements

All named thrusts of Integrator2d and Integrator3d were mapped to control
element 0, so thrust_y/thrust_z commands drove (or overwrote) the x axis.
---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 36ead28..fdf16ff 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -226,7 +226,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -324,8 +324,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From dec49b71577ee9dfd9cf114ebe5a49ae43266bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 03/14] fix: compare Integrator2d and Integrator3d against
 their own kind

Their __eq__ tested isinstance(other, Integrator1d), so two equal 2d (or 3d)
integrators, and an integrator and itself, never compared equal.
---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index fdf16ff..f9e3835 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -232,7 +232,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -331,7 +331,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From ad31cf4f1b16d6e1eeafeb3a16fc3f88b0164488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 04/14] fix: build limit arrays from list values instead of
 list shapes

number_list_to_np passed a list to np.ndarray(), which takes a shape, so list
limits raised TypeError or produced uninitialised memory.
---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From f4b15482f3c9eac6ec4466988b177a908e8c75f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 05/14] fix: wrap angles about nonzero centers without shifting
 them

The wrap added the center to the angle wrapped about zero, so with a nonzero
center an angle already in range was moved by the center on every step.
---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From f40066544f5db7c354f70c7865b6aa78d299186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 06/14] fix: report a failed RK45 integration instead of a
 partial step

solve_ivp stops early when the step size underflows (diverging or NaN
derivatives); the truncated solution was taken as the state at the end of the
step, silently losing simulated time.
---
 safe_autonomy_dynamics/base_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..6e106d1 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -572,6 +572,9 @@ class BaseODESolverDynamics(BaseDynamics):
 
             sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
 
+            if not sol.success:
+                raise RuntimeError(f"numerical integration did not reach the end of the step: {sol.message}")
+
             self.trajectory = sol.y.T
             self.trajectory_t = sol.t
 
-- 
2.43.0


From 285fbe15ba85ff0418d0284a4672cfa5f1ed3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 07/14] fix: apply derivative and state limits during RK45_JAX
 integration

compute_state_dot_jax integrated the unlimited derivative, so e.g. a saturated
angular velocity kept turning the spacecraft faster than its limit.
---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 6e106d1..90570b9 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -603,7 +603,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From c535c5e1264b5f0963c3f8e6231428b6aa7d935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 08/14] fix: let the safety verifier read recordings without
 controller states

verify() unpacked 16 columns per tick, so it could not check the 13-column
recordings it expects when no low-level controller is given.
---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..8336bd9 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -294,7 +294,7 @@ class SafetyLimitsVerifier(Freezable):
             _vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                _ = results['states'][i][:len(get_state_names())]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From c62b55cce03dbb83fd42b6da0d1e2694fcacd302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 09/14] fix: refuse a step whose state derivative is undefined
 at its start

solve_ivp sizes its first step from the first derivative; when that is NaN it loops forever.
---
 safe_autonomy_dynamics/base_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 90570b9..cce3200 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -570,6 +570,10 @@ class BaseODESolverDynamics(BaseDynamics):
             if self.trajectory_samples > 0:
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
 
+            # the solver never returns when it cannot size its first step
+            if np.any(np.isnan(self.compute_state_dot(0, state, control))):
+                raise ValueError("state derivative is undefined at the start of the step")
+
             sol = scipy.integrate.solve_ivp(self.compute_state_dot, (0, step_size), state, args=(control, ), t_eval=t_eval)
 
             if not sol.success:
-- 
2.43.0


From 3b0f2e214fd54c72984b22982f703f838897f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 10/14] fix: give a SixDOFSpacecraft without a configured
 attitude the identity rotation

All quaternion elements default to 0, which is no rotation: orientation,
quaternion and == raised ValueError for a body spawned without q1..q4.
---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..a7f1eff 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -17,7 +17,7 @@ from typing import Union
 
 import numpy as np
 import pint
-from pydantic import AfterValidator
+from pydantic import AfterValidator, model_validator
 from scipy.spatial.transform import Rotation
 from typing_extensions import Annotated
 
@@ -69,6 +69,7 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     q4: float
        fourth element of quaternion value (scalar) - rotation from body to Hill frame
        Placing the scalar as the 4th element matches the convention used by scipy
+       When no quaternion element is given, the attitude is the identity rotation
     wx: float or pint.Quantity
        x axis local body reference frame angular rate value
     wy: float or pint.Quantity
@@ -95,6 +96,13 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     wy: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wz: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
 
+    @model_validator(mode='after')
+    def _default_attitude(self):
+        """a quaternion of zeros is no rotation: an unspecified attitude is the identity"""
+        if not self.model_fields_set & {'q1', 'q2', 'q3', 'q4'}:
+            self.q4 = 1.0
+        return self
+
 
 class SixDOFSpacecraft(BaseRotationEntity):  # pylint: disable=too-many-public-methods
     """
-- 
2.43.0


From ba6580d468d4e3585b3508b0e2d08c817e3eab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 11/14] fix: refuse recordings with the wrong number of columns
 in SafetyLimitsVerifier

The sanity check only looked at the total number of values, so a recording with
16 ticks of 13 variables passed for one of 13 ticks of 16 variables and its last
ticks were never verified.
---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 8336bd9..7a258e8 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -286,7 +286,7 @@ class SafetyLimitsVerifier(Freezable):
         else:
             num_state_vars = len(get_state_names())
         # Check whether the results are sane.
-        assert (results['states'].size % num_state_vars) == 0, "Wrong number of state variables."
+        assert results['states'].size == len(results['states']) * num_state_vars, "Wrong number of state variables."
 
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
-- 
2.43.0


From 679cc7b644ab26c02ca8d5befc76127e58c4c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 12/14] fix: let a zero-length step of a body with trajectory
 samples leave the state unchanged

Sampling an empty interval made solve_ivp return no points at all and the step
failed with AttributeError: 'list' object has no attribute 'T'.
---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index cce3200..ad16c99 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -567,7 +567,7 @@ class BaseODESolverDynamics(BaseDynamics):
         if self.integration_method == "RK45":
 
             t_eval = None
-            if self.trajectory_samples > 0:
+            if self.trajectory_samples > 0 and step_size != 0:
                 t_eval = np.linspace(0, step_size, self.trajectory_samples + 1)[1:]
 
             # the solver never returns when it cannot size its first step
-- 
2.43.0


From 4aebbf455909a5ba542646bb574d0050ba345552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:12 +0000
Subject: [PATCH 13/14] fix: refuse commands whose shape is not that of the
 control vector

A column or matrix passed as command was broadcast against the state by
the fixed-step integrator, which left the body with a matrix as state.
---
 safe_autonomy_dynamics/base_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index ad16c99..cec0b9d 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -161,7 +161,7 @@ class BaseEntity(abc.ABC):
         KeyError
             Raised when action dict key not found in control map
         ValueError
-            Raised when action is not one of the required types
+            Raised when action is not one of the required types or its shape does not match the control vector
         """
 
         if action is None:
@@ -188,6 +188,9 @@ class BaseEntity(abc.ABC):
             else:
                 raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")
 
+        if np.shape(control) != np.shape(self.control_default):
+            raise ValueError(f"control must have shape {np.shape(self.control_default)}, instead got {np.shape(control)}")
+
         # enforce control bounds
         if (np.any(control < self.control_min) or np.any(control > self.control_max)):
             warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
-- 
2.43.0


From b3984ce73e1e26fefc9875f58050609f283d278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:27 +0000
Subject: [PATCH 14/14] fix: a zero-length step with the JAX adaptive solver
 left the state undefined (NaN)

---
 safe_autonomy_dynamics/base_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index cec0b9d..6738afa 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -597,6 +597,7 @@ class BaseODESolverDynamics(BaseDynamics):
                 self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
             )
             next_state = sol[-1, :]  # save last timestep of integration solution
+            next_state = jnp.where(step_size == 0, state, next_state)  # odeint is undefined over a zero-length interval
             state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
-- 
2.43.0

