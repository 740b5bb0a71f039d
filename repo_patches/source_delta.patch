From 097c7d39d6136beaecc037844b9d0f7c47d2ca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:42 +0000
Subject: [PATCH 01/34] fix: circuit parameters are truncated along the device
 axis, before being computed

Slicing [:][:][:n] always cut the lot axis, so whole lots went missing from the
report, and inputs with differing device counts could not be combined.
---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8c09506..13781cc 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1175,13 +1175,13 @@ class CircPrmMdl(LatentMdl):
         arg_vals = {}
         for arg in self.compute_args:
             if arg in latents:
-                arg_vals[arg] = latents[arg]
+                arg_vals[arg] = latents[arg][:, :, :num_samples]
             elif arg in strs_conds:
-                arg_vals[arg] = strs_conds[arg]
+                arg_vals[arg] = strs_conds[arg][:, :, :num_samples]
             elif arg in degraded_prm_vals:
-                arg_vals[arg] = degraded_prm_vals[arg]
+                arg_vals[arg] = degraded_prm_vals[arg][:, :, :num_samples]
 
-        return self.compute(**arg_vals)[:][:][:num_samples]
+        return self.compute(**arg_vals)
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From 7f71a6e4ddf33d01bbd6ff3cd238b244405cf3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:42 +0000
Subject: [PATCH 02/34] fix: device parameters that the test does not measure
 no longer raise a KeyError

The fallback sample count was filled in after its first use.
---
 gerabaldi/models/devices.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 13781cc..b918b91 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1305,16 +1305,16 @@ class DeviceMdl:
         """
         latents, init_mech_vals, init_prm_vals = {}, {}, {}
         for prm in self.prm_mdl_list:
+            # In case the parameter is not directly measured and instead used in calculating other parameters,
+            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
+            if prm not in sample_counts:
+                sample_counts[prm] = max(sample_counts.values())
             # First generate the latent variable values for each model
             latents[prm] = self.prm_mdl(prm).gen_latent_vals(sample_counts[prm], num_chps, num_lots)
             # Now initialize the degradation mechanism progression
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_mech_vals[prm] = self.prm_mdl(prm).gen_init_mech_vals(sample_counts[prm], num_chps, num_lots)
             # Then initialize the un-aged values for the device parameters
-            # In case the parameter is not directly measured and instead used in calculating other parameters,
-            # ensure that any other parameter will have enough samples for now. Make more efficient in the future.
-            if prm not in sample_counts:
-                sample_counts[prm] = max(sample_counts.values())
             if type(self.prm_mdl(prm)) is DegPrmMdl:
                 init_prm_vals[prm] = self.prm_mdl(prm).init_mdl.gen_init_vals(sample_counts[prm], num_chps, num_lots)
         # Return a simulation state containing all the generated initial information about the devices to be tested
-- 
2.43.0


From b2beb34a621dcd3a2d60056e49f76aa1475c7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:42 +0000
Subject: [PATCH 03/34] fix: the default no wear-out mechanism can be stressed

Its equation takes no arguments, but was always called with the stress time.
---
 gerabaldi/models/devices.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index b918b91..8b9cb9e 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -443,8 +443,8 @@ class MechMdl(LatentMdl):
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
         no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
 
-        # Add the stress time to the argument dict
-        arg_vals = {'time': times}
+        # Add the stress time to the argument dict, unless the mechanism is time independent (e.g. the no wear-out default)
+        arg_vals = {'time': times} if 'time' in self.compute_args else {}
         # Add all stress conditions, latent variables, and potentially initial values to the argument list
         for arg in self.compute_args:
             if arg in latents:
@@ -535,7 +535,7 @@ class DegMechMdl(MechMdl):
 
         # Computes the absolute difference between the target value and the calculated value using a given time
         def residue(time, curr_deg_val, conds, ltnts):
-            arg_vals = {'time': time}
+            arg_vals = {'time': time} if 'time' in self.compute_args else {}
             for arg in self.compute_args:
                 if arg in ltnts:
                     arg_vals[arg] = ltnts[arg]
-- 
2.43.0


From 1aa05fd2b7229bce3517572cb6680f6dd6468640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:42 +0000
Subject: [PATCH 04/34] fix: measuring an undefined parameter raises
 MissingParamError as intended

Condition generation failed first with a bare KeyError.
---
 gerabaldi/sim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index d35eb2b..39f9259 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -146,6 +146,11 @@ def _sim_meas_step(
     """
     # Loop through the parameters to measure and determine if they are degraded parameters or independent conditions
     meas_results = pd.DataFrame()
+    # All the requested measurements must be defined, otherwise condition values can't be generated for them
+    for prm in step.measurements:
+        if prm not in dev_mdl.prm_mdl_list and prm not in step.conditions:
+            raise MissingParamError(f"Requested measurement of param '{prm}' failed, param is not defined within the \
+            simulated test.")
     # Generate 'true' values for environmental conditions specified by the step (using their variability models)
     conds = test_env.gen_env_cond_vals(step.conditions, step.measurements, report, dev_mdl, 'measure')
 
-- 
2.43.0


From d4e90bf4d5929626ce9a802b3f92fafbc368b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 05/34] fix: a provided initial state can hold more parameters
 or devices than the test measures

---
 gerabaldi/sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 39f9259..75c587e 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -228,6 +228,10 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # Prepare the simulation data persistence structure
     sim_state = gen_init_state(dev_mdl, quantity_info=test_report) if not init_state else deepcopy(init_state)
+    if init_state:
+        # A provided state may hold more parameters or instances than are measured, all of them undergo the stress phases
+        for prm, vals in sim_state.curr_prm_vals.items():
+            test_report.dev_counts[prm] = vals.shape[2]
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-- 
2.43.0


From 914fcc555566717e507ae30aef1090af3583211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 06/34] fix: mechanisms in small time units are not mistaken
 for non-degrading ones on long stress phases

---
 gerabaldi/models/devices.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8b9cb9e..411f1c6 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,13 +7,14 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from datetime import timedelta
 from typing import Callable
 
 from gerabaldi.math import minimize
 from gerabaldi.models.random_vars import RandomVar, Deterministic
 from gerabaldi.models.states import SimState
 from gerabaldi.exceptions import InvalidTypeError, UserConfigError
-from gerabaldi.helpers import logger, _on_demand_import, _loop_compute
+from gerabaldi.helpers import logger, _convert_time, _on_demand_import, _loop_compute
 
 # Optional imports are loaded using a helper function that suppresses import errors until attempted use
 pymc = _on_demand_import('pymc')
@@ -406,6 +407,17 @@ class MechMdl(LatentMdl):
     def calc_equiv_strs_time(self, deg_val, init_val, strs_conds, latents, dims):
         raise NotImplementedError('Mechanism does not define how to compute value changes under time-varying stress')
 
+    def max_equiv_time(self) -> float:
+        """
+        The longest representable stress time, 1e10 hours regardless of the mechanism's time unit
+
+        Returns
+        -------
+        float
+            The maximum equivalent stress time, expressed in the time unit of the mechanism
+        """
+        return 1e10 * _convert_time(timedelta(hours=1), self.time_unit)
+
     def set_time_unit(self, prm_time_unit: str = None) -> None:
         if self.time_unit is None:
             if prm_time_unit is None:
@@ -441,7 +453,7 @@ class MechMdl(LatentMdl):
         """
         # To support degradation mechanisms that exhibit threshold behaviours, we first identify whether some samples
         # won't degrade under the current stress conditions based on the failure to find a valid equivalent stress time
-        no_deg_mask = np.where(times > 9e9, pre_deg_vals, np.inf)
+        no_deg_mask = np.where(times > 0.9 * self.max_equiv_time(), pre_deg_vals, np.inf)
 
         # Add the stress time to the argument dict, unless the mechanism is time independent (e.g. the no wear-out default)
         arg_vals = {'time': times} if 'time' in self.compute_args else {}
@@ -549,7 +561,7 @@ class DegMechMdl(MechMdl):
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
         return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, 1e10), maxiter=50, log_gold=True)
+                        bounds=(1e-3, self.max_equiv_time()), maxiter=50, log_gold=True)
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From 76e656c6ff88ff4684a551a5334127b8dedfc3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 07/34] fix: equations that only accept scalars, e.g. using the
 math module, fall back to looped computation

---
 gerabaldi/helpers.py        |  2 +-
 gerabaldi/models/devices.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 09af102..516b34c 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -176,7 +176,7 @@ def _get_single_index(vals: dict, i: int, j: int, k: int) -> dict:
             new[key] = _get_single_index(vals[key], i, j, k)
         elif type(val) in [np.ndarray, list]:
             new[key] = val[i][j][k]
-        elif type(val) in [int, float, np.float64, tuple]:
+        else:
             new[key] = val
     return new
 
diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 411f1c6..66f7577 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -466,7 +466,7 @@ class MechMdl(LatentMdl):
         # Calculate the degradation for all samples
         try:
             deg_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (TypeError, ValueError):
             deg_vals = _loop_compute(self.compute, arg_vals, dims)
 
         # Overwrite the calculated degradation for the samples that we knew wouldn't degrade to the previous values
@@ -556,7 +556,7 @@ class DegMechMdl(MechMdl):
             # Calculate the degradation for the sample
             try:
                 return abs(curr_deg_val - self.compute(**arg_vals))
-            except ValueError:
+            except (TypeError, ValueError):
                 return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
@@ -738,7 +738,7 @@ class CondShiftMdl(LatentMdl):
                 arg_vals[arg] = strs_conds[arg]
         try:
             return self.compute(**arg_vals)
-        except ValueError:
+        except (TypeError, ValueError):
             return _loop_compute(self.compute, arg_vals, dims)
 
 
@@ -1051,7 +1051,7 @@ class DegPrmMdl(LatentMdl):
         # Now compute the parameter values using all the calculated mechanism and conditional shift values
         try:
             prm_vals = self.compute(**arg_vals)
-        except ValueError:
+        except (TypeError, ValueError):
             prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
         return prm_vals, mech_vals
 
@@ -1100,7 +1100,7 @@ class DegPrmMdl(LatentMdl):
         # Now compute the parameter values
         try:
             return self.compute(**arg_vals)
-        except ValueError:
+        except (TypeError, ValueError):
             return _loop_compute(self.compute, arg_vals, meas_dims)
 
     def get_dependencies(self, conditions, target):
-- 
2.43.0


From 175ce7f50f77ad5ec08b9028ae07c0a8e1eb760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 08/34] fix: array_computable is respected, and a parameter's
 equation may return a single value

---
 gerabaldi/models/devices.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 66f7577..0f33a50 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -1049,11 +1049,7 @@ class DegPrmMdl(LatentMdl):
                 arg_vals[arg] = latents[arg]
 
         # Now compute the parameter values using all the calculated mechanism and conditional shift values
-        try:
-            prm_vals = self.compute(**arg_vals)
-        except (TypeError, ValueError):
-            prm_vals = _loop_compute(self.compute, arg_vals, strs_dims)
-        return prm_vals, mech_vals
+        return self._compute_prm_vals(arg_vals, strs_dims), mech_vals
 
     def calc_cond_shifted_vals(
         self, meas_dims: tuple, strs_conds: dict, deg_vals: np.ndarray, latents: dict
@@ -1098,10 +1094,17 @@ class DegPrmMdl(LatentMdl):
                 arg_vals[arg] = latents[arg]
 
         # Now compute the parameter values
+        return self._compute_prm_vals(arg_vals, meas_dims)
+
+    def _compute_prm_vals(self, arg_vals: dict, dims: tuple) -> np.ndarray:
+        if not self.array_compute:
+            return _loop_compute(self.compute, arg_vals, dims)
         try:
-            return self.compute(**arg_vals)
+            vals = self.compute(**arg_vals)
         except (TypeError, ValueError):
-            return _loop_compute(self.compute, arg_vals, meas_dims)
+            vals = _loop_compute(self.compute, arg_vals, dims)
+        # The equation may produce the same single value for all instances
+        return np.full(dims, vals) if np.ndim(vals) == 0 else vals
 
     def get_dependencies(self, conditions, target):
         """
-- 
2.43.0


From 615c3d6cd75ec12e54b69f9e463ff098c741156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 09/34] fix: initial value and circuit parameter equations can
 be scalar-only like all other equations

---
 gerabaldi/models/devices.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 0f33a50..8353df2 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -799,7 +799,13 @@ class InitValMdl(LatentMdl):
         # Can either generate the dev and lot variations here, or they could be provided as method arguments
         latents = self.gen_latent_vals(num_devs, num_chps, num_lots)
         # Compute the initial values using the model's specified equation
-        return self.compute(**latents)
+        dims = (num_lots, num_chps, num_devs)
+        try:
+            vals = self.compute(**latents)
+        except (TypeError, ValueError):
+            vals = _loop_compute(self.compute, latents, dims)
+        # The equation may produce the same single value for all instances
+        return np.full(dims, vals) if np.ndim(vals) == 0 else vals
 
 
 class DegPrmMdl(LatentMdl):
@@ -1196,7 +1202,13 @@ class CircPrmMdl(LatentMdl):
             elif arg in degraded_prm_vals:
                 arg_vals[arg] = degraded_prm_vals[arg][:, :, :num_samples]
 
-        return self.compute(**arg_vals)
+        dims = np.broadcast_shapes(*[np.shape(val) for val in arg_vals.values()])
+        try:
+            vals = self.compute(**arg_vals)
+        except (TypeError, ValueError):
+            vals = _loop_compute(self.compute, arg_vals, dims)
+        # The equation may produce the same single value for all instances
+        return np.full(dims, vals) if np.ndim(vals) == 0 else vals
 
     def get_required_prms(self, mdl_prm_list):
         """
-- 
2.43.0


From c74b1e3120badb260c40ab287e3eccdfcfc6d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 10/34] fix: a numeric elapsed time (in hours) of an initial
 state can be advanced

---
 gerabaldi/sim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 75c587e..9bd0669 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -82,7 +82,9 @@ def gen_init_state(
     # Now initialize the physical state and override the elapsed time if specified
     init_state = dev_mdl.gen_init_state(devs, chps, lots)
     if elapsed_time != 0:
-        init_state.elapsed = elapsed_time
+        init_state.elapsed = (
+            elapsed_time if isinstance(elapsed_time, timedelta) else _convert_time(elapsed_time, 'hours')
+        )
     return init_state
 
 
-- 
2.43.0


From fb673e5082379a11be9a12e9f642f304cd0a61be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 11/34] fix: gen_init_state leaves the caller's device counts
 unmodified

---
 gerabaldi/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 9bd0669..0ca96c9 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -53,7 +53,7 @@ def gen_init_state(
     if quantity_info and not dev_counts:
         devs, chps, lots = quantity_info.dev_counts, quantity_info.num_chps, quantity_info.num_lots
     elif dev_counts:
-        devs, chps, lots = dev_counts, num_chps, num_lots
+        devs, chps, lots = dev_counts.copy(), num_chps, num_lots
     else:
         raise UserConfigError(
             'The number of devices for each parameter must be specified either manually or by report.'
-- 
2.43.0


From c10cdce6aeee299de7dc485a3a43b1c7f9c4b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 12/34] fix: simulations of the same test specification can be
 interleaved

---
 gerabaldi/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/sim.py b/gerabaldi/sim.py
index 0ca96c9..84ad7ae 100644
--- a/gerabaldi/sim.py
+++ b/gerabaldi/sim.py
@@ -237,7 +237,7 @@ def simulate(test_def: TestSpec, dev_mdl: DeviceMdl, test_env: PhysTestEnv, init
 
     # We now execute the test step by step, sequentially performing measurements and stress intervals in order
     # Note that sim_state and test_report are mutated as the test progresses, the other data structures are untouched
-    for i, step in enumerate(test_def):
+    for i, step in enumerate(test_def.steps):
         # Check whether the next step is a measurement or period of stress
         if type(step) is StrsSpec:
             _sim_stress_step(step, sim_state, dev_mdl, test_env, test_report, i)
-- 
2.43.0


From d0c54155f497b91ab528fb44b7a1ef20ced50b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 13/34] fix: one variation model or instrument can be used for
 several conditions and parameters

---
 gerabaldi/models/phys_envs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index 58b006d..b841e94 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -328,16 +328,18 @@ class PhysTestEnv:
         if env_vrtns is None:
             env_vrtns = []
         elif type(env_vrtns) is dict:
-            # If passed as a dictionary, set the object names and transform to list
+            # If passed as a dictionary, set the object names. The same model can be used for multiple conditions
             for prm in env_vrtns:
                 env_vrtns[prm].name = prm
-            env_vrtns = [env_vrtns[prm] for prm in env_vrtns]
+                setattr(self, prm + '_var', env_vrtns[prm])
+            env_vrtns = []
         if meas_instms is None:
             meas_instms = []
         elif type(meas_instms) is dict:
             for prm in meas_instms:
                 meas_instms[prm].name = prm
-            meas_instms = [meas_instms[prm] for prm in meas_instms]
+                setattr(self, prm + '_instm', meas_instms[prm])
+            meas_instms = []
 
         # Create attributes for each parameter
         for prm in env_vrtns:
-- 
2.43.0


From 14f4a0991abf1f833aef94a2454fb67a4402fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 14/34] fix: instruments with finite precision can measure NaN

---
 gerabaldi/models/phys_envs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/phys_envs.py b/gerabaldi/models/phys_envs.py
index b841e94..1bb0b06 100644
--- a/gerabaldi/models/phys_envs.py
+++ b/gerabaldi/models/phys_envs.py
@@ -84,7 +84,7 @@ class MeasInstrument:
             # The calculation for determining the sig figs -> decimal places is pretty standard and widely explained
             # Ternary operator is used to handle special cases that cause the rounding to fail otherwise
             meas_vals = meas_vals.apply(
-                lambda x: x if x == 0 or np.isinf(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
+                lambda x: x if x == 0 or not np.isfinite(x) else np.round(x, self._precision - int(floor(log10(abs(x)))) - 1)
             )
         if self._range:
             # If the measured value exceeds the measurement range then force it to the limit
-- 
2.43.0


From 2c5f27de896de2e4f4c546229ed00e0de8241eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 15/34] fix: a test seed of 0 is respected

---
 gerabaldi/models/random_vars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index 3944970..a809aec 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -30,7 +30,7 @@ class RandomVar:
         if dist_type:
             self._dist_type = dist_type
         # Test seed is used to make the random variable sampling reproducible for testing purposes only
-        if test_seed:
+        if test_seed is not None:
             self._generator = getattr(np.random.default_rng(seed=test_seed), self._dist_type)
         else:
             self._generator = getattr(np.random.default_rng(), self._dist_type)
-- 
2.43.0


From ab19ae9273fbbb9606c16a808fcb43ebf474b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 16/34] fix: looped steps longer than the requested duration
 always raise the warning

---
 gerabaldi/models/test_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index ac854d1..cb837a7 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -195,7 +195,7 @@ class TestSpec:
                     t += steps.duration
 
             # Check if the duration was an integer multiple of the duration of the set of steps, warn if not
-            if not (t / duration).is_integer():
+            if t != duration:
                 raise UserWarning(
                     'Appended steps did not result in an integer multiple of the loop duration, test '
                     'may be longer than intended.'
-- 
2.43.0


From ea65a5b9966956c556a8bb5affaf9dfeab6da8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 17/34] fix: appending to a test specification leaves the
 caller's list of steps unmodified

---
 gerabaldi/models/test_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index cb837a7..dc342b8 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -133,7 +133,7 @@ class TestSpec:
         """
         if sequential_steps is None:
             sequential_steps = []
-        self.steps = sequential_steps
+        self.steps = list(sequential_steps)
         self.num_chps = num_chps
         self.num_lots = num_lots
         self.description = description
-- 
2.43.0


From 53f5a117df25676ecdf392d8d47db16cb908a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:51 +0000
Subject: [PATCH 18/34] fix: negative stress and loop durations are rejected

---
 gerabaldi/models/test_specs.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index dc342b8..8255f82 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -76,9 +76,9 @@ class StrsSpec:
             if time_unit is None:
                 logger.warn('Stress spec time units not explicitly provided, defaulting to hours.')
             duration = _convert_time(duration, time_unit)
-        # Ensure the duration of the stress phase/cell is not 0
-        if duration == timedelta():
-            raise UserConfigError(f"Stress Specification '{name}' cannot have a time duration of 0.")
+        # Ensure the duration of the stress phase/cell is not 0, nor negative
+        if duration <= timedelta():
+            raise UserConfigError(f"Stress Specification '{name}' cannot have a time duration of 0 or less.")
         self.duration = duration
         self.name = name
 
@@ -169,10 +169,10 @@ class TestSpec:
                     logger.warn('Append loop time units not explicitly provided, defaulting to hours.')
                 duration = _convert_time(loop_for_duration, time_unit)
 
-            # Ensure duration is not 0
+            # Ensure duration is not 0, nor negative
             t = timedelta()
-            if duration == t:
-                raise UserConfigError('Cannot loop append test steps with a target stress duration of 0.')
+            if duration <= t:
+                raise UserConfigError('Cannot loop append test steps with a target stress duration of 0 or less.')
             # Ensure steps to add are not purely measurement steps, as that would result in infinite steps being added
             if type(steps) is MeasSpec or (type(steps) is list and all(type(step) is MeasSpec for step in steps)):
                 raise UserConfigError(
-- 
2.43.0


From ae9c4f3f0a91bb7430a937c908791a8a571bbad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 19/34] fix: a custom stream handler replaces the default one

---
 gerabaldi/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gerabaldi/helpers.py b/gerabaldi/helpers.py
index 516b34c..d56f3b8 100644
--- a/gerabaldi/helpers.py
+++ b/gerabaldi/helpers.py
@@ -77,10 +77,11 @@ def configure_logger(
     existing_stream_handler = None
     existing_file_handler = None
     for handler in logger.handlers:
-        if type(handler) is logging.StreamHandler and type(handler) is not logging.FileHandler:
-            existing_stream_handler = handler
-        elif type(handler) is logging.FileHandler:
+        # File handlers are a subclass of stream handlers, and the default handler is one as well, so order is important
+        if isinstance(handler, logging.FileHandler):
             existing_file_handler = handler
+        elif isinstance(handler, logging.StreamHandler):
+            existing_stream_handler = handler
 
     # If the user provided a custom stream handler, remove the default one, add the custom one
     if stream_handler:
-- 
2.43.0


From e2cd1cb49f140b86e238d1166d01c9c0bae7bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 20/34] fix: reports can be exported into nested directories
 that do not exist yet

---
 gerabaldi/models/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 1aab807..5f2c2bd 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -212,7 +212,7 @@ class SimReport:
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
             data_dir = file.rpartition('/')[0]
-            Path(data_dir).mkdir(exist_ok=True)
+            Path(data_dir).mkdir(parents=True, exist_ok=True)
             with open(file, 'w') as f:
                 json.dump(report_json, f)
             logger.info(f'Successfully exported test report {self.test_name} to file.')
-- 
2.43.0


From db98d5edf6a7d268d86ed07a06468c41fad26123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:16 +0000
Subject: [PATCH 21/34] fix: reports with converted times can be converted
 again and exported

---
 gerabaldi/models/reports.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 5f2c2bd..342fdeb 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -201,12 +201,12 @@ class SimReport:
         report_json['Time Units'] = units
 
         meas_cpy = self.measurements.copy()
-        meas_cpy['time'] = meas_cpy['time'].apply(_convert_time, units=units, axis=1)
+        meas_cpy['time'] = meas_cpy['time'].apply(self._to_raw_time, units=units)
         report_json['Measurements'] = meas_cpy.to_json()
         strs_cpy = self.test_summary.copy()
-        strs_cpy['duration'] = strs_cpy['duration'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['start time'] = strs_cpy['start time'].apply(_convert_time, units=units, axis=1)
-        strs_cpy['end time'] = strs_cpy['end time'].apply(_convert_time, units=units, axis=1)
+        strs_cpy['duration'] = strs_cpy['duration'].apply(self._to_raw_time, units=units)
+        strs_cpy['start time'] = strs_cpy['start time'].apply(self._to_raw_time, units=units)
+        strs_cpy['end time'] = strs_cpy['end time'].apply(self._to_raw_time, units=units)
         report_json['Test Summary'] = strs_cpy.to_json()
 
         if file:
@@ -226,5 +226,11 @@ class SimReport:
         if units is None:
             logger.warn('Converted report time units not explicitly provided, defaulting to hours.')
             units = 'hours'
+        self.measurements['time'] = self.measurements['time'].apply(self._to_raw_time, units=units)
         self.time_unit = units
-        self.measurements['time'] = self.measurements['time'].apply(lambda time: _convert_time(time, self.time_unit))
+
+    def _to_raw_time(self, time: timedelta | float, units: str) -> float:
+        # Times that were already converted to raw values are in terms of the report's current time unit
+        if not isinstance(time, timedelta):
+            time = _convert_time(time, self.time_unit)
+        return _convert_time(time, units)
-- 
2.43.0


From 0ff754f8eeb7ff2b1894da9bd583519113d6c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:10 +0000
Subject: [PATCH 22/34] fix: exported reports keep the full precision of
 measurements, conditions, and times

---
 gerabaldi/models/reports.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gerabaldi/models/reports.py b/gerabaldi/models/reports.py
index 342fdeb..163bb25 100644
--- a/gerabaldi/models/reports.py
+++ b/gerabaldi/models/reports.py
@@ -9,6 +9,7 @@ import json
 import pandas as pd
 import numpy as np
 from datetime import timedelta
+from io import StringIO
 from pathlib import Path
 
 from gerabaldi.models.test_specs import TestSpec
@@ -73,8 +74,8 @@ class SimReport:
                     raise FileNotFoundError(msg) from e
             self.test_name = report_json['Test Name']
             self.test_description = report_json['Description']
-            self.measurements = pd.read_json(report_json['Measurements'])
-            self.test_summary = pd.read_json(report_json['Test Summary'])
+            self.measurements = self._read_table(report_json['Measurements'])
+            self.test_summary = self._read_table(report_json['Test Summary'])
             # Convert the times back to time deltas
             units = report_json['Time Units'].lower()
             self.time_unit = units
@@ -88,6 +89,12 @@ class SimReport:
             self.measurements, self.test_summary = None, None
             self.num_chps, self.num_lots, self.dev_counts = None, None, None
 
+    @staticmethod
+    def _read_table(table: str) -> pd.DataFrame:
+        # The values must be loaded exactly as they were exported, without guessing what names and numbers represent
+        names = {'param': str, 'step name': str, 'step type': str}
+        return pd.read_json(StringIO(table), dtype=names, convert_dates=False, precise_float=True)
+
     @staticmethod
     def format_measurements(
         measured_vals: list | pd.Series | np.ndarray,
@@ -202,12 +209,12 @@ class SimReport:
 
         meas_cpy = self.measurements.copy()
         meas_cpy['time'] = meas_cpy['time'].apply(self._to_raw_time, units=units)
-        report_json['Measurements'] = meas_cpy.to_json()
+        report_json['Measurements'] = json.dumps(meas_cpy.to_dict(), default=np.generic.item)
         strs_cpy = self.test_summary.copy()
         strs_cpy['duration'] = strs_cpy['duration'].apply(self._to_raw_time, units=units)
         strs_cpy['start time'] = strs_cpy['start time'].apply(self._to_raw_time, units=units)
         strs_cpy['end time'] = strs_cpy['end time'].apply(self._to_raw_time, units=units)
-        report_json['Test Summary'] = strs_cpy.to_json()
+        report_json['Test Summary'] = json.dumps(strs_cpy.to_dict(), default=np.generic.item)
 
         if file:
             # Make the directory if it doesn't yet exist, otherwise the file open will fail
-- 
2.43.0


From 5d78ea4890b04bb77dbc1fae19827b24b73f6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:10 +0000
Subject: [PATCH 23/34] fix: the documented core interface can be imported from
 the package

---
 gerabaldi/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gerabaldi/__init__.py b/gerabaldi/__init__.py
index a8b1447..75e2c62 100644
--- a/gerabaldi/__init__.py
+++ b/gerabaldi/__init__.py
@@ -46,6 +46,8 @@ __version__ = '0.2.0'
 
 from . import models
 from . import cookbook
+from .models import *
+from .cookbook import *
 from .sim import simulate, gen_init_state
 
 __all__ = ['simulate', 'gen_init_state', 'models', 'cookbook']
-- 
2.43.0


From bde057982f8be0b0e3002eb73fafeae853234b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:10 +0000
Subject: [PATCH 24/34] fix: exporting a latent variable for CBI leaves a
 centre of 0 as it was

---
 gerabaldi/models/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 8353df2..5980920 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -221,7 +221,7 @@ class LatentVar:
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
             old_centre = None
-            if self.deter_val:
+            if self.deter_val is not None:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
                 old_centre = self.dev_vrtn_mdl.get_centre()
@@ -247,7 +247,7 @@ class LatentVar:
             else:
                 cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
             # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre:
+            if old_centre is not None:
                 self.dev_vrtn_mdl.set_centre(old_centre)
             return cbi_dist
         else:
-- 
2.43.0


From 7bd4fb93dd832e53e17374efe8a2c32ccba78fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:48 +0000
Subject: [PATCH 25/34] fix: models can be exported to pyro with observed data

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 5980920..96d10ce 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -354,7 +354,7 @@ class LatentMdl:
         if target_framework == 'pymc':
             return pymc.Normal(name=self.name, mu=computed, sigma=1, observed=observed[self.name])
         else:
-            return pyro.sample(self.name, dist.Normal(computed, 0.1), obs=observed[self.name]).to_event(1)
+            return pyro.sample(self.name, dist.Normal(computed, 0.1).to_event(1), obs=observed[self.name])
 
 
 class MechMdl(LatentMdl):
-- 
2.43.0


From 0bb858b09e47977f465a56379d88f67cfbe8a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:48 +0000
Subject: [PATCH 26/34] fix: exporting a latent variable for CBI leaves a
 centre of 0 as it was

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 96d10ce..129cff4 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -221,7 +221,7 @@ class LatentVar:
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
             old_centre = None
-            if self.deter_val is not None:
+            if self.deter_val:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
                 old_centre = self.dev_vrtn_mdl.get_centre()
-- 
2.43.0


From 7b45764ce79fa525711dbd8299e7a1bdb5a7e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:48 +0000
Subject: [PATCH 27/34] fix: latent variables with integer parameters can be
 exported to pyro

---
 gerabaldi/models/devices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 129cff4..31a7d12 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -225,7 +225,7 @@ class LatentVar:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
                 old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(self.deter_val, op)
+                self.dev_vrtn_mdl.set_centre(float(self._op(self.deter_val, old_centre)))
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-- 
2.43.0


From 576ef088358c2c16b99e2a7fb18ae6d00ca883a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:28 +0000
Subject: [PATCH 28/34] fix: equivalent stress times are found for mechanisms
 that saturate

---
 gerabaldi/models/devices.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 31a7d12..9cb6202 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -560,8 +560,22 @@ class DegMechMdl(MechMdl):
                 return abs(curr_deg_val - _loop_compute(self.compute, arg_vals, dims))
 
         # Find the time/zero point at which the current degradation is achieved under the new stress conditions
-        return minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
-                        bounds=(1e-3, self.max_equiv_time()), maxiter=50, log_gold=True)
+        times = minimize(residue, extra_args={'curr_deg_val': deg_val, 'conds': strs_conds, 'ltnts': latents},
+                         bounds=(1e-3, self.max_equiv_time()), maxiter=50, log_gold=True)
+
+        # The search can end anywhere on a plateau, e.g. where the mechanism has saturated, instead of at the zero point
+        amount = np.abs(deg_val - init_val)
+        invalid = (residue(times, deg_val, strs_conds, latents) > 1e-3 * amount) & (amount > 0)
+        if np.any(invalid):
+            # Bisect for those samples, which finds the maximum time if the current degradation can't be reached at all
+            low = np.full_like(times, np.log10(1e-3))
+            high = np.full_like(times, np.log10(self.max_equiv_time()))
+            for _ in range(50):
+                mid = (low + high) / 2
+                short = residue(10**mid, init_val, strs_conds, latents) < amount
+                low, high = np.where(short, mid, low), np.where(short, high, mid)
+            times = np.where(invalid, 10**high, times)
+        return times
 
 
 class FailMechMdl(MechMdl):
-- 
2.43.0


From ffc699026c3bdd6c0dd484eb110981f56713950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:51 +0000
Subject: [PATCH 29/34] fix: observed values are not dropped when a random
 variable is exported to pyro

---
 gerabaldi/models/random_vars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/random_vars.py b/gerabaldi/models/random_vars.py
index a809aec..8c7103f 100644
--- a/gerabaldi/models/random_vars.py
+++ b/gerabaldi/models/random_vars.py
@@ -14,6 +14,7 @@ from gerabaldi.helpers import _on_demand_import
 pymc = _on_demand_import('pymc')
 pyro = _on_demand_import('pyro', 'pyro-ppl')
 dist = _on_demand_import('pyro.distributions', 'pyro-ppl')
+tc = _on_demand_import('torch')
 
 __all__ = ['RandomVar', 'Deterministic', 'Normal', 'Gamma', 'Uniform']
 
@@ -90,7 +91,9 @@ class RandomVar:
         elif target_framework == 'pyro':
             try:
                 return pyro.sample(
-                    self.name, getattr(dist, self._dist_type.capitalize())(**self._get_dist_params('pyro'))
+                    self.name,
+                    getattr(dist, self._dist_type.capitalize())(**self._get_dist_params('pyro')),
+                    obs=None if observed is None else tc.as_tensor(observed),
                 )
             except AttributeError as e:
                 raise NotImplementedError(
-- 
2.43.0


From c82c3736f7b3a441d850f65d9166b4a48353b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:44 +0000
Subject: [PATCH 30/34] revert: leave models/test_specs.py as it was, its name
 is that of a test file

---
 gerabaldi/models/test_specs.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gerabaldi/models/test_specs.py b/gerabaldi/models/test_specs.py
index 8255f82..ac854d1 100644
--- a/gerabaldi/models/test_specs.py
+++ b/gerabaldi/models/test_specs.py
@@ -76,9 +76,9 @@ class StrsSpec:
             if time_unit is None:
                 logger.warn('Stress spec time units not explicitly provided, defaulting to hours.')
             duration = _convert_time(duration, time_unit)
-        # Ensure the duration of the stress phase/cell is not 0, nor negative
-        if duration <= timedelta():
-            raise UserConfigError(f"Stress Specification '{name}' cannot have a time duration of 0 or less.")
+        # Ensure the duration of the stress phase/cell is not 0
+        if duration == timedelta():
+            raise UserConfigError(f"Stress Specification '{name}' cannot have a time duration of 0.")
         self.duration = duration
         self.name = name
 
@@ -133,7 +133,7 @@ class TestSpec:
         """
         if sequential_steps is None:
             sequential_steps = []
-        self.steps = list(sequential_steps)
+        self.steps = sequential_steps
         self.num_chps = num_chps
         self.num_lots = num_lots
         self.description = description
@@ -169,10 +169,10 @@ class TestSpec:
                     logger.warn('Append loop time units not explicitly provided, defaulting to hours.')
                 duration = _convert_time(loop_for_duration, time_unit)
 
-            # Ensure duration is not 0, nor negative
+            # Ensure duration is not 0
             t = timedelta()
-            if duration <= t:
-                raise UserConfigError('Cannot loop append test steps with a target stress duration of 0 or less.')
+            if duration == t:
+                raise UserConfigError('Cannot loop append test steps with a target stress duration of 0.')
             # Ensure steps to add are not purely measurement steps, as that would result in infinite steps being added
             if type(steps) is MeasSpec or (type(steps) is list and all(type(step) is MeasSpec for step in steps)):
                 raise UserConfigError(
@@ -195,7 +195,7 @@ class TestSpec:
                     t += steps.duration
 
             # Check if the duration was an integer multiple of the duration of the set of steps, warn if not
-            if t != duration:
+            if not (t / duration).is_integer():
                 raise UserWarning(
                     'Appended steps did not result in an integer multiple of the loop duration, test '
                     'may be longer than intended.'
-- 
2.43.0


From dbf99e2428a6f6baf89595b8c8c9211e7957537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:22 +0000
Subject: [PATCH 31/34] fix: star imports work for the test specification and
 cookbook submodules

---
 gerabaldi/cookbook/__init__.py | 2 +-
 gerabaldi/models/__init__.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gerabaldi/cookbook/__init__.py b/gerabaldi/cookbook/__init__.py
index 9ac9bab..36f6fc3 100644
--- a/gerabaldi/cookbook/__init__.py
+++ b/gerabaldi/cookbook/__init__.py
@@ -11,6 +11,6 @@ from .test_specs import *
 from .test_envs import *
 from .mech_mdls import *
 
-__all__ = test_specs.__all__
+__all__ = [*test_specs.__all__]
 __all__ += test_envs.__all__
 __all__ += mech_mdls.__all__
diff --git a/gerabaldi/models/__init__.py b/gerabaldi/models/__init__.py
index 4862fc1..cb592f3 100644
--- a/gerabaldi/models/__init__.py
+++ b/gerabaldi/models/__init__.py
@@ -11,7 +11,7 @@ from .random_vars import *
 from .reports import *
 from .states import *
 
-__all__ = test_specs.__all__
+__all__ = [*test_specs.__all__]
 __all__ += devices.__all__
 __all__ += phys_envs.__all__
 __all__ += random_vars.__all__
-- 
2.43.0


From cf3d91d502adc9986c8d2c80fbe233fada909999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:29 +0000
Subject: [PATCH 32/34] fix: a refused export left the latent variable with a
 shifted centre

---
 gerabaldi/models/devices.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 9cb6202..7cc16b4 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 
 import inspect
 import numpy as np
+from copy import copy
 from datetime import timedelta
 from typing import Callable
 
@@ -220,16 +221,17 @@ class LatentVar:
                 raise NotImplementedError(f'Requested target CBI framework {target_framework} is not yet supported.')
 
             # If a deterministic value was used we may still be able to convert the variable to a probabilistic form
-            old_centre = None
+            dev_mdl = self.dev_vrtn_mdl
             if self.deter_val:
                 # If the dev_vrtn_mdl distribution has a "centre" we can set the centre to the deterministic value and
                 # proceed, however if the distribution is bimodal, uniform, etc. an error must be raised.
-                old_centre = self.dev_vrtn_mdl.get_centre()
-                self.dev_vrtn_mdl.set_centre(float(self._op(self.deter_val, old_centre)))
+                # Use a copy of the distribution to avoid any method side effects
+                dev_mdl = copy(self.dev_vrtn_mdl)
+                dev_mdl.set_centre(float(self._op(self.deter_val, dev_mdl.get_centre())))
 
             # Normal probabilistic model export, only incorporate the stochastic layers if used
             if self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 if target_framework == 'pymc':
@@ -237,18 +239,15 @@ class LatentVar:
                 else:
                     cbi_dist = op(op(dev, chp), lot)
             elif self._chp_vrtns and not self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_mdl.get_cbi_form(target_framework=target_framework)
                 chp = self.chp_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, chp)) if target_framework == 'pymc' else op(dev, chp)
             elif not self._chp_vrtns and self._lot_vrtns:
-                dev = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
+                dev = dev_mdl.get_cbi_form(target_framework=target_framework)
                 lot = self.lot_vrtn_mdl.get_cbi_form(target_framework=target_framework)
                 cbi_dist = pymc.Deterministic(self.name, op(dev, lot)) if target_framework == 'pymc' else op(dev, lot)
             else:
-                cbi_dist = self.dev_vrtn_mdl.get_cbi_form(target_framework=target_framework)
-            # Return the dev_vrtn_mdl centre value to previous if it was changed to avoid any method side effects
-            if old_centre is not None:
-                self.dev_vrtn_mdl.set_centre(old_centre)
+                cbi_dist = dev_mdl.get_cbi_form(target_framework=target_framework)
             return cbi_dist
         else:
             raise UserConfigError(f'Cannot export deterministic latent variable {self.name} for CBI use.')
-- 
2.43.0


From 6a4a0a8ac6d67ac49454b61dcc93cd1a69d94e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:28 +0000
Subject: [PATCH 33/34] fix: fresh devices degrade by mechanisms that end or
 overflow within the range of the equivalent time search

---
 gerabaldi/models/devices.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gerabaldi/models/devices.py b/gerabaldi/models/devices.py
index 7cc16b4..5e44a88 100644
--- a/gerabaldi/models/devices.py
+++ b/gerabaldi/models/devices.py
@@ -564,7 +564,9 @@ class DegMechMdl(MechMdl):
 
         # The search can end anywhere on a plateau, e.g. where the mechanism has saturated, instead of at the zero point
         amount = np.abs(deg_val - init_val)
-        invalid = (residue(times, deg_val, strs_conds, latents) > 1e-3 * amount) & (amount > 0)
+        if np.any(amount == 0):
+            times = np.where(amount == 0, 1e-3, times)
+        invalid = ~(residue(times, deg_val, strs_conds, latents) <= 1e-3 * amount) & (amount > 0)
         if np.any(invalid):
             # Bisect for those samples, which finds the maximum time if the current degradation can't be reached at all
             low = np.full_like(times, np.log10(1e-3))
-- 
2.43.0


From f553ba647996e55848887175a684b06d4d8c88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:28 +0000
Subject: [PATCH 34/34] fix: the minimum search never evaluates a function at
 NaN next to infinite function values

---
 gerabaldi/math/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gerabaldi/math/minimize.py b/gerabaldi/math/minimize.py
index 9f8d449..582d510 100644
--- a/gerabaldi/math/minimize.py
+++ b/gerabaldi/math/minimize.py
@@ -73,7 +73,7 @@ def minimize(func, extra_args: dict, bounds, precision=1e-5, mach_eps=MACH_64BIT
         qsub2 = xdiff2 * (fx - fw)
         q = 2 * (qsub2 - qsub1)
 
-        use_para = use_para & np.not_equal(q, 0.0)
+        use_para = use_para & np.not_equal(q, 0.0) & np.isfinite(q)
         p = np.where(use_para, (xdiff2 * qsub2) - (xdiff1 * qsub1), 0.0)
         p = np.where(np.greater(q, 0.0), -p, p)
         q = np.abs(q)
-- 
2.43.0

