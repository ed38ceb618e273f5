From 37a4874d3080863b0e05b83eb413222e4c7c4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 1/9] fix: convert impulse response heat uptake terms to W/m^2

The feedback term used the magnitude of lambda0 in whatever units q1/q2 were
given in and the efficacy term raised an AssertionError for equivalent units.
---
 src/openscm_twolayermodel/impulse_response_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index dc1d3f8..3673814 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -215,7 +215,9 @@ class ImpulseResponseModel(
 
     def _calculate_next_rndt(self, t1, t2, erf, efficacy):
         two_layer_paras = self.get_two_layer_parameters()
-        lambda0 = two_layer_paras["lambda0"]
+        lambda0 = two_layer_paras["lambda0"].to(
+            "{} / ({})".format(self._erf_unit, self._temp1_unit)
+        )
 
         if np.equal(efficacy, 1):
             efficacy_term = 0 * ur(self._erf_unit)
@@ -234,10 +236,7 @@ class ImpulseResponseModel(
                 two_layer_paras["eta"]
                 * (efficacy - 1)
                 * ((1 - gh["phi1"]) * t1_h + (1 - gh["phi2"]) * t2_h)
-            )
-
-            if str(efficacy_term.units) != "watt / meter ** 2":
-                raise AssertionError("units should have come out as W/m^2")
+            ).to(self._erf_unit)
 
         out = erf - lambda0.magnitude * (t1 + t2) - efficacy_term.magnitude
 
-- 
2.43.0


From 58c52dd1cbf3e0c23ad1a28927100528be71890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 2/9] fix: only treat axes with year-long steps as yearly

A two point axis which crosses the new year (e.g. December to January, or
31 December to 1 January) was run with a yearly timestep.
---
 src/openscm_twolayermodel/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index ea817ed..6f89a00 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -153,11 +153,18 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _select_timestep(driver):
         year_diff = driver["year"].diff().dropna()
-        if (year_diff == 1).all():
+        time_diff = driver["time"].diff().dropna()
+        # consecutive calendar years alone are not enough, e.g. a two point axis which
+        # goes from December to January isn't yearly
+        if (year_diff == 1).all() and all(
+            np.logical_and(
+                time_diff <= np.timedelta64(367, "D"),
+                time_diff >= np.timedelta64(364, "D"),
+            )
+        ):
             # assume yearly timesteps
             return 1 * ur("yr")
 
-        time_diff = driver["time"].diff().dropna()
         if all(
             np.logical_and(
                 time_diff <= np.timedelta64(31, "D"),
-- 
2.43.0


From d1b282c3c56acaf45be3dd53fe5a3e7d31ec5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 3/9] fix: select timestep from each driver timeseries' own
 time points

Values missing within a timeseries were silently dropped and the rest was run
as if it was contiguous, and the time points of data which isn't used as driver
determined (or prevented) the choice of timestep.
---
 src/openscm_twolayermodel/base.py | 34 ++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 6f89a00..83b6105 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -179,6 +179,32 @@ class TwoLayerVariant(Model):
             "Could not decide on timestep for time axis: {}".format(driver["time"])
         )
 
+    def _select_timestep_all(self, driver, driver_ts):
+        # only the time points at which a timeseries has data matter for that
+        # timeseries, other points on the shared time axis belong to other data
+        time_axis = {k: driver[k] for k in ("year", "time")}
+
+        timesteps = list()
+        for _, row in driver_ts.iterrows():
+            has_data = row.notna().values
+            if has_data.sum() > 1:
+                timesteps.append(
+                    self._select_timestep(
+                        {k: v[has_data] for k, v in time_axis.items()}
+                    )
+                )
+
+        if not timesteps:
+            # timestep is irrelevant, there are only single values
+            return 1 * ur("yr")
+
+        if any([t != timesteps[0] for t in timesteps]):
+            raise NotImplementedError(
+                "Timeseries with different timesteps: {}".format(timesteps)
+            )
+
+        return timesteps[0]
+
     def run_scenarios(  # pylint:disable=too-many-locals
         self, scenarios, driver_var="Effective Radiative Forcing", progress=True,
     ):
@@ -212,6 +238,9 @@ class TwoLayerVariant(Model):
         ValueError
             No data is available for ``driver_var`` in the ``"World"`` region in
             ``scenarios``.
+
+        NotImplementedError
+            The timestep used in ``scenarios`` is not constant
         """
         driver = self._ensure_scenarios_are_scmrun(scenarios)
 
@@ -230,12 +259,11 @@ class TwoLayerVariant(Model):
         for k, v in save_paras_meta.items():
             driver[k] = v
 
-        timestep = self._select_timestep(driver)
-        self.delta_t = timestep
+        driver_ts = driver.timeseries()
+        self.delta_t = self._select_timestep_all(driver, driver_ts)
 
         run_store = list()
 
-        driver_ts = driver.timeseries()
         for i, (label, row) in tqdman.tqdm(
             enumerate(driver_ts.iterrows()),
             desc="scenarios",
-- 
2.43.0


From c0cb6a8cfa9dcf2e828036efc526cfdb4131bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 4/9] fix: refuse scalar drivers with the documented
 AssertionError

---
 src/openscm_twolayermodel/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 83b6105..03e3dd9 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -127,7 +127,8 @@ class TwoLayerVariant(Model):
         AssertionError
             ``erf`` is not one-dimensional
         """
-        if len(erf.shape) != 1:
+        # scalar quantities and lists don't have a shape attribute
+        if np.ndim(getattr(erf, "magnitude", erf)) != 1:
             raise AssertionError("erf must be one-dimensional")
 
         self.erf = erf
-- 
2.43.0


From 28903b54f945d2e25803aae7f684e1973c9074aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 5/9] fix: do not modify a DataFrame passed to run_scenarios

ScmRun moves the index of a DataFrame into columns in place, so the caller's
scenarios were changed by the run.
---
 src/openscm_twolayermodel/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/base.py b/src/openscm_twolayermodel/base.py
index 03e3dd9..5fe56db 100644
--- a/src/openscm_twolayermodel/base.py
+++ b/src/openscm_twolayermodel/base.py
@@ -136,7 +136,7 @@ class TwoLayerVariant(Model):
     @staticmethod
     def _ensure_scenarios_are_scmrun(scenarios):
         if not isinstance(scenarios, ScmRun):
-            driver = ScmRun(scenarios)
+            driver = ScmRun(scenarios, copy_data=True)
         else:
             driver = scenarios.copy()
 
-- 
2.43.0


From baf6ccb5166f6640a12c3a7ad45ef5069d481fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 6/9] fix: impulse response model run with an unsigned integer
 timestep

Negating the timestep wrapped around for unsigned integers, so the decay
factors (and all results) were infinite or nan without any error.
---
 src/openscm_twolayermodel/impulse_response_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index 3673814..f0b2c87 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -208,8 +208,9 @@ class ImpulseResponseModel(
 
     @staticmethod
     def _calculate_next_temp(delta_t, t, q, d, erf):
-        decay_factor = np.exp(-delta_t / d)
-        rise = erf * q * (1 - np.exp(-delta_t / d))
+        # dividing first as unsigned integers can't be negated
+        decay_factor = np.exp(-(delta_t / d))
+        rise = erf * q * (1 - np.exp(-(delta_t / d)))
 
         return t * decay_factor + rise
 
-- 
2.43.0


From d8debed6bb751832e50b7fd82a749f9d5ba4b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 7/9] fix: two-layer equivalent of integer timescales

The product of two numpy integer timescales in seconds doesn't fit into 64 bits
if they are e.g. 30 and 400 years long. It overflowed silently, hence the
equivalent parameters and the heat uptake were wrong.
---
 src/openscm_twolayermodel/impulse_response_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index f0b2c87..f5d61b1 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -299,7 +299,8 @@ class ImpulseResponseModel(
             temperature response as ``self``
         """
         lambda0 = 1 / (self.q1 + self.q2)
-        C = (self.d1 * self.d2) / (self.q1 * self.d2 + self.q2 * self.d1)
+        # as float, the product of integers in e.g. seconds can be too big
+        C = (1.0 * self.d1 * self.d2) / (self.q1 * self.d2 + self.q2 * self.d1)
 
         a1 = lambda0 * self.q1
         a2 = lambda0 * self.q2
-- 
2.43.0


From 6f028c02aa9e18ee4110913582f315475d3ded9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:24 +0000
Subject: [PATCH 8/9] fix: climate sensitivity of a forcing given as unsigned
 integer

Negating it wrapped around: 4 W/m^2 given as numpy.uint64 and 2 W/m^2/delta_degC
gave a climate sensitivity of 9e18 instead of -2 delta_degC.
---
 src/openscm_twolayermodel/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openscm_twolayermodel/utils.py b/src/openscm_twolayermodel/utils.py
index 6a620f9..9d35abc 100644
--- a/src/openscm_twolayermodel/utils.py
+++ b/src/openscm_twolayermodel/utils.py
@@ -34,4 +34,5 @@ def convert_lambda_to_ecs(lambda_val, f2x=3.74 * unit_registry("W/m^2")):
     if not isinstance(f2x, pint.Quantity):
         raise TypeError("f2x is not a pint.Quantity")
 
-    return -f2x / lambda_val
+    # dividing first as unsigned integers cannot be negated
+    return -(f2x / lambda_val)
-- 
2.43.0


From c7a16d96602798bba97d9739eb48db521cd0d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:28 +0000
Subject: [PATCH 9/9] fix: two-layer equivalent of 32 bit integer timescales
 and sensitivities

q1 and q2 (e.g. 400 mK/(W/m^2)) times timescales in seconds didn't fit into 32
bits either, use floats for all of these products.
---
 src/openscm_twolayermodel/impulse_response_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openscm_twolayermodel/impulse_response_model.py b/src/openscm_twolayermodel/impulse_response_model.py
index f5d61b1..6e4e642 100644
--- a/src/openscm_twolayermodel/impulse_response_model.py
+++ b/src/openscm_twolayermodel/impulse_response_model.py
@@ -299,8 +299,10 @@ class ImpulseResponseModel(
             temperature response as ``self``
         """
         lambda0 = 1 / (self.q1 + self.q2)
-        # as float, the product of integers in e.g. seconds can be too big
-        C = (1.0 * self.d1 * self.d2) / (self.q1 * self.d2 + self.q2 * self.d1)
+        # as floats, the products of integers in e.g. seconds can be too big
+        d1 = 1.0 * self.d1
+        d2 = 1.0 * self.d2
+        C = (d1 * d2) / (self.q1 * d2 + self.q2 * d1)
 
         a1 = lambda0 * self.q1
         a2 = lambda0 * self.q2
-- 
2.43.0

