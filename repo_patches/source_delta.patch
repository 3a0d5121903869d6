From 2d73d0225fbc8cd14292c2b02e7f7bb460072562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:46 +0000
Subject: [PATCH 01/54] fix: final write to disk fails when the last step
 exactly fills the result arrays

---
 multisim/simenv.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index fc4e648..b712934 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5349,11 +5349,15 @@ class SimEnv:
                     self._solver_state[:array_length],
                     axis=0,
                 )
+                # row to carry over to the next chunk. when called for the final
+                # write after a completely filled chunk, stepnum is already one
+                # past the last row:
+                last = np.minimum(self.stepnum, self.time_vec.size - 1)
                 # save last state and reset the rest
-                self.time_vec[0] = self.time_vec[self.stepnum[0]]
-                self._sys_trnc_err[0] = self._sys_trnc_err[self.stepnum[0]]
-                self._failed_steps[0] = self._failed_steps[self.stepnum[0]]
-                self._solver_state[0] = self._solver_state[self.stepnum[0]]
+                self.time_vec[0] = self.time_vec[last[0]]
+                self._sys_trnc_err[0] = self._sys_trnc_err[last[0]]
+                self._failed_steps[0] = self._failed_steps[last[0]]
+                self._solver_state[0] = self._solver_state[last[0]]
                 self.time_vec[1:] = 0
                 self._sys_trnc_err[1:] = 0
                 self._failed_steps[1:] = 0
@@ -5400,11 +5404,11 @@ class SimEnv:
                         )
                     # set current result to row 0 of array and clear the rest:
                     self.parts[part].res_dm[0, ...] = self.parts[part].res_dm[
-                        self.stepnum[0], ...
+                        last[0], ...
                     ]
                     self.parts[part].res_dm[1:, ...] = 0.0
                     self.parts[part].res[0, ...] = self.parts[part].res[
-                        self.stepnum[0], ...
+                        last[0], ...
                     ]
                     self.parts[part].res[1:, ...] = 0.0
                     # for parts with special arrays, use the special method:
@@ -5414,7 +5418,7 @@ class SimEnv:
                             part=part,
                             array_length=array_length,
                             hdf_idx=hdf_idx,
-                            stepnum=self.stepnum,
+                            stepnum=last,
                         )
                 # reset stepnum back to 0 (+1 will be set right after
                 # free_memory method) and bank total stepnum:
-- 
2.43.0


From 9631bca1b4143f53f97d25c8476d96e2ab1055e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:39 +0000
Subject: [PATCH 02/54] fix: enlarging in-memory results writes outside the old
 arrays

---
 multisim/simenv.py | 48 ++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index b712934..5f67f7e 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5297,26 +5297,36 @@ class SimEnv:
             self._solver_state = np.append(
                 self._solver_state, arr_to_append, axis=0
             )
-            # loop over parts:
-            for part in self.parts:
-                # for all parts:
-                self.parts[part].res_dm = np.append(
-                    self.parts[part].res_dm,
-                    np.zeros(
-                        (
-                            self.__base_num_steps,
-                            self.parts[part].res_dm.shape[1],
+            # loop over parts and enlarge all result arrays, whatever their
+            # number of dimensions:
+            for part in self.parts.values():
+                for res_name in (
+                    'res',
+                    'res_dm',
+                    'res_dQ',
+                    'res_Pel',
+                    'res_Pgas',
+                    '_chp_state',
+                ):
+                    if hasattr(part, res_name):
+                        arr = getattr(part, res_name)
+                        setattr(
+                            part,
+                            res_name,
+                            np.append(
+                                arr,
+                                np.zeros(
+                                    (self.__base_num_steps,) + arr.shape[1:],
+                                    dtype=arr.dtype,
+                                ),
+                                axis=0,
+                            ),
                         )
-                    ),
-                    axis=0,
-                )
-                self.parts[part].res = np.append(
-                    self.parts[part].res,
-                    np.zeros(
-                        (self.__base_num_steps, self.parts[part].res.shape[1])
-                    ),
-                    axis=0,
-                )
+
+            # update everything which holds a reference to the old arrays:
+            self._create_port_updater()
+            self._create_diff_inputs()
+            self._prep_inputs_for_njits()
 
             # set numer of needed steps to new amount:
             self.num_steps = self.time_vec.size - 1
-- 
2.43.0


From 32378b5774eca6f346e1bb3c9d07c2d8534d3982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:18 +0000
Subject: [PATCH 03/54] fix: first step ignores the configured minimum and
 maximum step size

---
 multisim/simenv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 5f67f7e..3533ba1 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -417,8 +417,11 @@ class SimEnv:
             # incremental counter for consecutive successive steps since the
             # last failed step
             self._steps_since_fail = 0
-            # also set starting timestep with some value:
-            self._new_step = 1.0  # this is the adaptive step starting step
+            # also set starting timestep with some value (1s, if within limits):
+            # this is the adaptive step starting step
+            self._new_step = min(
+                max(1.0, self.__min_stepsize), self.__max_stepsize
+            )
             self.timestep = 1.0  # this is the adaptive step final value
         else:
             # else if constant stepsizes are chosen
@@ -4798,9 +4801,6 @@ class SimEnv:
         # reset dynamic boundary conditions:
         self._initialize_dynamic_BC()
 
-        self._new_step = 1.0  # this is the adaptive step starting step
-        self.timestep = 1.0  # this is the adaptive step final value
-
     def initialize_sim(self, *, build_simenv=True, reset_simenv=False):
         """
         Initialize the simulation environment.
-- 
2.43.0


From 5ef62d7bcfd1f9606a991e9ca747047c959c1692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 04/54] fix: step size growth exceeds max_factor after a long
 stable phase

---
 multisim/simenv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3533ba1..5b0bc87 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4165,7 +4165,10 @@ class SimEnv:
                                 * err_rms ** (-1 / (self.__order + 1))
                             ),
                         )
-                        * (self._steps_since_fail / self._fctr_rec_stps) ** 2,
+                        * min(
+                            1.0, self._steps_since_fail / self._fctr_rec_stps
+                        )
+                        ** 2,
                     )
                     # check if step is not above max step:
                     if _h > self.__max_stepsize:
-- 
2.43.0


From 60461782ec91855f2f9b8196bb6e49739db48a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 05/54] fix: passing check_vN to set_timeframe raises a
 TypeError

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 5b0bc87..3f822d2 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -384,7 +384,7 @@ class SimEnv:
             else:
                 self.__min_factor = 0.2
             if 'check_vN' in kwargs:
-                assert isinstance(kwargs['check_vN'], bool)(
+                assert isinstance(kwargs['check_vN'], bool), (
                     'check_vN not of correct type!\n\n' + err_str
                 )
                 self._check_vN = kwargs['check_vN']
-- 
2.43.0


From 278a38336d007d4f625b47dbf6eafd24752ed7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 06/54] fix: connecting a port twice silently replaces the
 first connection

---
 multisim/simenv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3f822d2..59d4d4e 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1935,7 +1935,7 @@ class SimEnv:
         #                        first_part=first_part, first_port=first_port,
         #                        scnd_part=scnd_part, scnd_port=scnd_port))
         self.__postpone['connect_ports'][
-            first_part + ';' + first_port
+            (first_part, first_port, scnd_part, scnd_port)
         ] = _partial(
             self._connect_ports,
             first_part=first_part,
-- 
2.43.0


From 825c914c235e8f93f884f0d629efd52035df7bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 07/54] fix: connecting a part named p_gasb1_ff stops in the
 debugger

---
 multisim/simenv.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 59d4d4e..4e2749a 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1995,8 +1995,6 @@ class SimEnv:
             self.parts[first_part]._ports_unconnected = self.parts[
                 first_part
             ].port_names
-        if scnd_part == 'p_gasb1_ff':
-            breakpoint()
         if (scnd_part != 'BoundaryCondition') and hasattr(
             self.parts[scnd_part], '_ports_connected'
         ):
-- 
2.43.0


From 2a0586e466c95776686b774861bdc3acfd21c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 08/54] fix: dynamic boundary conditions other than open ports
 start with the static value

---
 multisim/simenv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 4e2749a..3251026 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5061,6 +5061,9 @@ class SimEnv:
         # set initial stepnum
         self.stepnum[0] = 1
 
+        # set all dynamic boundary conditions to their values at the start:
+        self._initialize_dynamic_BC()
+
         while self.time_sim < self.timeframe:
             # update all massflows:
             self._update_FlowNet()
-- 
2.43.0


From 46076639bd8f7b642b468b2e45a8454307df156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 09/54] fix: steps past the last value of a boundary condition
 series raise an IndexError

---
 multisim/simenv.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3251026..03bbaef 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -2738,9 +2738,12 @@ class SimEnv:
             # loop over boundary conditions:
             for BC in self._dyn_BC:
                 # get the leveraged mean value of the steps between which the
-                # current timestep is:
+                # current timestep is (the last value is kept after the end of
+                # the series, since the last timestep may end later):
+                last_idx = len(BC[1]) - 1
                 lev_mean = (
-                    BC[1][first_idx] * (1 - lev) + BC[1][first_idx + 1] * lev
+                    BC[1][min(first_idx, last_idx)] * (1 - lev)
+                    + BC[1][min(first_idx + 1, last_idx)] * lev
                 )
                 # if less than or equal to one cell in the timestep index was
                 # done in the last timestep:
-- 
2.43.0


From df8bac907f20f7d7c33b44ed4ea173082b5d4dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 10/54] fix: R^2 of multiple observed columns is divided by the
 total over all columns

---
 multisim/_utility/stat_error_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 19d4a3e..4ab81ac 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -40,7 +40,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From ada603e803e3234b08446b5c4b5260bd09fa4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:52 +0000
Subject: [PATCH 11/54] fix: adjusted R^2 from observed and predicted data
 stops in the debugger

---
 multisim/_utility/stat_error_measures.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 4ab81ac..78a06d8 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -87,9 +87,6 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
             'If `r_sqrd` is not given, `y` and `y_hat` must be given and'
             '`n` must not be given.'
         )
-        breakpoint()
-        print('false! n must be of the training data set!!!')
-        print('also avoid printing R for p>n! raise error!')
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-- 
2.43.0


From b496692e528965ba077fa2d711777f5ed458f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 12/54] fix: adjusted R^2 of multiple columns raises a
 ValueError

---
 multisim/_utility/stat_error_measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/stat_error_measures.py b/multisim/_utility/stat_error_measures.py
index 78a06d8..cd93e7c 100644
--- a/multisim/_utility/stat_error_measures.py
+++ b/multisim/_utility/stat_error_measures.py
@@ -90,7 +90,7 @@ def r_squared_adj(p, r_sqrd=None, n=None, y=None, y_hat=None):
         r_sqrd = r_squared(y, y_hat)  # get R^2
         n = y_hat.shape[0]  # get number of samples
     # set r2 range correctly (-inf -> 1. or -inf ->100.)
-    max_r2 = 1.0 if r_sqrd <= 1.0 else 100.0
+    max_r2 = 1.0 if np.all(r_sqrd <= 1.0) else 100.0
     # get adjusted r_sqrd
     r_sqrd_adj = max_r2 - (max_r2 - r_sqrd) * (n - 1) / (n - p - 1)
     return r_sqrd_adj
-- 
2.43.0


From 1d6b0dcee099df2f7f9b2a6f0dbab70214ac63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:34 +0000
Subject: [PATCH 13/54] fix: invalid temperatures do not stop the simulation
 and are reported as success

---
 multisim/simenv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 03bbaef..9438738 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5112,7 +5112,7 @@ class SimEnv:
                 for name, prt in self.parts.items():
                     # loop over all parts and assert that none of the arrays
                     # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) and np.any(
+                    isanynan = np.any(np.isnan(prt.T)) or np.any(
                         np.isnan(prt.dm)
                     )
                     if isanynan:
@@ -5121,16 +5121,16 @@ class SimEnv:
                             'WARNING: Invalid value found between step {0} '
                             'at time {1}s and step {2} at time {3}s!\n'
                             'Stopping simulation.\n\n'.format(
-                                self._total_stepnum - 5000,
-                                self.time_vec[self._total_stepnum - 5000],
-                                self._total_stepnum,
+                                max(0, self._total_stepnum - 5000),
+                                self.time_vec[0],
+                                self._total_stepnum + self.stepnum[0] - 1,
                                 self.time_sim,
                             )
                         )
                         # stop simulation by setting timeframe to almost zero
                         self.timeframe = 1e-9
                         # set solver state to failed:
-                        self._solver_state[self._total_stepnum] = 98
+                        self._solver_state[self.stepnum[0] - 1] = 98
                         break  # break loop for nan checking
 
         # measure time taken purely for simulation
@@ -5582,7 +5582,7 @@ class SimEnv:
 
         info = {
             'MultiSim version': __version__,
-            'Simulation success': True if states[99] == 0 else False,
+            'Simulation success': not failure,
         }
         info.update(fail_info)
         info.update(
-- 
2.43.0


From 6c6cc7a82f4692c049a448b824d7454cec009054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:34 +0000
Subject: [PATCH 14/54] fix: controllers with a reference part always raise a
 KeyError

---
 multisim/controls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 3aeb346..37a0e31 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -295,7 +295,7 @@ class Controls:
             assert 'ref_SP_diff' in kwargs and isinstance(
                 kwargs['ref_SP_diff'], (int, float)
             ), err_str
-            self._ref_diff = float(kwargs['difference_to_ref'])
+            self._ref_diff = float(kwargs['ref_SP_diff'])
 
         # ---> CHECK CTRL ALGORITHMS
         # check if actuator definetely needs a special control (all actuators
-- 
2.43.0


From 63d5b6036d38d77b906533e582391cf7fe1aab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:34 +0000
Subject: [PATCH 15/54] fix: inverted two-point controllers change their sign
 in every step without switching

---
 multisim/parts/controllers.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 691996b..9190ab4 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -539,14 +539,13 @@ class BangBang(Controls):
                 self.cv = self._off_state  # switch off (to off state)
             else:
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
+            self._cv_invert()  # allow direction inversion
         elif self.pv > (self.sp + self._hysteresis / 2):
             if self._reversed:  # reversed action
                 self.cv = self._cv_sat_max  # switch on (to upper sat lim.)
             else:
                 self.cv = self._off_state  # switch off (to off state)
-
-        # allow direction inversion:
-        self._cv_invert()
+            self._cv_invert()  # allow direction inversion
 
         # check if controller is depending on another controller:
         self._subcontroller_check()
@@ -636,23 +635,20 @@ class TwoSensors(Controls):
         self.prev_i_term = 0.0
 
     def run_controller(self, timestep):
-        # controller activation
+        # controller activation (switching allows direction inversion)
         if self._act_sgn == 'le':
             if self.on_sensor_val[0] < self._act_val:
-                self.cv = self._cv_sat_max
+                self.cv = self._cv_sat_max * self._invert
         else:  # if greater
             if self.on_sensor_val[0] > self._act_val:
-                self.cv = self._cv_sat_max
+                self.cv = self._cv_sat_max * self._invert
         # controller deactivation
         if self._deact_sgn == 'ge':
             if self.pv[0] > self.sp[0]:
-                self.cv = self._off_state
+                self.cv = self._off_state * self._invert
         else:  # if lesser
             if self.pv[0] < self.sp[0]:
-                self.cv = self._off_state
-
-        # allow direction inversion:
-        self._cv_invert()
+                self.cv = self._off_state * self._invert
 
         # check if controller is depending on another controller:
         self._subcontroller_check()
-- 
2.43.0


From 05434ceaeeeb05be6a732f6cca0b54121da545d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:34 +0000
Subject: [PATCH 16/54] fix: discrete PID controllers ignore the inversion of
 their action

---
 multisim/parts/controllers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 9190ab4..1993e67 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -422,9 +422,12 @@ class PID(Controls):
                 # calculate new control variable with velocity algorithm:
                 self.cv = (
                     self._prev_cv_lim
-                    + self.kp * (self.error - self.prev_error)
-                    + self.ki * timestep * self.error
-                    + self.kd / timestep * self._deriv
+                    + (
+                        self.kp * (self.error - self.prev_error)
+                        + self.ki * timestep * self.error
+                        + self.kd / timestep * self._deriv
+                    )
+                    * self._invert  # allow direction inversion
                 )
             else:
                 # else if no integral term, use standard P/PD algorithm
@@ -448,7 +451,7 @@ class PID(Controls):
                 # with euler backwards differentiation for derivate term:
                 self.cv = (
                     self.kp * self.error + self.kd / timestep * self._deriv
-                )
+                ) * self._invert  # allow direction inversion
             # clip cv value to saturation:
             self._clip_cv_to_saturation()
         else:  # calculate controller output for a continuous time system
-- 
2.43.0


From 7360a9284afba2c297fcf6d568fdc62dfa1b0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:34 +0000
Subject: [PATCH 17/54] fix: dead time shorter than the time step extrapolates
 the process value

---
 multisim/precomp_funs.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 84c2197..2342ce6 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3687,10 +3687,8 @@ def ctrl_deadtime(
     # if a new value has reached deadtime delay in only one step:
     if dt_idx == 0:
         # interpolate delayed pv from previous pv, new pv and
-        # expired time and time between prev. and new pv:
-        delayed_pv = delayed_pv + (pv_arr[0] - delayed_pv) / (deadtime) * (
-            dt_arr[0]
-        )
+        # expired time between prev. and new pv:
+        delayed_pv = pv[0] + (pv_arr[0] - pv[0]) / dt_arr[0] * deadtime
     # if a new value has reached deadtime delay after more than
     # one step:
     elif dt_idx > 0:
-- 
2.43.0


From 2ea1aa9cc52f434d7e56802be7a24cf9bfa3f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 18/54] fix: dead time history is read outside its array if
 there are many small steps

---
 multisim/controls.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 37a0e31..9382a1c 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -705,7 +705,7 @@ class Controls:
         self.deadtime = kwargs['deadtime']
         # construct deadtime array with 100 times the length of
         # deadtime (divided by a 1s timestep):
-        self.dt_arr = np.zeros(np.ceil(self.deadtime * 100).astype(int))
+        self.dt_arr = np.zeros(np.ceil(self.deadtime * 100).astype(int) + 2)
         # PV array same shape as dt_arr and with starting value 25:
         self.pv_arr = np.ones_like(self.dt_arr) * 25
         # save length of arrays:
@@ -865,6 +865,18 @@ class Controls:
                 self.sp = self._ref + self._ref_diff
             # check if deadtime != 0 (also works for np.timedelta64 values)
             if self.deadtime:
+                # enlarge deadtime arrays, if they can't hold all values which
+                # have not yet reached the deadtime:
+                if self.last_dt_idx + 2 >= self.len_dt_arr:
+                    self.dt_arr = np.append(
+                        self.dt_arr,
+                        np.full_like(self.dt_arr, self.dt_arr[-1]),
+                    )
+                    self.pv_arr = np.append(
+                        self.pv_arr,
+                        np.full_like(self.pv_arr, self.pv_arr[-1]),
+                    )
+                    self.len_dt_arr = self.dt_arr.shape[0]
                 # before extraction of pv add up timestep (time expired since
                 # last call of controller) to deadtime array:
                 (
-- 
2.43.0


From dd2424bcd1a30f6e841a67bc6f4d305c5beff538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 19/54] fix: parallel_circuit_UA overwrites its first array
 argument

---
 multisim/precomp_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 2342ce6..1951775 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -5342,7 +5342,7 @@ def parallel_circuit_UA(*args):
     arg_iter = iter(args)  # make iterator out of args
     next(arg_iter)  # skip first entry since it is already taken
     for arg in arg_iter:  # iterate over the rest of args
-        UA_parallel += arg  # sum up values
+        UA_parallel = UA_parallel + arg  # sum up values
     return UA_parallel  # return sum
 
 
-- 
2.43.0


From fedf09f72a6d2d7f6c330b880ba8c220609016d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 20/54] fix: HexNum reads the port cell conductivity outside
 its array

---
 multisim/precomp_funs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 1951775..3048c2d 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2725,6 +2725,11 @@ def hexnum_diff(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # port indices are flat indices to the full T-array incl. the wall column,
+    # thus the fluid conductivities need the same shape:
+    lam_T = np.zeros_like(mcp)
+    lam_T[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -2736,7 +2741,7 @@ def hexnum_diff(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
@@ -3120,6 +3125,11 @@ def hexnum_diff_impl(
 
     specific_inner_energy_wll(T_wll=T_ext[1:-1, 2], cp_wll=cp_wll, ui=ui[:, 1])
 
+    # port indices are flat indices to the full T-array incl. the wall column,
+    # thus the fluid conductivities need the same shape:
+    lam_T = np.zeros_like(mcp)
+    lam_T[:, ::2] = lam_fld
+
     dT_cond_port = _process_ports_collapsed(
         ports_all=ports_all,
         port_link_idx=port_link_idx,
@@ -3131,7 +3141,7 @@ def hexnum_diff_impl(
         A_p_fld_mean=A_p_fld_mean,
         port_gsp=port_gsp,
         grid_spacing=grid_spacing,
-        lam_T=lam_fld,
+        lam_T=lam_T,
         cp_port=cp_port,
         lam_port_fld=lam_port_fld,
         T_port=T_port,
-- 
2.43.0


From 1da2e650f3329fb4ad2f1521f8f02273d384d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 21/54] fix: mixing unequal streams in a 3-way connector does
 not conserve heat

---
 multisim/precomp_funs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 3048c2d..9329d6b 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -3303,9 +3303,10 @@ def solve_connector_3w(T, ports_all, cp_T, dm, port_link_idx, res, stepnum):
 
     # if 2 ports > 0 are True, 3w connector is mixer:
     if np.sum(dm_in) == 2:
-        # get cp of outflowing massflow (error of mean temp is <<0.5% compared
-        # to a heat cap. ratio calculation, thus negligible and ok):
-        cp_out = cp_water(np.sum(T[dm_in]) / 2)
+        # get cp of outflowing massflow at the massflow weighted mean temp.
+        # (error compared to a heat cap. ratio calculation is negligible, also
+        # for very different massflows):
+        cp_out = cp_water(np.sum(dm[dm_in] * T[dm_in]) / np.sum(dm[dm_in]))
         # calc T_out by mixing the inflowing massflows (*-1 since outgoing
         # massflows have a negative sign):
         T_out = np.sum(dm[dm_in] * cp_T[dm_in] * T[dm_in]) / (
-- 
2.43.0


From 135f902568e7e284ea6199df1c1e133353c72b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 22/54] fix: volume flow meters check the names of mass flow
 meters

---
 multisim/_utility/meters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 8f1e691..3fddaf3 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -305,9 +305,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From afd1fc0053dc7956f8ac43aafeff066650445b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 23/54] fix: meters can not be used without saving to disk

---
 multisim/_utility/meters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 3fddaf3..7ba6782 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -20,7 +20,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample', False):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
-- 
2.43.0


From bc92c140ea1ad292bd7dceccc9a6863d35359b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:49 +0000
Subject: [PATCH 24/54] fix: resetting controllers keeps their integral, filter
 and dead time states

---
 multisim/controls.py          |  7 +++++++
 multisim/parts/controllers.py | 32 ++++----------------------------
 2 files changed, 11 insertions(+), 28 deletions(-)

diff --git a/multisim/controls.py b/multisim/controls.py
index 9382a1c..d5e4937 100644
--- a/multisim/controls.py
+++ b/multisim/controls.py
@@ -821,12 +821,19 @@ class Controls:
         # general values:
         self.cv = 0.0
         self.prev_cv = 0.0
+        self._prev_cv = 0.0
         self.error = 0.0
         self.prev_error = 0.0
         # defaults for low pass filtering derivate error
         self._prev_deriv = 0.0
         self._deriv_err = 0.0
         self._deriv = 0.0
+        # values for deadtime calculation:
+        self.dt_arr[:] = 0.0
+        self.pv_arr[:] = 25.0
+        self.dt_idx = 0
+        self.last_dt_idx = 0
+        self.delayed_pv = 25
 
         # values for discrete controllers:
         if self.discrete_time:
diff --git a/multisim/parts/controllers.py b/multisim/parts/controllers.py
index 1993e67..aecf87d 100644
--- a/multisim/parts/controllers.py
+++ b/multisim/parts/controllers.py
@@ -364,13 +364,7 @@ class PID(Controls):
             self._anti_windup = np.inf
 
     def _reset_to_init_cond(self):
-        self.cv = 0.0
-        self._prev_cv = 0.0
-        self._deriv = 0.0
-        self.error = 0.0
-        self.prev_error = 0.0
-        self.prev2_error = 0.0
-        self.prev_i_term = 0.0
+        self.clear()
 
     def run_controller(self, timestep):
         """
@@ -528,13 +522,7 @@ class BangBang(Controls):
         self._hysteresis = float(abs(kwargs['hysteresis']))  # save pos. hyst.
 
     def _reset_to_init_cond(self):
-        self.cv = 0.0
-        self._prev_cv = 0.0
-        self._deriv = 0.0
-        self.error = 0.0
-        self.prev_error = 0.0
-        self.prev2_error = 0.0
-        self.prev_i_term = 0.0
+        self.clear()
 
     def run_controller(self, timestep):
         if self.pv < (self.sp - self._hysteresis / 2):
@@ -629,13 +617,7 @@ class TwoSensors(Controls):
         )
 
     def _reset_to_init_cond(self):
-        self.cv = 0.0
-        self._prev_cv = 0.0
-        self._deriv = 0.0
-        self.error = 0.0
-        self.prev_error = 0.0
-        self.prev2_error = 0.0
-        self.prev_i_term = 0.0
+        self.clear()
 
     def run_controller(self, timestep):
         # controller activation (switching allows direction inversion)
@@ -1579,13 +1561,7 @@ class ModelPredCHP(Controls):
             )
 
     def _reset_to_init_cond(self):
-        self.cv = 0.0
-        self._prev_cv = 0.0
-        self._deriv = 0.0
-        self.error = 0.0
-        self.prev_error = 0.0
-        self.prev2_error = 0.0
-        self.prev_i_term = 0.0
+        self.clear()
 
     def tes_cap_before_empty(self, x):
         """
-- 
2.43.0


From 4b2e84ad6c34d61803f28fdda9dd8bc5e9fdc572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:23 +0000
Subject: [PATCH 25/54] fix: selections of results to store are ignored without
 compression

---
 multisim/simenv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 9438738..3c04493 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5454,8 +5454,10 @@ class SimEnv:
         self._disk_store_timevec = self._disk_store['store_tmp'][
             list(self.parts.keys())[0] + '/res'
         ].index.copy()
-        # compress store if set
-        if self._disk_store['compress']:
+        # compress store if set or if only selected results are to be stored
+        if self._disk_store['compress'] or any(
+            dsp is not True for dsp in self._disk_store_parts.values()
+        ):
             # create new store with compression set
             self._disk_store['store'] = pd.HDFStore(
                 self._disk_store['path'],
@@ -5528,7 +5530,6 @@ class SimEnv:
                 )
                 # copy reference:
                 self._disk_store['store'] = self._disk_store['store_tmp']
-                print('fehler hier?')
             else:
                 self._disk_store['store'] = pd.HDFStore(
                     self._disk_store['path'],
-- 
2.43.0


From 870b2ca15b01cefac15bbfcaf2ead5824baa1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:17 +0000
Subject: [PATCH 26/54] fix: time series of a 3-way valve opening is written to
 its mass flow

---
 multisim/parts/pipe_with_valve.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index 57a12d2..d62052e 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -183,7 +183,14 @@ class PipeWith3wValve(Pipe):
         self._pf_arr_init = self.pf_arr.copy()  # bkp for re-initializing
 
         # initialize the actuator
-        self._initialize_actuator(**kwargs)
+        self._initialize_actuator(variable_name='pf_arr', **kwargs)
+        if 'time_series' in kwargs:  # port B gets the rest of the flow
+            self._models.assign_boundary_cond(
+                time_series=1 - kwargs['time_series'],
+                part=self.name,
+                variable_name='pf_arr',
+                array_index=1,
+            )
 
         # expand const var to other ports:
         self._actuator_CV[1] = 1 - self._actuator_CV[0]
-- 
2.43.0


From 6612b8d63b85dd4561172e78186a8c4b1978cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:06 +0000
Subject: [PATCH 27/54] fix: 3-way connectors connected to each other start
 with 0 degrees

---
 multisim/simenv.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 3c04493..b896747 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4707,6 +4707,22 @@ class SimEnv:
                 if hasattr(self.parts[part], '_special_array_init'):
                     self.parts[part]._special_array_init(self.num_steps)
 
+        # parts without an initial temperature (3w connectors etc.) start with
+        # the mean of the numeric parts' initial temperatures, so that parts
+        # connected to them do not see 0°C (or old values after a reset):
+        T_mean = np.mean(
+            [
+                np.mean(part._T_init)
+                for part in self.parts.values()
+                if part.solve_numeric
+            ]
+        )
+        for part in self.solve_nonnum:
+            if np.any(self.parts[part]._T_init):
+                self.parts[part].T[:] = self.parts[part]._T_init
+            else:
+                self.parts[part].T[:] = T_mean
+            self.parts[part]._update_ports(source='intermediate', nnum=True)
         # if part is a part which has NOT to be calculated numerically:
         for part in self.solve_nonnum:
             # preallocate all arrays and call one init. solver step
-- 
2.43.0


From 42245b4965d2e318f86d09b5f0a2f9ea6792453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:47 +0000
Subject: [PATCH 28/54] fix: identical sub-second indices of two boundary
 condition series are rejected as different

---
 multisim/simenv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index b896747..bbe19b7 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1466,10 +1466,8 @@ class SimEnv:
                 self._SimEnv__BC_timedelta * time_series.index.size
                 > self.timeframe
             ), err_str
-            # add new timeseries in seconds frequency:
-            self._dyn_BC_timevec = time_series.index.values.astype(
-                'datetime64[s]'
-            )
+            # add new timeseries:
+            self._dyn_BC_timevec = time_series.index.values
             # preallocate last step index counter for interpolation:
             self._SimEnv__last_step_t_idx = 0
 
-- 
2.43.0


From e20471c6a8b1de4e1557b1980554cde8d3f795fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:12 +0000
Subject: [PATCH 29/54] fix: each cell of a numeric heat exchanger transfers
 heat over the whole plate area

The heat transfer capability grew with the number of grid points. Use the
plate area per cell, just as for volume and mass of the cells.
---
 multisim/parts/hex_num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/hex_num.py b/multisim/parts/hex_num.py
index 30cef0c..9d782cd 100644
--- a/multisim/parts/hex_num.py
+++ b/multisim/parts/hex_num.py
@@ -855,7 +855,8 @@ class HexNum(SimEnv):
         else:  # if given
             self.A_plate = float(kwargs['A_plate'])
         # get heat exchanger effective area per plate, including passes:
-        self.A_plate_eff = self.A_plate * self.passes
+        # (effective plate area PER CELL)
+        self.A_plate_eff = self.A_plate * self.passes / self.num_gp
 
         # get depth of hex either directly or by number of plates and plate
         # specific depth:
-- 
2.43.0


From 46b594fdeacce8ac85e0edca3e25c8bfe435c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:12 +0000
Subject: [PATCH 30/54] fix: numeric heat exchangers with unequal channel
 numbers do not conserve heat

The wall exchanged the heat of one plate with one channel of each side, so that
the heat given off and taken up differed by the ratio of the channel numbers.
---
 multisim/precomp_funs.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 9329d6b..325b3b2 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2775,6 +2775,10 @@ def hexnum_diff(
 
     UA_amb_shell = 0.0
 
+    # number of heat transferring plates per wall and per fluid channel:
+    plates_per_cell = np.ones(3)
+    plates_per_cell[::2] = (channel_divisor.sum() - 1) / channel_divisor
+
     dT_cond[:] = (
         # heat conduction in first dimension (axis 0), top -> bottom:
         (
@@ -2782,9 +2786,13 @@ def hexnum_diff(
             # heat conduction in first dimension (axis 0), bottom -> top:
             + UA_dim1[1:] * (T_ext[2:, 1:-1] - T_ext[1:-1, 1:-1])
             # heat conduction in second dimension (axis 1), left -> right:
-            + UA_dim2[:, :-1] * (T_ext[1:-1, :-2] - T_ext[1:-1, 1:-1])
+            + UA_dim2[:, :-1]
+            * plates_per_cell
+            * (T_ext[1:-1, :-2] - T_ext[1:-1, 1:-1])
             # heat conduction in second dimension (axis 1), right -> left:
-            + UA_dim2[:, 1:] * (T_ext[1:-1, 2:] - T_ext[1:-1, 1:-1])
+            + UA_dim2[:, 1:]
+            * plates_per_cell
+            * (T_ext[1:-1, 2:] - T_ext[1:-1, 1:-1])
             # heat conduction to ambient (currently set to 0):
             + UA_amb_shell * (T_amb - T_ext[1:-1, 1:-1])
         )
@@ -3149,6 +3157,10 @@ def hexnum_diff_impl(
 
     UA_amb_shell = 0.0
 
+    # number of heat transferring plates per wall and per fluid channel:
+    plates_per_cell = np.ones(3)
+    plates_per_cell[::2] = (channel_divisor.sum() - 1) / channel_divisor
+
     dT_cond[:] = (
         # heat conduction in first dimension (axis 0), top -> bottom:
         (
@@ -3156,9 +3168,13 @@ def hexnum_diff_impl(
             # heat conduction in first dimension (axis 0), bottom -> top:
             + UA_dim1[1:] * (T_ext[2:, 1:-1] - T_ext[1:-1, 1:-1])
             # heat conduction in second dimension (axis 1), left -> right:
-            + UA_dim2[:, :-1] * (T_ext[1:-1, :-2] - T_ext[1:-1, 1:-1])
+            + UA_dim2[:, :-1]
+            * plates_per_cell
+            * (T_ext[1:-1, :-2] - T_ext[1:-1, 1:-1])
             # heat conduction in second dimension (axis 1), right -> left:
-            + UA_dim2[:, 1:] * (T_ext[1:-1, 2:] - T_ext[1:-1, 1:-1])
+            + UA_dim2[:, 1:]
+            * plates_per_cell
+            * (T_ext[1:-1, 2:] - T_ext[1:-1, 1:-1])
             # heat conduction to ambient (currently set to 0):
             + UA_amb_shell * (T_amb - T_ext[1:-1, 1:-1])
         )
-- 
2.43.0


From 92499f531bb6aecdc983948075512cbaf59a989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:35 +0000
Subject: [PATCH 31/54] fix: conduction through a port heats each channel of a
 numeric heat exchanger in full

The conductive heat flow of a port is shared by all channels connected to it.
---
 multisim/precomp_funs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 325b3b2..189a7de 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -2812,8 +2812,8 @@ def hexnum_diff(
     # sum up heat conduction and advection for port values:
     for i in range(port_own_idx.size):
         idx = port_own_idx[i]  # idx of port values at temperature/diff array
-        # conduction
-        dT_cond.flat[idx] += dT_cond_port[i]
+        # conduction (the port is connected to all channels)
+        dT_cond.flat[idx] += dT_cond_port[i] / channel_divisor[i // 2]
         # advection
         dT_adv.flat[idx] += (
             dm_port[i]
@@ -3194,8 +3194,8 @@ def hexnum_diff_impl(
     # sum up heat conduction and advection for port values:
     for i in range(port_own_idx.size):
         idx = port_own_idx[i]  # idx of port values at temperature/diff array
-        # conduction
-        dT_cond.flat[idx] += dT_cond_port[i]
+        # conduction (the port is connected to all channels)
+        dT_cond.flat[idx] += dT_cond_port[i] / channel_divisor[i // 2]
         # advection
         dT_adv.flat[idx] += (
             dm_port[i]
-- 
2.43.0


From 60f2e5a077442e525a1f154e2057d80bfffec628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 32/54] fix: heat of a heated pipe is recorded although the
 emergency shutdown cut it within the step

---
 multisim/precomp_funs.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 189a7de..a9caf28 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -1937,12 +1937,16 @@ def heatedpipe1D_diff(
     emergency_shutdown=110.0,
 ):
     # shutdown gasboiler immediately if any temperatures are exceeding
-    # emergency_shutdown-value
-    if np.any(T_ext >= emergency_shutdown):
+    # emergency_shutdown-value and save rate of heat flow to result array
+    shutdown = np.any(T_ext >= emergency_shutdown)
+    if shutdown and not process_flows[0]:
+        # shutdown in the corrector step: mean of predictor and corrector
+        res_dQ[stepnum] = dQ_heating / 2
         dQ_heating[:] = 0.0
-
-    # save rate of heat flow to result array
-    if process_flows[0]:  # only if flows not already processed
+    else:
+        if shutdown:
+            dQ_heating[:] = 0.0
+        # saved in each call, since a shutdown in a rejected step persists
         res_dQ[stepnum] = dQ_heating
 
     process_flows[0] = _process_flow_invar(
-- 
2.43.0


From 5f2276c5a80381fe2113b26dc400895c955c37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 33/54] fix: CHP plant modulates above the upper bound of its
 modulation range

---
 multisim/parts/chp_plant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 6327128..b02c0d0 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -683,6 +683,8 @@ class CHPPlant(Pipe):
             state_last_step = self._chp_state[self.stepnum[0] - 1]
 
             # check for modulation range and set on-off-integer:
+            if self._power_modulation[0] > self._mod_upper:
+                self._power_modulation[0] = self._mod_upper
             if self._power_modulation[0] < self._mod_lower:
                 # binary power multiplication factor to enable off-state
                 # for modulations < mod_lower, f.i. to avoid modulations below
-- 
2.43.0


From 6ff37204997374c168a865cf273c2ab2255333e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 34/54] fix: cold start of a CHP plant is shortened by the
 remaining heat of an earlier start

---
 multisim/parts/chp_plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index b02c0d0..ff78fac 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -855,6 +855,7 @@ class CHPPlant(Pipe):
                         # shutdown finished. reset values
                         self._shutdown_in_progress = False
                         self._shutdown_factor_th = 0.0
+                        self._remaining_heat = 0.0
 
         if not self._shutdown_in_progress:
             self._dQ_heating[:] = (
-- 
2.43.0


From 85a3aacb2bea3e5b3d618d9ff0a44c66f20c5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:26 +0000
Subject: [PATCH 35/54] fix: CHP plant which is on at the start begins with a
 cold start

---
 multisim/parts/chp_plant.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index ff78fac..43fc406 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -562,7 +562,10 @@ class CHPPlant(Pipe):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
         self.res_Pgas = np.zeros((num_steps + 1,) + self._Pgas.shape)
-        self._chp_state = np.zeros((num_steps + 1,) + self._chp_state.shape)
+        self._chp_state = np.zeros((num_steps + 1, 1))
+        # if already running at the start
+        if self._chp_on:
+            self._chp_state[0] = self._power_modulation
 
     def __deprecated_special_free_memory(
         self, disk_store, part, array_length, hdf_idx, stepnum
-- 
2.43.0


From 193224c6f45034e726265a46ca50f61bd2280d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:49 +0000
Subject: [PATCH 36/54] fix: resetting the simulation does not reset the state
 of a CHP plant

---
 multisim/parts/chp_plant.py | 105 ++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 46 deletions(-)

diff --git a/multisim/parts/chp_plant.py b/multisim/parts/chp_plant.py
index 43fc406..e1cef52 100644
--- a/multisim/parts/chp_plant.py
+++ b/multisim/parts/chp_plant.py
@@ -263,53 +263,12 @@ class CHPPlant(Pipe):
         self._Pgas = np.zeros(1, dtype=np.float64)
         self.res_Pgas = np.zeros(1, dtype=np.float64)
 
-        # checker if chp plant is on, in startup, value for time passed since
-        # startup, value for time passed since shutoff,
-        # time in [s] to account for remaining heat after a recent shutdown,
-        # array for current modulation of CHP plant
-        self._chp_on = False
-        self._chp_state = np.zeros(1, dtype=np.bool)  # vector to save states
-        self._shutdown_in_progress = False
-        self._startup_duration = 0.0
-        self._off_duration = 0.0
-        self._startup_at_time = 0
-        # has never been switched on. min off time -1 to enable switching on
-        # at the start of the sim.
-        self._shutdown_at_time = -self._min_off_time - 1.0
-        self._remaining_heat = 0.0
+        # array for current modulation of CHP plant and vector to save states
         self._power_modulation = np.zeros(1, dtype=np.float64)
-        # max. overtemperature time. dt is the consecutive time since first
-        # overtemp., max_temp_exc_time the maximum time allowed before shutdown
-        self._dt_time_temp_exc = 0.0
-        # TODO: print('das noch durch kwds:')
-        self._max_temp_exc_time = 2 * 60
-        # startup and shutdown factors for thermal and el (only startup, since
-        # only heat can remain...) power
-        if not chp_on_at_start:  # if CHP was switched off at the beginning
-            self._startup_factor_el = 0.0
-            self._startup_factor_th = 0.0
-            self._startup_factor_gas = 0.0
-            self._chp_on = False  # chp is NOT on
-            self._startup_in_progress = True  # chp was off, thus startup req.
-            self._shutdown_duration = 99999.0
-            self._bin_pow_fac = 0
-        else:
-            self._startup_factor_el = 1.0
-            self._startup_factor_th = 1.0
-            self._startup_factor_gas = 1.0
-            # has never been switched on. min on time to enable switching off
-            # at the start of the sim.
-            self._startup_at_time = -self._min_on_time  # has been switched on
-            # has never been switched off
-            self._shutdown_at_time = self._startup_at_time - 1
-            self._chp_on = True  # chp IS on
-            # chp was ON, thus NO startup required!
-            self._startup_in_progress = False
-            self._shutdown_duration = 99999.0
-            self._bin_pow_fac = 1
-        self._shutdown_factor_th = 0.0
-        # save last thermal power value before shutdown for shutdown process
-        self._last_dQ = np.zeros_like(self._dQ_heating)
+        self._chp_state = np.zeros(1, dtype=np.bool)  # vector to save states
+        # set starting values for on/off, startup and shutdown states
+        self._chp_on_at_start = chp_on_at_start
+        self._init_chp_state()
         # percentage values, at which the CHP plant is considered as on/off
         self._chp_on_perc = 0.999
         self._chp_off_perc = 0.01
@@ -496,6 +455,7 @@ class CHPPlant(Pipe):
         assert isinstance(start_modulation, (int, float)) and (
             0 <= start_modulation <= 1
         ), 'Start modulation muss zwischen 0 und 1 liegen.'
+        self._start_modulation = start_modulation
         self._actuator_CV[:] = start_modulation
         # initialize the actuator
         self._initialize_actuator(variable_name='_power_modulation', **kwds)
@@ -558,6 +518,59 @@ class CHPPlant(Pipe):
             _pf.chp_gas_power(1.0) * self.chp_power_el * self._eta_el_fac
         )
 
+    def _init_chp_state(self):
+        """Set on/off, startup and shutdown states to their start values."""
+        # checker if chp plant is on, in startup, value for time passed since
+        # startup, value for time passed since shutoff,
+        # time in [s] to account for remaining heat after a recent shutdown
+        self._chp_on = False
+        self._shutdown_in_progress = False
+        self._startup_duration = 0.0
+        self._off_duration = 0.0
+        self._startup_at_time = 0
+        # has never been switched on. min off time -1 to enable switching on
+        # at the start of the sim.
+        self._shutdown_at_time = -self._min_off_time - 1.0
+        self._remaining_heat = 0.0
+        # max. overtemperature time. dt is the consecutive time since first
+        # overtemp., max_temp_exc_time the maximum time allowed before shutdown
+        self._dt_time_temp_exc = 0.0
+        # TODO: print('das noch durch kwds:')
+        self._max_temp_exc_time = 2 * 60
+        # startup and shutdown factors for thermal and el (only startup, since
+        # only heat can remain...) power
+        if not self._chp_on_at_start:  # if CHP was switched off at the beginning
+            self._startup_factor_el = 0.0
+            self._startup_factor_th = 0.0
+            self._startup_factor_gas = 0.0
+            self._chp_on = False  # chp is NOT on
+            self._startup_in_progress = True  # chp was off, thus startup req.
+            self._shutdown_duration = 99999.0
+            self._bin_pow_fac = 0
+        else:
+            self._startup_factor_el = 1.0
+            self._startup_factor_th = 1.0
+            self._startup_factor_gas = 1.0
+            # has never been switched on. min on time to enable switching off
+            # at the start of the sim.
+            self._startup_at_time = -self._min_on_time  # has been switched on
+            # has never been switched off
+            self._shutdown_at_time = self._startup_at_time - 1
+            self._chp_on = True  # chp IS on
+            # chp was ON, thus NO startup required!
+            self._startup_in_progress = False
+            self._shutdown_duration = 99999.0
+            self._bin_pow_fac = 1
+        self._shutdown_factor_th = 0.0
+        # save last thermal power value before shutdown for shutdown process
+        self._last_dQ = np.zeros_like(self._dQ_heating)
+
+    def _reset_to_init_cond(self):
+        super()._reset_to_init_cond()
+        self._init_chp_state()
+        self._power_modulation[:] = self._start_modulation
+        self._dQ_heating[:] = 0.0
+
     def _special_array_init(self, num_steps):
         self.res_dQ = np.zeros((num_steps + 1,) + self._dQ_heating.shape)
         self.res_Pel = np.zeros((num_steps + 1,) + self._Pel.shape)
-- 
2.43.0


From 1cfa2138592a5c3b836a09bf15aad86bed00fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:26 +0000
Subject: [PATCH 37/54] fix: accumulated values of heat meters are shifted by
 one step

The values recorded at a time are those of the step which ends there, but the
accumulated mass, volume and heat multiplied them with the length of the next
step, so that the totals contained one step too much.
---
 multisim/_utility/meters.py   | 17 +++++++++++------
 multisim/utility_functions.py | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/multisim/_utility/meters.py b/multisim/_utility/meters.py
index 7ba6782..567737c 100644
--- a/multisim/_utility/meters.py
+++ b/multisim/_utility/meters.py
@@ -31,6 +31,11 @@ class Meters:
         self._time_index = pd.to_datetime(
             self._simenv.time_vec, origin=self.start_time, unit='s'
         )
+        # get the length of the step which ends at each time. The values stored
+        # at a time are valid for this step (none for the starting values):
+        self._step_lengths = np.diff(
+            self._simenv.time_vec, prepend=self._simenv.time_vec[:1]
+        )
         # get meter timevec, depending on resampling or not
         if not self._resample:
             self._meter_time_index = self._time_index
@@ -139,20 +144,20 @@ class Meters:
         # get massflow backup array for only positive values:
         massflow_bkp = mflow.copy()  # double copy not really required, but...
         df['flown_mass_kg'] = np.cumsum(
-            massflow_bkp * self._simenv.time_step_vec
+            massflow_bkp * self._step_lengths
         )  # cumsum with neg. vals
         df['flown_volume_m3'] = (
-            df['volume_flow_m3ps'] * self._simenv.time_step_vec
+            df['volume_flow_m3ps'] * self._step_lengths
         ).cumsum()
 
         if full_output:  # these are not reqlly _always_ required...
             massflow_bkp[massflow_bkp < 0.0] = 0.0  # set negative to zeros
             df['flown_mass_pos_kg'] = np.cumsum(
-                massflow_bkp * self._simenv.time_step_vec
+                massflow_bkp * self._step_lengths
             )  # only pos. cumsum
             df['flown_volume_pos_m3'] = np.cumsum(  # only pos. cumsum
                 massflow_bkp
-                * self._simenv.time_step_vec
+                * self._step_lengths
                 / mp.rho_water(df['T_rf'].values)
             )
         # get heatflow in [kW]
@@ -165,14 +170,14 @@ class Meters:
         )
         hf_bkp = df['heatflow_kW'].copy()  # bkp heatflow for only-pos.-cumsum
         df['flown_heat_MJ'] = (
-            np.cumsum(hf_bkp * self._simenv.time_step_vec) / 1e3
+            np.cumsum(hf_bkp * self._step_lengths) / 1e3
         )
         df['flown_heat_kWh'] = df['flown_heat_MJ'] / 3.6
 
         if full_output:  # these are not reqlly  _always_ required...
             hf_bkp[hf_bkp < 0.0] = 0.0  # set negative to zeros
             df['flown_heat_pos_MJ'] = (
-                np.cumsum(hf_bkp * self._simenv.time_step_vec) / 1e3
+                np.cumsum(hf_bkp * self._step_lengths) / 1e3
             )
             df['flown_heat_pos_kWh'] = df['flown_heat_pos_MJ'] / 3.6
 
diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 047ab30..fec7f7c 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2466,6 +2466,11 @@ class Meters:
         self._time_index = pd.to_datetime(
             self._simenv.time_vec, origin=self.start_time, unit='s'
         )
+        # get the length of the step which ends at each time. The values stored
+        # at a time are valid for this step (none for the starting values):
+        self._step_lengths = np.diff(
+            self._simenv.time_vec, prepend=self._simenv.time_vec[:1]
+        )
         # get meter timevec, depending on resampling or not
         if not self._resample:
             self._meter_time_index = self._time_index
@@ -2574,20 +2579,20 @@ class Meters:
         # get massflow backup array for only positive values:
         massflow_bkp = mflow.copy()  # double copy not really required, but...
         df['flown_mass_kg'] = np.cumsum(
-            massflow_bkp * self._simenv.time_step_vec
+            massflow_bkp * self._step_lengths
         )  # cumsum with neg. vals
         df['flown_volume_m3'] = (
-            df['volume_flow_m3ps'] * self._simenv.time_step_vec
+            df['volume_flow_m3ps'] * self._step_lengths
         ).cumsum()
 
         if full_output:  # these are not reqlly _always_ required...
             massflow_bkp[massflow_bkp < 0.0] = 0.0  # set negative to zeros
             df['flown_mass_pos_kg'] = np.cumsum(
-                massflow_bkp * self._simenv.time_step_vec
+                massflow_bkp * self._step_lengths
             )  # only pos. cumsum
             df['flown_volume_pos_m3'] = np.cumsum(  # only pos. cumsum
                 massflow_bkp
-                * self._simenv.time_step_vec
+                * self._step_lengths
                 / _rho_water(df['T_rf'].values)
             )
         # get heatflow in [kW]
@@ -2600,14 +2605,14 @@ class Meters:
         )
         hf_bkp = df['heatflow_kW'].copy()  # bkp heatflow for only-pos.-cumsum
         df['flown_heat_MJ'] = (
-            np.cumsum(hf_bkp * self._simenv.time_step_vec) / 1e3
+            np.cumsum(hf_bkp * self._step_lengths) / 1e3
         )
         df['flown_heat_kWh'] = df['flown_heat_MJ'] / 3.6
 
         if full_output:  # these are not reqlly  _always_ required...
             hf_bkp[hf_bkp < 0.0] = 0.0  # set negative to zeros
             df['flown_heat_pos_MJ'] = (
-                np.cumsum(hf_bkp * self._simenv.time_step_vec) / 1e3
+                np.cumsum(hf_bkp * self._step_lengths) / 1e3
             )
             df['flown_heat_pos_kWh'] = df['flown_heat_pos_MJ'] / 3.6
 
-- 
2.43.0


From f254b90ee5a39f8854d6016d0e00bdacf9bd74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:05 +0000
Subject: [PATCH 38/54] fix: loading stored results from a directory fails on
 systems without backslash separators

---
 multisim/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index fec7f7c..2495984 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -47,8 +47,8 @@ def load_sim_results(
     filename, path=r'.\results\\', keys='all', multiindex=True
 ):
     # check for correct path layout:
-    if (path is not None) and (len(path) > 0) and (path[-1] != '\\'):
-        path = path + '\\'
+    if (path is not None) and (len(path) > 0):
+        path = os.path.join(path, '')  # add trailing separator if missing
     # check for correct key structuring:
     if keys != 'all':
         keys = list(keys) if isinstance(keys, tuple) else keys
-- 
2.43.0


From 38979727ac76e575968e640c95317c76afb7230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:46 +0000
Subject: [PATCH 39/54] fix: storing selected cells of a HexNum fails when its
 massflows are written

The selected cells were also used as columns of tables without one column per
cell, so that the final write raised an IndexError or dropped a massflow.
---
 multisim/simenv.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index bbe19b7..14204ac 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5493,9 +5493,12 @@ class SimEnv:
                     continue  # skip part, no saving
                 elif isinstance(dsp, bool) and dsp:
                     dsp = np.s_[:, :]  # index all cells
-                elif dst_tab.shape[1] == 1:
-                    # if the current table has only one col (for example
-                    # massflow cols), save this col
+                elif (
+                    dst_tab.shape[1] == 1
+                    or dst_tab.shape[1] < self.parts[pn].T.shape[0]
+                ):
+                    # if the current table has only one col or less cols than
+                    # cells (for example massflow cols), save all cols
                     dsp = np.s_[:, :]
                 elif isinstance(dsp, (int, list, tuple)):
                     # slice time dimension and select cols
-- 
2.43.0


From c83aa3a4387e3a422e3cf14b154fc14c3028b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:34 +0000
Subject: [PATCH 40/54] fix: resetting the simulation does not restore the
 initial state of the parts

Resetting set all massflows to zero and kept surface temperatures, heat
transfer coefficients, port values, counters and the number of steps already
stored, so that a rerun differed from the first run. The arrays of all parts
are backed up when the environment is built and restored when it is reset.
---
 multisim/parts/pipe.py |  1 -
 multisim/parts/tes.py  |  1 -
 multisim/simenv.py     | 18 +++++++++++++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/multisim/parts/pipe.py b/multisim/parts/pipe.py
index 525a648..70c79d3 100644
--- a/multisim/parts/pipe.py
+++ b/multisim/parts/pipe.py
@@ -497,7 +497,6 @@ class Pipe(SimEnv):
         self.initialized = True
 
     def _reset_to_init_cond(self):
-        self._dm_io[:] = 0
         self.T[:] = self._T_init
 
     def _get_flow_routine(
diff --git a/multisim/parts/tes.py b/multisim/parts/tes.py
index f1709c4..124184b 100644
--- a/multisim/parts/tes.py
+++ b/multisim/parts/tes.py
@@ -623,7 +623,6 @@ class Tes(SimEnv):
         self.initialized = True
 
     def _reset_to_init_cond(self):
-        self._dm_io[:] = 0
         self.T[:] = self._T_init
 
     def __add_ports(self, **kwargs):
diff --git a/multisim/simenv.py b/multisim/simenv.py
index 14204ac..115a698 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -4745,6 +4745,8 @@ class SimEnv:
         self._solver_state = np.zeros_like(self.time_vec)
         # and their total representatives to enable saving to disk (empty since
         # these are filled while saving to disk):
+        self._total_stepnum = 0
+        self._total_time_vec = np.array([])
         self._total_sys_trnc_err = np.zeros((0,))
         self._total_failed_steps = np.zeros((0,))
         self._total_solver_state = np.zeros((0,))
@@ -4808,8 +4810,15 @@ class SimEnv:
             **self.__bkp_kwargs_timeframe
         )
 
-        # reset all temperature and massflow arrays inside the parts:
+        # reset all arrays inside the parts, then all temperatures and part
+        # specific states:
         for part in self.parts.values():
+            for name, init_value in part._init_state.items():
+                value = getattr(part, name)
+                # skip result arrays, these are newly created for each run
+                if value.shape == init_value.shape:
+                    value[...] = init_value
+            part._trnc_err = 0.0
             part._reset_to_init_cond()
 
         # reset all controllers:
@@ -4841,6 +4850,13 @@ class SimEnv:
 
         if build_simenv:
             self._build_simenv()
+            # backup the arrays of all parts to be able to reset them:
+            for part in self.parts.values():
+                part._init_state = {
+                    name: value.copy()
+                    for name, value in vars(part).items()
+                    if isinstance(value, np.ndarray)
+                }
 
         if reset_simenv:
             self._reset_simenv()
-- 
2.43.0


From 02aad5a9e132e30bf60763d86c02da18f1499d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 41/54] fix: R^2 of multiple observed columns in the utility
 functions uses their total variance

---
 multisim/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 2495984..26f3f84 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -705,7 +705,7 @@ def r_squared(y, y_hat):
     elif y_hat.ndim > 2:
         raise ValueError
     ss_res = ((y - y_hat) ** 2).sum(axis=0)  # residuals
-    ss_tot = ((y - y.mean(axis=0)) ** 2).sum()  # total sum of squares
+    ss_tot = ((y - y.mean(axis=0)) ** 2).sum(axis=0)  # total sum of squares
     return 1 - ss_res / ss_tot
 
 
-- 
2.43.0


From d6e1b9a75e0b86191b70c7d1a7d121859a588042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 42/54] fix: storage volumes which are not positive are not
 rejected

---
 multisim/parts/tes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multisim/parts/tes.py b/multisim/parts/tes.py
index 124184b..dee4927 100644
--- a/multisim/parts/tes.py
+++ b/multisim/parts/tes.py
@@ -124,6 +124,9 @@ class Tes(SimEnv):
             'Please check the spelling!'
         )
         # assert that all required arguments have been passed:
+        assert kwargs['volume'] > 0.0, (
+            self._base_err + self._arg_err.format('volume') + self._aae['volume']
+        )
         self.V_tes = float(kwargs['volume'])
         assert isinstance(kwargs['grid_points'], int), (
             self._base_err
-- 
2.43.0


From 32c9b7289c9a6f5a78556f476f7306093dbb9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 43/54] fix: heat exchangers with an invalid number of plates
 are not rejected

---
 multisim/parts/heatexchanger.py | 1 +
 multisim/parts/hex_num.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 90910b4..5b1ba0d 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -109,6 +109,7 @@ class HeatExchanger(SimEnv):
             assert (
                 'plates' in kwargs and type(kwargs['plates']) == int
             ), err_str
+            assert kwargs['plates'] > 4, err_str
             if self.passes == 1:  # if one pass plate hex
                 assert kwargs['plates'] % 2 == 0, err_str  # even num plates
                 self.num_plates = kwargs['plates']  # save value
diff --git a/multisim/parts/hex_num.py b/multisim/parts/hex_num.py
index 9d782cd..7ac1534 100644
--- a/multisim/parts/hex_num.py
+++ b/multisim/parts/hex_num.py
@@ -118,6 +118,7 @@ class HexNum(SimEnv):
             assert 'plates' in kwargs and isinstance(
                 kwargs['plates'], int
             ), err_str
+            assert kwargs['plates'] > 4, err_str
             if self.passes == 1:  # if one pass plate hex
                 assert kwargs['plates'] % 2 == 0, err_str  # even num plates
                 self.num_plates = kwargs['plates']  # save value
-- 
2.43.0


From 36df6ac7fc2f1091de47098166740f54f79f7de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:37 +0000
Subject: [PATCH 44/54] fix: invalid values after the first flush of the result
 arrays neither stop the simulation nor are reported

---
 multisim/simenv.py | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 115a698..a723264 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -5137,31 +5137,28 @@ class SimEnv:
                 )
                 sys.stdout.flush()
 
-            # check for nan values every 5k steps:
-            if self._total_stepnum % 5000 == 0:
-                for name, prt in self.parts.items():
-                    # loop over all parts and assert that none of the arrays
-                    # contains any nan
-                    isanynan = np.any(np.isnan(prt.T)) or np.any(
-                        np.isnan(prt.dm)
-                    )
-                    if isanynan:
-                        print(
-                            '\n\n'
-                            'WARNING: Invalid value found between step {0} '
-                            'at time {1}s and step {2} at time {3}s!\n'
-                            'Stopping simulation.\n\n'.format(
-                                max(0, self._total_stepnum - 5000),
-                                self.time_vec[0],
-                                self._total_stepnum + self.stepnum[0] - 1,
-                                self.time_sim,
-                            )
+            # check for nan values:
+            for name, prt in self.parts.items():
+                # loop over all parts and assert that none of the arrays
+                # contains any nan
+                isanynan = np.any(np.isnan(prt.T)) or np.any(
+                    np.isnan(prt.dm)
+                )
+                if isanynan:
+                    print(
+                        '\n\n'
+                        'WARNING: Invalid value found in step {0} '
+                        'at time {1}s!\n'
+                        'Stopping simulation.\n\n'.format(
+                            self._total_stepnum + self.stepnum[0] - 1,
+                            self.time_sim,
                         )
-                        # stop simulation by setting timeframe to almost zero
-                        self.timeframe = 1e-9
-                        # set solver state to failed:
-                        self._solver_state[self.stepnum[0] - 1] = 98
-                        break  # break loop for nan checking
+                    )
+                    # stop simulation by setting timeframe to almost zero
+                    self.timeframe = 1e-9
+                    # set solver state to failed:
+                    self._solver_state[self.stepnum[0] - 1] = 98
+                    break  # break loop for nan checking
 
         # measure time taken purely for simulation
         self._sim_end_time = _time_.time()
-- 
2.43.0


From 44f2fd0902006fcdf08eeb2075d1232d9112b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:24 +0000
Subject: [PATCH 45/54] fix: heat exchangers with four plates are valid

---
 multisim/parts/heatexchanger.py | 4 ++--
 multisim/parts/hex_num.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/multisim/parts/heatexchanger.py b/multisim/parts/heatexchanger.py
index 5b1ba0d..85a13b3 100644
--- a/multisim/parts/heatexchanger.py
+++ b/multisim/parts/heatexchanger.py
@@ -101,7 +101,7 @@ class HeatExchanger(SimEnv):
                 self._base_err
                 + self._arg_err.format('plates')
                 + 'For a plate heat exchanger the number of plates has to be '
-                'given with `plates=X` as an integer value >4. The number of '
+                'given with `plates=X` as an integer value >=4. The number of '
                 'plates has to be an even number for a plate heat exchanger '
                 'with one pass on each side. For other numbers of passes, '
                 '`(plates - 1)/passes` must be an even number.'
@@ -109,7 +109,7 @@ class HeatExchanger(SimEnv):
             assert (
                 'plates' in kwargs and type(kwargs['plates']) == int
             ), err_str
-            assert kwargs['plates'] > 4, err_str
+            assert kwargs['plates'] >= 4, err_str
             if self.passes == 1:  # if one pass plate hex
                 assert kwargs['plates'] % 2 == 0, err_str  # even num plates
                 self.num_plates = kwargs['plates']  # save value
diff --git a/multisim/parts/hex_num.py b/multisim/parts/hex_num.py
index 7ac1534..c85fc24 100644
--- a/multisim/parts/hex_num.py
+++ b/multisim/parts/hex_num.py
@@ -110,7 +110,7 @@ class HexNum(SimEnv):
                 self._base_err
                 + self._arg_err.format('plates')
                 + 'For a plate heat exchanger the number of plates has to be '
-                'given with `plates=X` as an integer value >4. The number of '
+                'given with `plates=X` as an integer value >=4. The number of '
                 'plates has to be an even number for a plate heat exchanger '
                 'with one pass on each side. For other numbers of passes, '
                 '`(plates - 1)/passes` must be an even number.'
@@ -118,7 +118,7 @@ class HexNum(SimEnv):
             assert 'plates' in kwargs and isinstance(
                 kwargs['plates'], int
             ), err_str
-            assert kwargs['plates'] > 4, err_str
+            assert kwargs['plates'] >= 4, err_str
             if self.passes == 1:  # if one pass plate hex
                 assert kwargs['plates'] % 2 == 0, err_str  # even num plates
                 self.num_plates = kwargs['plates']  # save value
-- 
2.43.0


From 5e65aabd5447d92f81374d538a55e0069b5ac6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:42 +0000
Subject: [PATCH 46/54] fix: meters of the utility module refuse environments
 without disk saving and volume flow meters named like mass flow meters

---
 multisim/utility_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 26f3f84..31e1858 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -2455,7 +2455,7 @@ class Meters:
         self.start_time = pd.to_datetime(start_time)
 
         # get resampling specs:
-        if self._simenv._disk_store['resample']:
+        if self._simenv._disk_store.get('resample', False):
             self._resample = True
             self._resample_freq = self._simenv._disk_store['resample_freq']
         else:
@@ -2745,9 +2745,9 @@ class Meters:
 
         err_str = (
             '`name=' + str(name) + '` has already been assigned to another '
-            'massflow sensor.'
+            'volumeflow sensor.'
         )
-        assert name not in self.meters['massflow'], err_str
+        assert name not in self.meters['volumeflow'], err_str
 
         df = pd.DataFrame(index=self._time_index)  # make dataframe
         # get volumeflow
-- 
2.43.0


From 910102e157baf17170c7499350c9927c65146e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 47/54] fix: pipe specifications given per port with a nominal
 diameter are found in the table

---
 multisim/simenv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index a723264..6c8d4b3 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -3642,12 +3642,12 @@ class SimEnv:
                     if get_from_table:
                         self._A_wll_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN][
+                        ] = self._models._pipe_specs[pipe_type, DN][
                             'A_wall'
                         ]
                         self._A_fld_own_p[
                             trgt_idx
-                        ] = self._models._pipe_specs.loc[pipe_type, DN]['A_i']
+                        ] = self._models._pipe_specs[pipe_type, DN]['A_i']
                     else:
                         self._A_wll_own_p[trgt_idx] = value['A_wall']
                         self._A_fld_own_p[trgt_idx] = value['A_i']
@@ -3660,7 +3660,7 @@ class SimEnv:
                             'pipe_type': pipe_type,
                             'DN': DN,
                             'pipe_specs': (
-                                self._models._pipe_specs.loc[pipe_type, DN]
+                                self._models._pipe_specs[pipe_type, DN]
                             )
                             if get_from_table
                             else value,
-- 
2.43.0


From 2de73947cdb8232b58de11975cfd24c14ab54664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 48/54] fix: the default cold water port of the storage
 charging system is a valid cell

---
 multisim/parts/part_modules/consumers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/parts/part_modules/consumers.py b/multisim/parts/part_modules/consumers.py
index 8075ef2..be18308 100644
--- a/multisim/parts/part_modules/consumers.py
+++ b/multisim/parts/part_modules/consumers.py
@@ -615,7 +615,7 @@ def speicherladesys(
     store_ports={
         'ff_tes': [0.0, 'volume'],
         'rc': [round(0.4 * 40), 'index'],
-        'cw': [-2, 'index'],
+        'cw': [40 - 2, 'index'],
     },
     segment_name='1',
     adjust_pipes=True,
-- 
2.43.0


From 72a477c4b5fce59ac0b8dafdb159bb78e7264626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 49/54] fix: the pipe table and other databases are found on
 every operating system

---
 multisim/utility_functions.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 31e1858..69ab4b8 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -454,7 +454,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     else:
         ps = pd.read_pickle(
             os.path.join(
-                os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl'
+                os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
             )
         )
     ps_tp = ps.loc[:, pipe_type].copy().T
@@ -519,7 +519,9 @@ def adjust_pipes(pspecs, base_path=None):
         assert isinstance(v[1], (float, int)), err_str
     # read pipe specs reference table
     ps_table = pd.read_pickle(
-        os.path.join(os.path.dirname(__file__), 'data_tables\\pipe_specs.pkl')
+        os.path.join(
+            os.path.dirname(__file__), 'data_tables', 'pipe_specs.pkl'
+        )
     )
     # extract A_i from table and multiplicate values by mult factor
     ai_vals = {
@@ -553,18 +555,18 @@ def database_import(*, standard_db=True, path=None, which='all'):
             pth = os.path.dirname(os.path.realpath(__file__))
         except NameError:  # if frozen as executable
             pth = os.path.dirname(os.path.realpath(sys.argv[0]))
-        pth = pth + r'\data_tables'  # append datatables path
+        pth = os.path.join(pth, 'data_tables')  # append datatables path
         # find path to all pickled databases
         files = _glob.glob(os.path.join(pth, '*.pkl'))
         if which == 'all':  # import all databases
             for file in files:
                 #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
+                db_name = os.path.basename(file).split('.')[0]
                 dbs[db_name] = pd.read_pickle(file)
         else:  # else if not all shall be imported:
             for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
+                file = os.path.join(pth, db + '.pkl')
+                db_name = os.path.basename(file).split('.')[0]
                 dbs[db_name] = pd.read_pickle(file)
     else:  # else if not standard databases
         if not path:  # if path not given, get it from dialog
@@ -575,12 +577,12 @@ def database_import(*, standard_db=True, path=None, which='all'):
             files = _glob.glob(os.path.join(pth, '*.pkl'))  # get all pickles
             for file in files:
                 #  get name by splitting strings:
-                db_name = file.split('\\')[-1].split('.')[0]
+                db_name = os.path.basename(file).split('.')[0]
                 dbs[db_name] = pd.read_pickle(file)
         else:  # else if not all shall be imported:
             for db in which:
-                pth = pth + db + '.pkl'
-                db_name = pth.split('\\')[-1].split('.')[0]
+                file = os.path.join(pth, db + '.pkl')
+                db_name = os.path.basename(file).split('.')[0]
                 dbs[db_name] = pd.read_pickle(file)
 
     return dbs  # return database dict
@@ -594,7 +596,7 @@ def update_databases(*, path=None, transpose=True):
             pth = os.path.dirname(os.path.realpath(__file__))
         except NameError:  # if frozen as executable
             pth = os.path.dirname(os.path.realpath(sys.argv[0]))
-        pth = pth + r'\data_tables'  # append datatables path
+        pth = os.path.join(pth, 'data_tables')  # append datatables path
         # find path to all pickled databases
         files = _glob.glob(os.path.join(pth, '*.xlsx'))
         for file in files:
-- 
2.43.0


From f8900f805aa0e46487cb8c2c896b2dcced8cf47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 50/54] fix: scaling by one keeps the dimensions of a tabulated
 pipe

---
 multisim/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisim/utility_functions.py b/multisim/utility_functions.py
index 69ab4b8..8a2c8d6 100644
--- a/multisim/utility_functions.py
+++ b/multisim/utility_functions.py
@@ -478,7 +478,7 @@ def interp_pipe_specs(A_i, pipe_type='EN10255_medium', base_pth=None):
     elif not isinstance(A_i, (list, tuple)):
         raise TypeError
     for ai in A_i:
-        if ai in (new_val_lo, new_val_hi):
+        if ai in ps_tp.index:  # keep known pipes
             continue
         ps_tp.loc[ai] = np.nan
     # cubic interp for cubic relation of diameter to area
-- 
2.43.0


From 4ffb1640d60151a093095841eabba1d1be8d6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:57 +0000
Subject: [PATCH 51/54] fix: stability of parts next to heat exchangers is
 checked

---
 multisim/precomp_funs.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index a9caf28..6e69d19 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -697,8 +697,11 @@ def _vonNeumann_stability_invar(
     )
     # for the next two with non-constant gridspacing, find max of UA/gsp:
     # vN_diff[1] = (UA_port / port_subs_gsp).max() / rhocpmax * timestep
+    # ports without heat conduction (f.i. to heat exchangers) have no area
     vN_diff[1] = (
-        np.max(UA_port / (A_port * port_subs_gsp)) * timestep / rhocp.max()
+        np.max(UA_port / (np.maximum(A_port, 1e-12) * port_subs_gsp))
+        * timestep
+        / rhocp.max()
     )
     # vN_diff[2] = UA_amb_shell.max() / r_total / rhocpmax * timestep
     vN_diff[2] = np.max(UA_amb_shell / rhocp) * timestep / (A_shell * r_total)
@@ -829,8 +832,11 @@ def _vonNeumann_stability_invar_hexnum(
     #     np.max(UA_dim2[1:-1] / rhocp[1:])
     #     * timestep / (A_plate_eff * grid_spacing))
     # for the next two with non-constant gridspacing, find max of UA/gsp:
+    # ports without heat conduction (f.i. to heat exchangers) have no area
     vN_diff[2] = (
-        (UA_port / (A_port * port_subs_gsp)).max() / rhocpmax * timestep
+        (UA_port / (np.maximum(A_port, 1e-12) * port_subs_gsp)).max()
+        / rhocpmax
+        * timestep
     )
     # vN_diff[2] = (UA_port / port_subs_gsp).max() / rhocpmax * timestep
     # vN_diff[2] = (
@@ -952,8 +958,11 @@ def _vonNeumann_stability_var(
     )
     # for the next two with non-constant gridspacing, find max of UA/gsp:
     # vN_diff[1] = (UA_port / port_subs_gsp).max() / rhocpmax * timestep
+    # ports without heat conduction (f.i. to heat exchangers) have no area
     vN_diff[1] = (
-        np.max(UA_port / (A_port * port_subs_gsp)) * timestep / rhocp.max()
+        np.max(UA_port / (np.maximum(A_port, 1e-12) * port_subs_gsp))
+        * timestep
+        / rhocp.max()
     )
     # vN_diff[2] = UA_amb_shell.max() / r_total / rhocpmax * timestep
     vN_diff[2] = np.max(UA_amb_shell / rhocp) * timestep / (A_shell * r_total)
-- 
2.43.0


From f2977b2a358cee305979044dbf4df5a34d893c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 52/54] fix: a port cannot be connected to itself

---
 multisim/simenv.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/multisim/simenv.py b/multisim/simenv.py
index 6c8d4b3..d025609 100644
--- a/multisim/simenv.py
+++ b/multisim/simenv.py
@@ -1973,6 +1973,11 @@ class SimEnv:
                 'While connecting ports, the following error '
                 'occurred:\n{0}'.format(e)
             )
+        # a port cannot be connected to itself:
+        assert (first_part, first_port) != (scnd_part, scnd_port), (
+            'While connecting ports, the following error occurred:\n'
+            'Port `{0}` of part `{1}` cannot be connected to itself.'
+        ).format(first_port, first_part)
         # check if port has already been connected to another port:
         err_str = (
             'While connecting part `{0}` at port `{1}` with part `{2}` at '
-- 
2.43.0


From b08000984f426bb470dbc216e2742d493960a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 53/54] fix: flow of a valve whose branches are both known does
 not depend on the opening

---
 multisim/parts/pipe_with_valve.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/multisim/parts/pipe_with_valve.py b/multisim/parts/pipe_with_valve.py
index d62052e..c758bed 100644
--- a/multisim/parts/pipe_with_valve.py
+++ b/multisim/parts/pipe_with_valve.py
@@ -269,6 +269,19 @@ class PipeWith3wValve(Pipe):
                     self._dm_io.reshape(-1)[src_idx_ab],
                     self.pf_arr[trgt_idx],
                 )
+            elif port == 'AB' and (
+                'A' in self._solved_ports and 'B' in self._solved_ports
+            ):
+                # if both A and B have already been solved, the massflow of AB
+                # is the negative sum of both (the opening of one of them may
+                # be zero, thus do not divide by it). -> ID -1
+                operation_id = -1
+                op_routine = (
+                    self._dm_io.reshape(-1)[trgt_idx],
+                    operation_id,
+                    self._dm_io.reshape(-1)[slice(0, 1)],
+                    self._dm_io.reshape(-1)[slice(1, 2)],
+                )
             elif port == 'AB' and (
                 'A' in self._solved_ports or 'B' in self._solved_ports
             ):
-- 
2.43.0


From e2287dc03076e9af35114fa3f40271e6e85304ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:24 +0000
Subject: [PATCH 54/54] fix: condensing flue gas heat exchangers fail with
 current scikit-learn

The number of features and the combinations of a polynomial were read from
attributes which scikit-learn has removed. powers_ is public and available in all
supported versions.
---
 multisim/precomp_funs.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/multisim/precomp_funs.py b/multisim/precomp_funs.py
index 6e69d19..2a895c7 100644
--- a/multisim/precomp_funs.py
+++ b/multisim/precomp_funs.py
@@ -6074,18 +6074,13 @@ def make_poly_transf_combs_for_nb(
         poly_feats = mdl.named_steps[poly_step]
     else:
         poly_feats = mdl
-    if n_features is None:
-        n_features = getattr(poly_feats, 'n_input_features_', None)
-        if n_features is None:
-            raise ValueError
-    # extract combinations as persisten tuple
+    # extract combinations as persisten tuple. each combination holds the indices
+    # of the features which have to be multiplied, repeated by their powers
+    powers = poly_feats.powers_
+    if n_features is not None and n_features != powers.shape[1]:
+        raise ValueError
     cmbntns = tuple(
-        poly_feats._combinations(
-            n_features,
-            poly_feats.degree,
-            poly_feats.interaction_only,
-            poly_feats.include_bias,
-        )
+        tuple(np.repeat(np.arange(powers.shape[1]), pwr)) for pwr in powers
     )
     # make to integer indexing array and fill with dummy false value
     int_cmb_idx = (
-- 
2.43.0

