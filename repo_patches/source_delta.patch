From ad0f4da464d6efb915e4245762b9e48af4a8aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:38 +0000
Subject: [PATCH 01/18] fix: keep last_index in step when control indexes are
 reassigned

---
 src/quocslib/parameters/BaseParameter.py | 2 ++
 src/quocslib/pulses/BasePulse.py         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/quocslib/parameters/BaseParameter.py b/src/quocslib/parameters/BaseParameter.py
index 1a91420..1d29998 100644
--- a/src/quocslib/parameters/BaseParameter.py
+++ b/src/quocslib/parameters/BaseParameter.py
@@ -82,6 +82,8 @@ class BaseParameter:
     def set_control_parameters_list(self, map_index):
         """Updates the control parameters list."""
         self.control_parameters_list = [map_index + i + 1 for i in range(self.control_parameters_number)]
+        # Update the map_index number for the next control
+        self.last_index = self.control_parameters_list[-1]
 
     def set_parameter(self, optimized_parameter_vector):
         """
diff --git a/src/quocslib/pulses/BasePulse.py b/src/quocslib/pulses/BasePulse.py
index 733d1aa..87dbeef 100644
--- a/src/quocslib/pulses/BasePulse.py
+++ b/src/quocslib/pulses/BasePulse.py
@@ -237,6 +237,8 @@ class BasePulse:
     def set_control_parameters_list(self, map_index):
         """ Sets the control parameters list. It is used when the Chopped Basis changes during SIs """
         self.control_parameters_list = [map_index + i + 1 for i in range(self.control_parameters_number)]
+        # Update the map_index number for the next control
+        self.last_index = self.control_parameters_list[-1]
 
     def _set_time_grid(self, final_time: float) -> None:
         """ Sets the time grid for the pulse """
-- 
2.43.0


From a009fa10fffbde41033cef10926dc7696f3c3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 02/18] fix: never use the value of a failed evaluation as
 figure of merit

---
 src/quocslib/communication/AllInOneCommunication.py        | 3 ++-
 .../optimizationalgorithms/OptimizationAlgorithm.py        | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index d92a6fc..046dfac 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -159,7 +159,8 @@ class AllInOneCommunication:
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
         FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
         # multiply by -1 if the optimization is a maximization
-        FoM_dict["FoM"] *= self.FoM_factor
+        if FoM_dict.get("FoM") is not None:
+            FoM_dict["FoM"] *= self.FoM_factor
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index e877651..757f800 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -202,6 +202,13 @@ class OptimizationAlgorithm:
             return self.FoM_maximum
         # Get the figure of merit and update it to the main algorithm
         self.FoM_dict = self.comm_obj.get_data()["FoM_values"]
+        # A failed evaluation is reported but never used as a figure of merit
+        if self.FoM_dict.setdefault("status_code", 0) != 0:
+            self.comm_obj.send_FoM_response({"FoM": self.FoM_dict.get("FoM"),
+                                             "iteration_number": self.iteration_number,
+                                             "status_code": self.FoM_dict["status_code"]})
+            self.comm_obj.update_msg_server()
+            return self.FoM_maximum
         # Send the response for the interface
         self.comm_obj.send_FoM_response(self._get_response_for_client())
         # Update the notification file for the interface
-- 
2.43.0


From 8251885e722b7f2b29a0a75e7c6c197ca38e4448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 03/18] fix: a stop during re-evaluation or drift compensation
 keeps the record

---
 .../DirectSearchAlgorithm.py                      | 12 +++++++++++-
 .../optimizationalgorithms/dCRABAlgorithm.py      | 15 ++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index e7194db..854d641 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -120,6 +120,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         if drift_comp_new_val is not None:
             mu_1 = drift_comp_new_val
+            # The re-measurement is incomplete when the optimization was stopped meanwhile: keep the record
+            if not self.is_optimization_running():
+                return mu_1
             self.best_FoM = mu_1
             self.is_record = True
             message = "New record due to drift compensation. New best FoM: {0}".format(self.FoM_factor*mu_1)
@@ -148,6 +151,9 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                 # check mu-sig criterion by calculating probability of current pulses being new record
                 # Re evaluation steps initialization e.g. [0.33, 0.5, 0.501, 0.51]
                 re_evaluation_steps = self.re_evaluation_steps
+                # Nothing was evaluated when the optimization is stopped: there is nothing to compare or to record
+                if not self.is_optimization_running():
+                    return FoM
                 # First evaluation in whole optimization -> do not reevaluate
                 if self.iteration_number == 1:
                     re_evaluation_steps = np.array([0.5])
@@ -174,7 +180,11 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # The re-evaluation was not made if the optimization is stopped
+                    if not self.is_optimization_running():
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 05e2725..a589965 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -232,6 +232,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         new_FoM = 0
         for _ in range(self.compensate_drift_num_average):
             new_FoM += self._routine_call(x0, iteration)
+        # The re-measurement is incomplete if the optimization was stopped meanwhile: keep the record
+        if not self.is_optimization_running():
+            return
         self.best_FoM = new_FoM / self.compensate_drift_num_average
         # Info message
         message = f"Previous best FoM: {self.FoM_factor*previous_best_FoM}, Current best FoM after drift " \
@@ -288,6 +291,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         """
         if drift_comp_new_val is not None:
             mu_1 = drift_comp_new_val
+            # The re-measurement is incomplete when the optimization was stopped meanwhile: keep the record
+            if not self.is_optimization_running():
+                return mu_1
             self.best_FoM = mu_1
             self.is_record = True
             message = "New record due to drift compensation. New best FoM: {0}".format(self.FoM_factor*mu_1)
@@ -321,6 +327,9 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                 # check mu-sig criterion by calculating probability of current pulses being new record
                 # Re evaluation steps initialization e.g. [0.33, 0.5, 0.501, 0.51]
                 re_evaluation_steps = self.re_evaluation_steps
+                # Nothing was evaluated when the optimization is stopped: there is nothing to compare or to record
+                if not self.is_optimization_running():
+                    return FoM
                 # First evaluation in whole optimization -> do not reevaluate
                 if self.iteration_number == 1:
                     re_evaluation_steps = np.array([0.5])
@@ -347,7 +356,11 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     if probability < p_level:
                         return mu_1
                     # else: go on with further re-evaluations
-                    self.FoM_test[ii + 1] = self._routine_call(optimized_control_parameters, iterations)
+                    FoM = self._routine_call(optimized_control_parameters, iterations)
+                    # The re-evaluation was not made if the optimization is stopped
+                    if not self.is_optimization_running():
+                        return mu_1
+                    self.FoM_test[ii + 1] = FoM
                     self.sigma_test[ii + 1] = float(self.FoM_dict.setdefault("std", 1.0))
                     # Increase step number after function evaluation
                     self.step_number += 1
-- 
2.43.0


From 13ee90588b4cd8e95f064421b66b20264647c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:21 +0000
Subject: [PATCH 04/18] fix: the direct search reports the best parameters
 instead of the last ones

---
 src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index 854d641..b20823e 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -322,6 +322,8 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # Update the results
         [FoM, xx,
          self.terminate_reason] = [result_l["F_min_val"], result_l["X_opti_vec"], result_l["terminate_reason"]]
+        # Update the controls with the best ones found so far
+        self.controls.update_base_controls(self.best_xx)
 
     def _get_controls(self, xx):
         """
@@ -343,7 +345,7 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         """
         final_dict = {
             "Figure of merit": self.FoM_factor * self.best_FoM,
-            "parameters": self.xx,
+            "parameters": self.best_xx,
             "terminate_reason": self.terminate_reason
         }
         return final_dict
-- 
2.43.0


From 84dd402ec47767f1a0feabf6d7fc5c8ad9ab34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:49 +0000
Subject: [PATCH 05/18] fix: the reported average of re-evaluations is the mean
 of all of them

---
 .../optimizationalgorithms/DirectSearchAlgorithm.py         | 6 ++++--
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py       | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
index b20823e..f660079 100644
--- a/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/DirectSearchAlgorithm.py
@@ -227,8 +227,10 @@ class DirectSearchAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # The current evaluation is not yet counted in the step number
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index a589965..095ef23 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -403,8 +403,10 @@ class dCRABAlgorithm(OptimizationAlgorithm):
         # the FoM_test array and the current FoM in the FoM dict
         if mu_sum is None:
             curr_FoM, curr_std = self.FoM_dict["FoM"], self.FoM_dict.setdefault("std", 1.0)
-            mu_sum = np.mean(self.FoM_test[:step_number]) * (step_number - 1) + curr_FoM
-            sigma_sum = (np.mean(self.sigma_test[:step_number]) * (step_number - 1) + curr_std)
+            mu_sum = np.sum(self.FoM_test[:step_number]) + curr_FoM
+            sigma_sum = np.sum(self.sigma_test[:step_number]) + curr_std
+            # The current evaluation is not yet counted in the step number
+            step_number += 1
         # If it is called inside the _inner_routine_call()
         average_FoM, average_std = mu_sum / step_number, sigma_sum / step_number
         return average_FoM, average_std
-- 
2.43.0


From 595de16f395dd32f6889202eeaa743b21a791c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:20 +0000
Subject: [PATCH 06/18] fix: the default start simplex of Nelder-Mead contains
 the start point

---
 src/quocslib/gradientfreemethods/NelderMead.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 61b4c15..2ca37d4 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -81,6 +81,7 @@ class NelderMead(DirectSearchMethod):
             nonzdelt = 0.05
             zdelt = 0.00025
             sim = np.zeros((dim + 1, dim), dtype=x0.dtype)
+            sim[0] = x0
             for k in range(dim):
                 y = np.array(x0, copy=True)
                 if y[k] != 0:
-- 
2.43.0


From b81dc6ef887479dd2e04ae760e19cc7b0f3de0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:13 +0000
Subject: [PATCH 07/18] fix: CMA-ES draws from the seeded generator

---
 src/quocslib/gradientfreemethods/CMAES.py             |  8 +++++++-
 .../gradientfreemethods/DirectSearchMethod.py         |  2 ++
 src/quocslib/optimizationalgorithms/dCRABAlgorithm.py |  2 ++
 src/quocslib/tools/randomgenerator.py                 | 11 +++++++++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 8e3f380..3af2e5b 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -44,6 +44,12 @@ class CMAES(DirectSearchMethod):
         self.sc_obj = CMAESStoppingCriteria(stopping_criteria)
         self.logger = logging.getLogger("oc_logger")
 
+    def _get_normal_numbers(self, n: int) -> np.array:
+        """Standard normally distributed random numbers, from the seeded generator if there is one"""
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.get_random_normal_numbers(n)
+
     def run_dsm(self,
                 func,
                 x0,
@@ -139,7 +145,7 @@ class CMAES(DirectSearchMethod):
                 # TR 2020_04_15: Hansen (2016) here also has arz: arz[:,k] = randn(N,)  standard normally
                 # distributed vector TR 2020_04_15: here we should make sigma dependent on the reasonable amplitude
                 # variation, right?
-                arx[:, k] = xmean + sigma * B.dot(D * np.random.randn(N, ))
+                arx[:, k] = xmean + sigma * B.dot(D * self._get_normal_numbers(N))
                 # Starting point at the beginning of the SI
                 if counteval == 0:
                     arx[:, k] = xmean
diff --git a/src/quocslib/gradientfreemethods/DirectSearchMethod.py b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
index 9ad5a99..454933d 100644
--- a/src/quocslib/gradientfreemethods/DirectSearchMethod.py
+++ b/src/quocslib/gradientfreemethods/DirectSearchMethod.py
@@ -51,6 +51,8 @@ class Wrap:
 
 class DirectSearchMethod:
     sc_obj: StoppingCriteria
+    # Random number generator of the optimization algorithm, None if no seed is provided
+    rng = None
 
     def __init__(self):
         """Constructor of the DirectSearchMethod class"""
diff --git a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
index 095ef23..94af0a0 100644
--- a/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/dCRABAlgorithm.py
@@ -116,6 +116,8 @@ class dCRABAlgorithm(OptimizationAlgorithm):
                     default_seed_number)
                 self.rng = RandomNumberGenerator(seed_number=default_seed_number)
                 self.comm_obj.print_logger(message, level=30)
+        # The direct search draws from the same generator
+        self.dsm_obj.rng = self.rng
         # The fact a FoM is a record FoM is decided by the inner call
         self.is_record = False
         # Initialize the step number used during the FoM calculation
diff --git a/src/quocslib/tools/randomgenerator.py b/src/quocslib/tools/randomgenerator.py
index 0f02e2c..ae19086 100644
--- a/src/quocslib/tools/randomgenerator.py
+++ b/src/quocslib/tools/randomgenerator.py
@@ -74,6 +74,17 @@ class RandomNumberGenerator:
             else:
                 return self.rng.random_sample(n)
 
+    def get_random_normal_numbers(self, n: int):
+        """
+        Return an array of standard normally distributed random numbers
+
+        :param n: Number of random numbers to generate
+        :return: Array of random numbers
+        """
+        if self.rng is None:
+            return np.random.randn(n)
+        return self.rng.standard_normal(n)
+
 
 # def get_random_numbers(n: int, rng: np.random.Generator = None):
 #     """ Return an array of random numbers between 0 and 1 based on the random generator """
-- 
2.43.0


From 287cf6f1b3b1ffa42ae30915bff1835221581826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:42 +0000
Subject: [PATCH 08/18] fix: do not change the figure-of-merit dictionary of
 the user

---
 src/quocslib/communication/AllInOneCommunication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index 046dfac..a9eb4d8 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -157,7 +157,8 @@ class AllInOneCommunication:
         :return dict: {"FoM_values": {"FoM": float, ...}}
         """
         self.logger.debug("User running: {0}".format(self.he_obj.is_user_running))
-        FoM_dict = self.FoM_obj.get_FoM(**self.controls_dict)
+        # Copy the dictionary since it belongs to the user, who may return the same object again
+        FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # multiply by -1 if the optimization is a maximization
         if FoM_dict.get("FoM") is not None:
             FoM_dict["FoM"] *= self.FoM_factor
-- 
2.43.0


From 3ce9713700bb08e712b3282e5c2d22ae8c299a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:10 +0000
Subject: [PATCH 09/18] fix: user cancellation also works for algorithms
 without a direct search

---
 src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
index 757f800..237b6a8 100644
--- a/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/OptimizationAlgorithm.py
@@ -116,7 +116,9 @@ class OptimizationAlgorithm:
         :return:
         """
         self.higher_order_terminate_reason = "User stopped the optimization"
-        self.dsm_obj.sc_obj.is_converged = True
+        # check if self.dsm_obj exits
+        if hasattr(self, "dsm_obj"):
+            self.dsm_obj.sc_obj.is_converged = True
         self.stop_optimization()
 
     def begin(self) -> None:
-- 
2.43.0


From a6cef00f75693969927d161a0d954da03a915988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:08 +0000
Subject: [PATCH 10/18] fix: the termination reason names a criterion that has
 been fulfilled

---
 src/quocslib/gradientfreemethods/CMAES.py                | 2 ++
 src/quocslib/gradientfreemethods/NelderMead.py           | 2 ++
 src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py   | 9 ++++++---
 .../stoppingcriteria/NelderMeadStoppingCriteria.py       | 9 ++++++---
 src/quocslib/stoppingcriteria/StoppingCriteria.py        | 2 +-
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/quocslib/gradientfreemethods/CMAES.py b/src/quocslib/gradientfreemethods/CMAES.py
index 3af2e5b..4b41683 100644
--- a/src/quocslib/gradientfreemethods/CMAES.py
+++ b/src/quocslib/gradientfreemethods/CMAES.py
@@ -76,6 +76,8 @@ class CMAES(DirectSearchMethod):
 
         # Set to false is_converged
         self.sc_obj.is_converged = False
+        # No criterion of this search has been fulfilled yet
+        self.sc_obj.terminate_reason = "Global Stopping Criterion reached."
 
         N = len(x0)
 
diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 2ca37d4..40e3385 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -58,6 +58,8 @@ class NelderMead(DirectSearchMethod):
         calls_number, func = self._get_wrapper(args, func)
         # Set to false is_converged
         self.sc_obj.is_converged = False
+        # No criterion of this search has been fulfilled yet
+        self.sc_obj.terminate_reason = "Global Stopping Criterion reached."
         # Initialize the iteration number
         iterations = 0
         # Landscape dimension
diff --git a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
index 9594298..baf9bb7 100644
--- a/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/CMAESStoppingCriteria.py
@@ -64,13 +64,15 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_func_eval_single_direct_search(
+        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_f_size(fsim)
+        self.is_converged, terminate_reason = self.check_f_size(fsim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
         # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])
@@ -79,6 +81,7 @@ class CMAESStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_total_time_out()
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_direct_search_time_out()
+        self.is_converged, terminate_reason = self.check_direct_search_time_out()
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
diff --git a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
index d8499d6..c1eaecd 100644
--- a/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/NelderMeadStoppingCriteria.py
@@ -52,17 +52,20 @@ class NelderMeadStoppingCriteria(StoppingCriteria):
         # self.is_converged, self.terminate_reason = self.check_func_eval_total(func_evaluations_single_direct_search)
         # if self.is_converged: return
 
-        self.is_converged, self.terminate_reason = self.check_func_eval_single_direct_search(
+        self.is_converged, terminate_reason = self.check_func_eval_single_direct_search(
             func_evaluations_single_direct_search)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_simplex_criterion(sim)
+        self.is_converged, terminate_reason = self.check_simplex_criterion(sim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
-        self.is_converged, self.terminate_reason = self.check_f_size(fsim)
+        self.is_converged, terminate_reason = self.check_f_size(fsim)
         if self.is_converged:
+            self.terminate_reason = terminate_reason
             return
 
         # self.is_converged, self.terminate_reason = self.check_goal_reached(fsim[0])
diff --git a/src/quocslib/stoppingcriteria/StoppingCriteria.py b/src/quocslib/stoppingcriteria/StoppingCriteria.py
index 662f17a..08bbcdc 100644
--- a/src/quocslib/stoppingcriteria/StoppingCriteria.py
+++ b/src/quocslib/stoppingcriteria/StoppingCriteria.py
@@ -145,7 +145,6 @@ class StoppingCriteria:
         """
         Check the change-based stopping criterion
         """
-        self.terminate_reason = "Change-based stopping criterion reached."
         cbs_funct_evals = self.change_based_stop["cbs_funct_evals"]
         cbs_change = self.change_based_stop["cbs_change"]
         if len(self.curr_FoM_track) >= cbs_funct_evals:
@@ -155,6 +154,7 @@ class StoppingCriteria:
             # check if the trend of changes is smaller than defined
             if current_change < cbs_change:
                 self.is_converged = True
+                self.terminate_reason = "Change-based stopping criterion reached."
 
     def check_advanced_stopping_criteria(self) -> None:
         """
-- 
2.43.0


From 1263a2e13ad8f17fb93afc4a55aade5e37e45a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:46 +0000
Subject: [PATCH 11/18] fix: Nelder-Mead moves a vertex only when it is
 evaluated there

---
 src/quocslib/gradientfreemethods/NelderMead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/gradientfreemethods/NelderMead.py b/src/quocslib/gradientfreemethods/NelderMead.py
index 40e3385..3373def 100644
--- a/src/quocslib/gradientfreemethods/NelderMead.py
+++ b/src/quocslib/gradientfreemethods/NelderMead.py
@@ -155,9 +155,9 @@ class NelderMead(DirectSearchMethod):
                             doshrink = 1
                     if doshrink:
                         for j in range(1, dim + 1):
-                            sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                             if self.sc_obj.is_converged:
                                 break
+                            sim[j] = sim[0] + sigma * (sim[j] - sim[0])
                             fsim[j] = func(sim[j], iterations)
             # Sort the array by the lowest function value since we are performing a minimization
             ind = np.argsort(fsim)
-- 
2.43.0


From 0f93a99bae31615f957d7f4ff9d188d73b2ddc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:36 +0000
Subject: [PATCH 12/18] fix: every saved control keeps a key of its own

---
 src/quocslib/utils/BestDump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 2d1b59d..71d1b48 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -86,7 +86,8 @@ class BestDump(AbstractDump):
 
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
-            if pulse_name in controls_dict:
+            while (pulse_name in controls_dict or "time_grid_for_" + pulse_name in controls_dict
+                   or pulse_name in kwargs):
                 pulse_name = pulse_name + str(pulse_index + 1)
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
@@ -102,7 +103,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            if param_name in controls_dict:
+            while param_name in controls_dict or param_name in kwargs:
                 param_name = param_name + str(parameter_index + 1)
             controls_dict[param_name] = parameter
             parameter_index += 1
-- 
2.43.0


From 6312dc33a1b7cb3e2554785c08129a9c63f346bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:27 +0000
Subject: [PATCH 13/18] fix: pw_evolution_AD stores the propagators it computes

---
 src/quocslib/timeevolution/piecewise_integrator_AD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quocslib/timeevolution/piecewise_integrator_AD.py b/src/quocslib/timeevolution/piecewise_integrator_AD.py
index 41728d0..2d91ec9 100644
--- a/src/quocslib/timeevolution/piecewise_integrator_AD.py
+++ b/src/quocslib/timeevolution/piecewise_integrator_AD.py
@@ -58,7 +58,7 @@ def pw_evolution_AD(U_store, drive, A, B, n_slices, dt):
         H = A
         for k in range(K):
             H = H + drive[k, i] * B[k]
-        U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
+        U_store = U_store.at[i].set(jsp.linalg.expm(-1j * dt * H))
     return U_store
 
 
-- 
2.43.0


From aaa36a2749c2866b79228dd0dc084e2c13577e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:53 +0000
Subject: [PATCH 14/18] fix: wait the configured number of seconds for the
 figure of merit file

---
 src/quocslib/utils/FilesUpdateFom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/utils/FilesUpdateFom.py b/src/quocslib/utils/FilesUpdateFom.py
index da90269..d9aeb4f 100644
--- a/src/quocslib/utils/FilesUpdateFom.py
+++ b/src/quocslib/utils/FilesUpdateFom.py
@@ -90,7 +90,8 @@ class FilesUpdateFoM(AbstractFoM):
         time_counter_max = self.max_time
         # Check if figure of merit file exists
         while not os.path.exists(self.FoM_path):
-            time_counter += 1
+            # Seconds waited so far
+            time_counter += 0.5
             time.sleep(0.5)
             if time_counter >= time_counter_max:
                 return {"FoM": FoM, "status_code": -2}
-- 
2.43.0


From 6ded8a048c5c3973916f125c7b5502b2b38e08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:13 +0000
Subject: [PATCH 15/18] fix: without a new record AD and GRAPE keep the current
 controls

---
 src/quocslib/optimizationalgorithms/ADAlgorithm.py    | 2 ++
 src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/quocslib/optimizationalgorithms/ADAlgorithm.py b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
index 6be52c4..5371984 100644
--- a/src/quocslib/optimizationalgorithms/ADAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/ADAlgorithm.py
@@ -143,6 +143,8 @@ class ADAlgorithm(OptimizationAlgorithm):
 
     def inner_run(self):
         """ Inner routine call that runs the optimization algorithm. """
+        # Initialize the best xx vector for this SI, i.e. no update in case no record is found
+        self.best_xx = self.controls.get_mean_value().copy()
         heuristic_coeff = 1.0
         random_variation = heuristic_coeff * 2 * (0.5 - self.rng.get_random_numbers(self.controls.get_control_parameters_number()))
         # Scale it according to the amplitude variation
diff --git a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
index 598fe38..c1c50b8 100644
--- a/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
+++ b/src/quocslib/optimizationalgorithms/GRAPEAlgorithm.py
@@ -192,6 +192,8 @@ class GRAPEAlgorithm(OptimizationAlgorithm):
 
     def run(self) -> None:
         """Starts the main loop of the optimization"""
+        # Initialize the best xx vector in case no record is found
+        self.best_xx = self.controls.get_mean_value().copy()
         # Initial set of random parameters
         # I have to use random parameters to avoid initial local trap (null gradient)
         # Create array with values between [-1.0, 1.0]
-- 
2.43.0


From 7482e95dfc7f381c67987264cda53454f143db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 16/18] fix: the json dump accepts numpy scalars and jax arrays

---
 src/quocslib/utils/BestDump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index 71d1b48..caa7dc7 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -32,6 +32,9 @@ class NumpyEncoder(json.JSONEncoder):
             # for some reason float128 can lead to the error:
             # TypeError: Object of type float128 is not JSON serializable
             return np.float64(obj)
+        elif hasattr(obj, "tolist"):
+            # other numpy scalars and array-like objects (e.g. jax arrays)
+            return obj.tolist()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 23f354e26c05b8a3b7c5540782ab8048f3e2e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:42 +0000
Subject: [PATCH 17/18] fix: controls named like an argument of savez are saved

---
 src/quocslib/utils/BestDump.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quocslib/utils/BestDump.py b/src/quocslib/utils/BestDump.py
index caa7dc7..293d014 100644
--- a/src/quocslib/utils/BestDump.py
+++ b/src/quocslib/utils/BestDump.py
@@ -73,6 +73,9 @@ class BestDump(AbstractDump):
         if not is_record:
             return
 
+        # Names which are not available for the controls: the further data and the arguments of numpy's savez
+        reserved_names = [*kwargs, "file", "allow_pickle"]
+
         controls_dict = {}
         pulse_index = 0
         pulse_names = []
@@ -90,7 +93,7 @@ class BestDump(AbstractDump):
         for pulse, time_grid in zip(pulses, timegrids):
             pulse_name = pulse_names[pulse_index]
             while (pulse_name in controls_dict or "time_grid_for_" + pulse_name in controls_dict
-                   or pulse_name in kwargs):
+                   or pulse_name in reserved_names):
                 pulse_name = pulse_name + str(pulse_index + 1)
             time_name = "time_grid_for_" + pulse_name
             controls_dict[pulse_name] = pulse
@@ -106,7 +109,7 @@ class BestDump(AbstractDump):
 
         for parameter in parameters:
             param_name = parameter_names[parameter_index]
-            while param_name in controls_dict or param_name in kwargs:
+            while param_name in controls_dict or param_name in reserved_names:
                 param_name = param_name + str(parameter_index + 1)
             controls_dict[param_name] = parameter
             parameter_index += 1
-- 
2.43.0


From b6b709bb9f85ac890fa017833f881b02926eb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:11 +0000
Subject: [PATCH 18/18] fix: the figure of merit is not scaled in place, the
 array may belong to the user

---
 src/quocslib/communication/AllInOneCommunication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quocslib/communication/AllInOneCommunication.py b/src/quocslib/communication/AllInOneCommunication.py
index a9eb4d8..048685a 100644
--- a/src/quocslib/communication/AllInOneCommunication.py
+++ b/src/quocslib/communication/AllInOneCommunication.py
@@ -161,7 +161,8 @@ class AllInOneCommunication:
         FoM_dict = dict(self.FoM_obj.get_FoM(**self.controls_dict))
         # multiply by -1 if the optimization is a maximization
         if FoM_dict.get("FoM") is not None:
-            FoM_dict["FoM"] *= self.FoM_factor
+            # the value belongs to the user as well, who may keep it in an array: do not work in place
+            FoM_dict["FoM"] = self.FoM_factor * FoM_dict["FoM"]
         # set the status of the FoM to 0 if it does not exist already
         status_code = FoM_dict.setdefault("status_code", 0)
         # if the user passes a different status code than zero, stop the optimization
-- 
2.43.0

