From ae6e7588def64a97f223228e74e8b4aef588f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 01/12] fix: count tolerated scenarios despite rounding of
 epsilon*nb_scenarios

0.29*100 is 28.999999999999996 in floating point: 29 violated scenarios
were declared infeasible although the chance-constrained model (rightly)
allows them, and the adaptive method failed an assertion.
---
 src/instance/ChanceKnapInstance.py | 3 ++-
 src/refiner/Refiner.py             | 3 ++-
 src/solver/AdaptivePartitioner.py  | 6 ++++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..f00d0e1 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,8 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        # The product above is a float: e.g. 0.29*100 is slightly below 29
+        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance + 1e-7
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..925952f 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,8 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        # Avoid rounding errors: e.g. 0.29*100 is slightly below 29
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + 1e-7))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..de43b43 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -83,8 +83,10 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        # Avoid rounding errors: e.g. 0.29*100 is slightly below 29
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + 1e-7) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From 51b50eb95425a0141aa02082ab62c33ca1dd7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 02/12] fix: main.py passed an argument that
 AdaptivePartitioner.solve does not take

---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From 1116f8deee68147f15863a9a8d7911f21c13d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 03/12] fix: writing adaptive results failed for the random and
 cost methods

---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From 8ecf1139ee806d0a3c89aa312e3863a326e2ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 04/12] fix: exporter looked for a wrong file name for some
 epsilons

int(0.29*100) is 28 while main.py writes "29" in the name.
---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From 58885cc0ade7ebd638b02ad66e6cb2d00d4533a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 05/12] fix: optimality gap for negative or zero lower bounds

The gap was negative for a negative lower bound (which stops the adaptive
method) and divided by zero for a zero one.
---
 src/solver/Solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..8ae09c5 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,8 +31,12 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif self.vUB == self.vLB:
+            gap = 0.0
+        elif self.vLB == 0:
+            gap = np.inf
         else:
-            gap = (self.vUB - self.vLB)/self.vLB
+            gap = (self.vUB - self.vLB)/abs(self.vLB)
         return gap
 
     def _available_time(self):
-- 
2.43.0


From 55b42908f19badd72151fe8bb4243a135580e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 06/12] fix: forget deletions of an earlier merge when no merge
 is done

The warm start of the next upper bound shifted the indicators by the
subsets deleted in some earlier iteration.
---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index de43b43..753fe0f 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -227,6 +227,7 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        self.merger.deleted_subsets = []
         if use_merger:
             if max(new_subset_costs) <= self.vUB:
                 feasible_subsets = self.refiner.feasible_subsets
-- 
2.43.0


From a6e799d7fb5d0c1d8e181d014fe423aecb6871c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 07/12] fix: writing results failed when no big-M was used

---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..e71e1dd 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -49,6 +49,7 @@ class MilpSolver(Solver):
               save_bounds=False, path=None):
         """Solves extended CCLP model with given params."""
         # Compute big M's according to big_m_method
+        self.big_m_time = 0.0
         if use_big_m:
             self._compute_big_m(big_m_method=big_m_method)
 
-- 
2.43.0


From a14390bc6f811d30ef5e22d663e273eb631435dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 08/12] fix: result rows stored 0 for the belotti and song
 big-M methods

---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index e71e1dd..87621bb 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -41,8 +41,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From a13bdd6d44313ea2c941e3559bb666ca43cdada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 09/12] fix: song big-M failed when all but one scenario may be
 violated

---
 src/BigMFinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..315b347 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -96,7 +96,7 @@ class BigMFinder(object):
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
         q = int(math.floor(epsilon*self.nb_scenarios)+1)
-        return violations[q]
+        return violations[min(q, len(violations)-1)]
 
     #   - - - Public methods - - -
     def run_belotti_et_al_big_M(self, vUB,
-- 
2.43.0


From 48e2a45929d968ae460db4140faf2e4142e1f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:27 +0000
Subject: [PATCH 10/12] fix: keep vLB when the lower-bound projection has no
 solution

The projection returns (None, -1e6) when the selected scenarios have no
common solution. While no solution is known vLB is -inf, so -1e6 was
stored as a lower bound without any solution that attains it.
---
 src/solver/AdaptivePartitioner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 753fe0f..158f880 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -164,7 +164,7 @@ class AdaptivePartitioner(Solver):
         self.lowerbounder.vLB = self.vLB
         x, v = self.lowerbounder.deterministic_bound(xUB)
         # Store results
-        if v > self.vLB:
+        if x is not None and v > self.vLB:
             print('Improve lower bound from', self.vLB, 'to', v)
             self.vLB = v
             self.xLB = x
-- 
2.43.0


From 8a4433e94a538a7ffc7c80d7cd7bb53e73d71b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 11/12] fix: results could not be written when stopped before
 the first iteration

---
 src/solver/AdaptivePartitioner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 158f880..a8bc260 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -278,6 +278,7 @@ class AdaptivePartitioner(Solver):
         self.use_merger = use_merger
         self.use_big_M = use_big_M
         self.big_m_method = big_m_method
+        self.iteration = 0
 
         #   - Subset cost -
         print('\n Calculating cost of each subset in the initial partition.')
-- 
2.43.0


From 15c1ac1d7d22af408d0822212d48adf032e20e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:24 +0000
Subject: [PATCH 12/12] fix: let the cost refiner choose among post-split costs
 below -1e6

---
 src/refiner/CostRefiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiner/CostRefiner.py b/src/refiner/CostRefiner.py
index 9a6fe91..9ef77b0 100644
--- a/src/refiner/CostRefiner.py
+++ b/src/refiner/CostRefiner.py
@@ -84,7 +84,7 @@ class CostRefiner(Refiner):
                         if v <= self.vUB]
         if len(free_mergers) > 0:
             split_c = -1
-            v = -1e6
+            v = -np.inf
             for c in free_mergers:
                 if self.post_split_costs[c] >= v:
                     split_c = c
-- 
2.43.0

