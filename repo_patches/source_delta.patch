From 52c814d303e9e81c7ffa9a64ba670abfc4275869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 01/29] fix: curtailment postprocessing fails where the
 available source is zero

---
 src/calliope/math/base.yaml | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 9bf2d71..f8b4ed1 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1330,7 +1330,13 @@ postprocessed:
     equations:
       - expression: 1 - (source_use / (source_use_max * $source_scaler))
     sub_expressions:
-      source_scaler: *source_scaler
+      source_scaler: &nonzero_source_scaler
+        - where: "source_unit==per_area AND area_use>0"
+          expression: "area_use"
+        - where: "source_unit==per_cap AND sum(flow_cap, over=carriers)>0"
+          expression: "sum(flow_cap, over=carriers)"
+        - where: "source_unit==absolute"
+          expression: "1"
 
   total_curtailment:
     title: Total curtailment
@@ -1340,12 +1346,12 @@ postprocessed:
       This is useful for renewable energy technologies, for which unused resource in any hour is effectively lost revenue.
     unit: unitless
     foreach: [nodes, techs]
-    where: base_tech==supply AND source_use_max AND source_cap>0
+    where: base_tech==supply AND source_use_max AND source_use_max>0 AND source_cap>0
     default: 0
     equations:
       - expression: 1 - (sum(source_use, over=timesteps) / sum(source_use_max * $source_scaler, over=timesteps))
     sub_expressions:
-      source_scaler: *source_scaler
+      source_scaler: *nonzero_source_scaler
 
 checks:
   must_have_base:
-- 
2.43.0


From fbfca80e04a7047b58a3047cc10c0ba2f97c8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 02/29] fix: solver runs that end without any solution are
 non-optimal, not a crash

---
 src/calliope/backend/pyomo_backend_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f6430cb..f34fae5 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -373,7 +373,10 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
 
         termination = results.solver[0].termination_condition
 
-        if pe.TerminationCondition.to_solver_status(termination) == pe.SolverStatus.ok:
+        if (
+            pe.TerminationCondition.to_solver_status(termination) == pe.SolverStatus.ok
+            and len(results.solution) > 0
+        ):
             self._instance.load_solution(results.solution[0])
             results = self.load_results(solve_config.postprocessing_active)
         else:
-- 
2.43.0


From 20db71b9bea8b3b6e960048ffb89bf455baf60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 03/29] fix: results cannot be loaded when a variable is used
 in no constraint or objective

---
 src/calliope/backend/pyomo_backend_model.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index f34fae5..0add10b 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -378,6 +378,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
             and len(results.solution) > 0
         ):
             self._instance.load_solution(results.solution[0])
+            self._initialise_unused_variables()
             results = self.load_results(solve_config.postprocessing_active)
         else:
             self._solve_logger.critical("Problem status:")
@@ -393,6 +394,18 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
         results.attrs["termination_condition"] = str(termination)
         return results
 
+    def _initialise_unused_variables(self):
+        """Give a value to variables that no objective or active constraint refers to.
+
+        These variables are not passed on to the solver, so they have no value in its solution.
+        Any value within their bounds is optimal, the one that is closest to zero is used here.
+        """
+        for variable in self._instance.components(ctype=pmo.variable._ctype):
+            if variable.value is None:
+                lb, ub = pmo.value(variable.lb), pmo.value(variable.ub)
+                value = 0 if lb is None else max(0, lb)
+                variable.value = value if ub is None else min(value, ub)
+
     def verbose_strings(self) -> None:  # noqa: D102, override
         def __renamer(val, *idx):
             if pd.notna(val):
-- 
2.43.0


From d3634fdd26c78187ef63d223562c8719a2d45aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 04/29] fix: setting a key below a non-dict value silently
 deletes the branch around it

---
 src/calliope/attrdict.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 64189af..05cbe8c 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -91,19 +91,14 @@ class AttrDict(dict):
             value = AttrDict(value)
         if "." in key:
             key, remainder = key.split(".", 1)
-            try:
-                self[key].set_key(remainder, value)
-            except KeyError:
+            if self.get(key, None) is None:
+                # If the value is None, we replace it
                 self[key] = AttrDict()
-                self[key].set_key(remainder, value)
-            except AttributeError:
-                if self[key] is None:  # If the value is None, we replace it
-                    self[key] = AttrDict()
-                    self[key].set_key(remainder, value)
-                # Else there is probably something there, and we don't just
+            elif not isinstance(self[key], AttrDict):
+                # There is something there, and we don't just
                 # want to overwrite so stop and warn the user
-                else:
-                    raise KeyError("Cannot set nested key on non-dict key.")
+                raise KeyError("Cannot set nested key on non-dict key.")
+            self[key].set_key(remainder, value)
         else:
             if key in self and isinstance(value, AttrDict):
                 for k, v in value.items():
-- 
2.43.0


From ae641eed894370e07c99f434d38aa56a75ca4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 05/29] fix: merging without override silently replaces a
 branch by a value

---
 src/calliope/attrdict.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 05cbe8c..56457d7 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -240,12 +240,18 @@ class AttrDict(dict):
                 raise KeyError(f"Key defined twice: {k}")
             else:
                 other_value = other.get_key(k)
+                self_value = self.get_key(k, None)
                 # If other value is None, and would overwrite an entire subdict,
                 # we skip it
-                if not (
-                    other_value is None and isinstance(self.get_key(k, None), AttrDict)
+                if other_value is None and isinstance(self_value, AttrDict):
+                    continue
+                if (
+                    not allow_override
+                    and isinstance(self_value, AttrDict)
+                    and not isinstance(other_value, AttrDict)
                 ):
-                    self.set_key(k, other_value)
+                    raise KeyError(f"Key defined twice: {k}")
+                self.set_key(k, other_value)
         for k in wipe_keys:
             self.del_key(k)
             self.set_key(k, other.get_key(k + "." + WIPE_KEY))
-- 
2.43.0


From a0d8ebbdf167d28c51e038a60a1c4b19e7f83c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 06/29] fix: nested imports ignore allow_override

---
 src/calliope/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/io.py b/src/calliope/io.py
index 9b01d6f..b0f1604 100644
--- a/src/calliope/io.py
+++ b/src/calliope/io.py
@@ -281,7 +281,7 @@ def _resolve_yaml_imports(
 
         for k in imports:
             path = relative_path(base_path, k)
-            imported = read_rich_yaml(path)
+            imported = read_rich_yaml(path, allow_override=allow_override)
             # loaded is added to imported (i.e. it takes precedence)
             imported.union(loaded_dict, allow_override=allow_override)
             loaded_dict = imported
-- 
2.43.0


From 3ba0745945244ffc7b9ba75e08c8f95fbb6aa8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 07/29] fix: merged dictionaries share branches with the
 dictionary merged in

---
 src/calliope/attrdict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/attrdict.py b/src/calliope/attrdict.py
index 56457d7..785ea99 100644
--- a/src/calliope/attrdict.py
+++ b/src/calliope/attrdict.py
@@ -251,7 +251,7 @@ class AttrDict(dict):
                     and not isinstance(other_value, AttrDict)
                 ):
                     raise KeyError(f"Key defined twice: {k}")
-                self.set_key(k, other_value)
+                self.set_key(k, copy.deepcopy(other_value))
         for k in wipe_keys:
             self.del_key(k)
-            self.set_key(k, other.get_key(k + "." + WIPE_KEY))
+            self.set_key(k, copy.deepcopy(other.get_key(k + "." + WIPE_KEY)))
-- 
2.43.0


From 3db9a2f6abad7f2c6e6b827335f931866263ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 08/29] fix: global expressions given at one member of a
 dimension fail or spread to all members

---
 src/calliope/backend/gurobi_backend_model.py | 3 +--
 src/calliope/backend/pyomo_backend_model.py  | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/calliope/backend/gurobi_backend_model.py b/src/calliope/backend/gurobi_backend_model.py
index 0d75250..2d34c69 100644
--- a/src/calliope/backend/gurobi_backend_model.py
+++ b/src/calliope/backend/gurobi_backend_model.py
@@ -106,9 +106,8 @@ class GurobiBackendModel(backend_model.BackendModel):
     def _add_global_expression(  # noqa: D102, override
         self, name: str, where: xr.DataArray, expression: xr.DataArray
     ) -> xr.DataArray:
-        expression = expression.squeeze(drop=True)
         self._clean_arrays(expression)
-        to_fill = expression.where(where)
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 0add10b..59375c4 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -217,9 +217,7 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
     def _add_global_expression(  # noqa: D102, override
         self, name: str, where: xr.DataArray, expression: xr.DataArray
     ) -> xr.DataArray:
-        expression = expression.squeeze(drop=True)
-
-        to_fill = expression.where(where)
+        to_fill = expression.broadcast_like(where).where(where)
 
         return to_fill
 
-- 
2.43.0


From 87a35382c70dc374484a197e6e35a9871ec63038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 09/29] fix: references behind a sign inside an expression are
 not found

---
 src/calliope/backend/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/parsing.py b/src/calliope/backend/parsing.py
index ff428d2..3761b68 100644
--- a/src/calliope/backend/parsing.py
+++ b/src/calliope/backend/parsing.py
@@ -71,6 +71,7 @@ class ParsedBackendEquation:
         """
         valid_eval_classes: tuple = (
             expression_parser.EvalOperatorOperand,
+            expression_parser.EvalSignOp,
             expression_parser.EvalFunction,
         )
         to_find = expression_parser.EvalSubExpressions
@@ -91,6 +92,7 @@ class ParsedBackendEquation:
         valid_eval_classes = tuple(
             [
                 expression_parser.EvalOperatorOperand,
+                expression_parser.EvalSignOp,
                 expression_parser.EvalFunction,
                 expression_parser.EvalSlicedComponent,
             ]
-- 
2.43.0


From e29badc0964a4296f99946024048198782003b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 10/29] fix: where helper function fails on dimensionless
 variables

---
 src/calliope/backend/helper_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index d1b1366..6333304 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -689,7 +689,8 @@ class Where(ParsingHelperFunction):
                         - expression: sum(where(flow_cap, node_grouping), over=nodes) <= node_group_max
             ```
         """
-        return array.where(condition.fillna(False).astype(bool))
+        mask = condition.fillna(False).astype(bool)
+        return array.broadcast_like(mask).where(mask)
 
 
 class GroupSum(ParsingHelperFunction):
-- 
2.43.0


From a86a96843527a9a22c70e923bf8f3a365284bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 11/29] fix: where helper function cannot use a parameter as
 its condition

---
 src/calliope/backend/helper_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calliope/backend/helper_functions.py b/src/calliope/backend/helper_functions.py
index 6333304..ec837f3 100644
--- a/src/calliope/backend/helper_functions.py
+++ b/src/calliope/backend/helper_functions.py
@@ -689,6 +689,10 @@ class Where(ParsingHelperFunction):
                         - expression: sum(where(flow_cap, node_grouping), over=nodes) <= node_group_max
             ```
         """
+        if condition.attrs.get("obj_type") == "parameters":
+            # Optimisation problem parameter objects have no truth value, their input values do.
+            default = self._attrs.math.find(condition.name).default
+            condition = self._attrs.input_data[condition.name].fillna(default)
         mask = condition.fillna(False).astype(bool)
         return array.broadcast_like(mask).where(mask)
 
-- 
2.43.0


From 30a9da66a0e1c780c599165e25251b85dfddb0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 12/29] fix: total generation and levelised costs ignore time
 step weights

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index f8b4ed1..a60919e 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1278,7 +1278,7 @@ postprocessed:
     default: 0
     where: flow_out AND NOT base_tech==demand
     equations:
-      - expression: sum(flow_out + flow_export * timestep_weights, over=[nodes, timesteps])
+      - expression: sum((flow_out + flow_export) * timestep_weights, over=[nodes, timesteps])
 
   systemwide_levelised_cost:
     title: Systemwide levelised cost of energy (LCOE)
-- 
2.43.0


From c4c05255469adc7d991ea5a58520e55db494e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 13/29] fix: clustered models without any storage are refused
 because storage is cyclic by default

---
 src/calliope/math/base.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index a60919e..2a8aac6 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1421,7 +1421,7 @@ checks:
     errors: warn
 
   cyclic_storage_needs_inter_cluster:
-    where: cyclic_storage AND lookup_cluster_last_timestep
+    where: cyclic_storage AND (base_tech==storage OR include_storage==True) AND lookup_cluster_last_timestep
     message: >-
       Include the `storage_inter_cluster_storage` pre-defined math to allow cyclic storage alongside timeseries clustering.
     errors: raise
-- 
2.43.0


From 7e9839f151a439653f417a29ab915b96b3a0f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:22 +0000
Subject: [PATCH 14/29] fix: total curtailment is wrong for a constant
 available source and ignores time step weights

---
 src/calliope/math/base.yaml | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/calliope/math/base.yaml b/src/calliope/math/base.yaml
index 2a8aac6..d054deb 100644
--- a/src/calliope/math/base.yaml
+++ b/src/calliope/math/base.yaml
@@ -1349,7 +1349,11 @@ postprocessed:
     where: base_tech==supply AND source_use_max AND source_use_max>0 AND source_cap>0
     default: 0
     equations:
-      - expression: 1 - (sum(source_use, over=timesteps) / sum(source_use_max * $source_scaler, over=timesteps))
+      - expression: >-
+          1 - (
+            sum(source_use * timestep_weights, over=timesteps)
+            / sum(source_use_max * $source_scaler * timestep_weights, over=timesteps)
+          )
     sub_expressions:
       source_scaler: *nonzero_source_scaler
 
-- 
2.43.0


From 66ba1e3f86a5f8ad558e86c5380444e527ade958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 15/29] fix: purchase costs given only per distance are ignored

---
 src/calliope/math/milp.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 18a8f38..9acfdf9 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -442,7 +442,7 @@ global_expressions:
     default: 0
     unit: cost
     foreach: [nodes, techs, costs]
-    where: cost_purchase AND purchased_units
+    where: (cost_purchase OR cost_purchase_per_distance) AND purchased_units
     order: -1
     equations:
       - where: base_tech==transmission
-- 
2.43.0


From 259d4c5f8a023cbb7be2438bd44bbad10a4d48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 16/29] fix: unit commitment leaves flows unlimited when
 capacity per unit is not fixed

---
 src/calliope/math/milp.yaml | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 9acfdf9..4687af5 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -226,18 +226,24 @@ constraints:
       Set the upper bound of a technology's ability to produce carriers,
       for any technology using integer units to define its capacity.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_out AND operating_units AND flow_cap_per_unit"
+    where: "flow_out AND operating_units"
     equations:
-      - expression: flow_out <= operating_units * timestep_resolution * flow_cap_per_unit * flow_out_parasitic_eff
+      - where: flow_cap_per_unit
+        expression: flow_out <= operating_units * timestep_resolution * flow_cap_per_unit * flow_out_parasitic_eff
+      - where: available_flow_cap
+        expression: flow_out <= available_flow_cap * timestep_resolution * flow_out_parasitic_eff
 
   flow_in_max_milp:
     description: >-
       Set the upper bound of a technology's ability to consume carriers,
       for any technology using integer units to define its capacity.
     foreach: [nodes, techs, carriers, timesteps]
-    where: "flow_in AND operating_units AND flow_cap_per_unit"
+    where: "flow_in AND operating_units"
     equations:
-      - expression: flow_in <= operating_units * timestep_resolution * flow_cap_per_unit
+      - where: flow_cap_per_unit
+        expression: flow_in <= operating_units * timestep_resolution * flow_cap_per_unit
+      - where: available_flow_cap
+        expression: flow_in <= available_flow_cap * timestep_resolution
 
   flow_out_min_milp:
     description: >-
-- 
2.43.0


From 54342a97e9d3021aedce32c016ee1e7b34c5fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 17/29] fix: minimum number of systemwide units needs a maximum
 to take effect

---
 src/calliope/math/milp.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calliope/math/milp.yaml b/src/calliope/math/milp.yaml
index 4687af5..8f552ed 100644
--- a/src/calliope/math/milp.yaml
+++ b/src/calliope/math/milp.yaml
@@ -310,7 +310,7 @@ constraints:
       across all nodes where the technology can exist,
       for any technology using integer units to define its capacity.
     foreach: [techs]
-    where: "purchased_units AND purchased_units_max_systemwide"
+    where: "purchased_units AND purchased_units_min_systemwide"
     equations:
       - expression: sum(purchased_units, over=nodes) >= purchased_units_min_systemwide
 
-- 
2.43.0


From 9f8ae945b656efe5896c1347eecba30dbd61bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:52 +0000
Subject: [PATCH 18/29] fix: put timesteps in chronological order whatever the
 order of the input rows

---
 src/calliope/preprocess/model_data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 813ec5d..ed2aab0 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -787,6 +787,14 @@ class ModelDataCleaner(ModelDTypeUpdater):
             raise exceptions.ModelError(
                 "Must define at least one timeseries data input in a Calliope model."
             )
+        # Input data may list its timesteps in any order, but time is always chronological.
+        self.dataset = self.dataset.sortby(
+            [
+                dim
+                for dim in self.dataset.dims
+                if self.dataset.coords[dim].dtype.kind == DATETIME_DTYPE
+            ]
+        )
         runtime_updater = {}
         if self.config.subset != self.runtime.subset:
             self._subset_dims()
-- 
2.43.0


From 5299d56d2cbb277f4848a547d61da46b1ac1c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 19/29] fix: load models where a deactivated technology has
 node-specific data

---
 src/calliope/preprocess/model_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index ed2aab0..a5d8e5a 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -230,7 +230,9 @@ class ModelDataBuilder(ModelDTypeUpdater):
 
             tech_ds.coords["nodes"] = node_name
             for ref_var in node_ref_vars:
-                tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
+                # References made only by deactivated technologies are not in the dataset.
+                if ref_var in tech_ds.data_vars:
+                    tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
             for ref_var in ["carrier_in", "carrier_out"]:
                 if ref_var in tech_ds.data_vars:
                     tech_ds[ref_var] = tech_ds[ref_var].expand_dims("nodes")
-- 
2.43.0


From 450936e0be0b4c4cf51d72a1b14270ebb9683bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 20/29] fix: load data tables over nodes for a deactivated
 technology

---
 src/calliope/preprocess/data_tables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 1f9b161..56f6d10 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -125,6 +125,8 @@ class DataTable:
             except KeyError:
                 continue
             for tech in techs_this_node:
+                if tech not in techs_incl_inheritance:
+                    continue  # deactivated
                 if (
                     techs_incl_inheritance[tech].get("base_tech", None)
                     == "transmission"
-- 
2.43.0


From 0fbb59564b5c4b3d84092f0e5bef7089582fec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 21/29] fix: booleans in a file column shared with other data
 keep their value

---
 src/calliope/preprocess/data_tables.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 56f6d10..1b8cca3 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -27,6 +27,14 @@ class DataTable:
 
     MESSAGE_TEMPLATE = "(data_tables, {name}) | {message}."
     PARAMS_TO_INITIALISE_YAML = ["base_tech", "link_to", "link_from"]
+    BOOL_TEXT = {
+        "True": True,
+        "TRUE": True,
+        "true": True,
+        "False": False,
+        "FALSE": False,
+        "false": False,
+    }
 
     def __init__(
         self,
@@ -275,6 +283,12 @@ class DataTable:
         else:
             tdf = df
 
+        if tdf.dtype.kind == "O":
+            # Booleans are still text if they share a file column with other data.
+            tdf = tdf.map(
+                lambda x: self.BOOL_TEXT.get(x, x) if isinstance(x, str) else x
+            )
+
         if self.input.select is not None:
             selector = tuple(
                 (
-- 
2.43.0


From b76127f7db56b3d561b3b7d43cd03c2c9e57500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:29 +0000
Subject: [PATCH 22/29] fix: one_way given in a data table makes the link
 one-way

---
 src/calliope/preprocess/data_tables.py | 2 +-
 src/calliope/preprocess/model_data.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/data_tables.py b/src/calliope/preprocess/data_tables.py
index 1b8cca3..8bb5b1d 100644
--- a/src/calliope/preprocess/data_tables.py
+++ b/src/calliope/preprocess/data_tables.py
@@ -26,7 +26,7 @@ class DataTable:
     """Class for in memory data handling."""
 
     MESSAGE_TEMPLATE = "(data_tables, {name}) | {message}."
-    PARAMS_TO_INITIALISE_YAML = ["base_tech", "link_to", "link_from"]
+    PARAMS_TO_INITIALISE_YAML = ["base_tech", "link_to", "link_from", "one_way"]
     BOOL_TEXT = {
         "True": True,
         "TRUE": True,
diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index a5d8e5a..97352aa 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -165,7 +165,7 @@ class ModelDataBuilder(ModelDTypeUpdater):
                 self.model_definition.get("techs", AttrDict()), allow_override=True
             )
             self.model_definition["techs"] = tech_dict
-            self.tech_data_from_tables.union(base_tech_data)
+            self.tech_data_from_tables.union(base_tech_data, allow_override=True)
 
         techs_incl_inheritance = self._inherit_defs("techs")
         for data_table in data_tables:
-- 
2.43.0


From 9b8e57f4bd97cf5042497604035ba56bc0c000ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:01 +0000
Subject: [PATCH 23/29] fix: coordinates of which one is an integer and the
 other is not are refused

---
 src/calliope/schemas/dimension_data_schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/schemas/dimension_data_schema.py b/src/calliope/schemas/dimension_data_schema.py
index a4e1062..f187730 100644
--- a/src/calliope/schemas/dimension_data_schema.py
+++ b/src/calliope/schemas/dimension_data_schema.py
@@ -103,9 +103,9 @@ class CalliopeNode(DimensionData):
     @model_validator(mode="after")
     def check_dependent_definitions(self) -> Self:
         """Ensure dependent settings are defined."""
-        if type(self.latitude) is not type(self.longitude):
+        if (self.latitude is None) is not (self.longitude is None):
             raise ValueError(
-                f"Invalid latitude/longitude definition. Types must match, found ({self.latitude}, {self.longitude})."
+                f"Invalid latitude/longitude definition. Both or neither must be defined, found ({self.latitude}, {self.longitude})."
             )
         return self
 
-- 
2.43.0


From 8821cde2d89b1003bee7acaeb8dfc8faf93609d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 24/29] fix: resampling to a single timestep keeps the modelled
 duration

---
 src/calliope/preprocess/model_data.py |  4 +++-
 src/calliope/preprocess/time.py       | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index 97352aa..eb50bf3 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -806,7 +806,9 @@ class ModelDataCleaner(ModelDTypeUpdater):
             runtime_updater["resample"] = self.config.resample.model_dump()
 
         if not self.runtime.instantiated:
-            self.dataset = time.add_inferred_time_params(self.dataset)
+            self.dataset = time.add_inferred_time_params(
+                self.dataset, self.config.resample.root.get("timesteps")
+            )
 
         if self.runtime.time_cluster is None and self.config.time_cluster is not None:
             self.dataset = time.cluster(
diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index ddd4d10..cacb4e4 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -15,11 +15,14 @@ from calliope.schemas.math_schema import CalliopeBuildMath
 LOGGER = logging.getLogger(__name__)
 
 
-def add_inferred_time_params(model_data: xr.Dataset):
+def add_inferred_time_params(
+    model_data: xr.Dataset, resample_resolution: str | None = None
+):
     """Add timestep_resolution.
 
     Done by ooking at the time difference between timestep n and timestep n + 1 for all timesteps.
     Last timestep has no n + 1, so will be NaT (not a time), we ffill this.
+    If resampling leaves one timestep only, its length is the resolution resampled to.
     Time resolution is saved in hours (i.e. nanoseconds / 3600e6)
     """
     timestep_resolution = (
@@ -28,7 +31,11 @@ def add_inferred_time_params(model_data: xr.Dataset):
         .rename("timestep_resolution")
     )
 
-    if len(model_data.timesteps) == 1:
+    if len(model_data.timesteps) == 1 and resample_resolution is not None:
+        timestep = model_data.timesteps.to_index()[0]
+        offset = pd.tseries.frequencies.to_offset(resample_resolution)
+        timestep_resolution = timestep_resolution.fillna((timestep + offset) - timestep)
+    elif len(model_data.timesteps) == 1:
         exceptions.warn(
             "Only one timestep defined. Inferring timestep resolution to be 1 hour"
         )
-- 
2.43.0


From 1bf4ceaca6a6e3b3397bcdd5eecba440b26ea840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:28 +0000
Subject: [PATCH 25/29] fix: time subset ending in a month or year that the
 data start in is refused

---
 src/calliope/preprocess/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index cacb4e4..4a6bba6 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -235,7 +235,8 @@ def check_time_subset(ts_index: pd.Index, time_subset: list[str]):
     df_start_time = ts_index[0]
     df_end_time = ts_index[-1]
     if (
-        time_subset_dt[1].date() < df_start_time.date()
+        # The end is inclusive: "2005-01" covers all of January.
+        pd.Period(time_subset[1]).end_time.date() < df_start_time.date()
         or time_subset_dt[0].date() > df_end_time.date()
     ):
         raise exceptions.ModelError(
-- 
2.43.0


From 4f3a55b796a71a0daadc05d623070973542f1d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:22 +0000
Subject: [PATCH 26/29] fix: inter-cluster storage counts the initial storage
 of non-cyclic technologies in every day of the first cluster

---
 src/calliope/math/storage_inter_cluster.yaml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/calliope/math/storage_inter_cluster.yaml b/src/calliope/math/storage_inter_cluster.yaml
index 1fc91b6..eea24bb 100644
--- a/src/calliope/math/storage_inter_cluster.yaml
+++ b/src/calliope/math/storage_inter_cluster.yaml
@@ -26,7 +26,7 @@ constraints:
     sub_expressions:
       storage_previous_step: &storage_previous_step
         - where: timesteps==get_val_at_index(timesteps=0) AND NOT cyclic_storage==True
-          expression: storage_initial * storage_cap
+          expression: "0"
         - where: >-
             (
               (timesteps==get_val_at_index(timesteps=0) AND cyclic_storage==True)
@@ -100,7 +100,7 @@ constraints:
     sub_expressions:
       storage_previous_step:
         - where: datesteps==get_val_at_index(datesteps=0) AND NOT cyclic_storage==True
-          expression: storage_initial
+          expression: storage_initial * storage_cap
         - where: (datesteps==get_val_at_index(datesteps=0) AND cyclic_storage==True) OR NOT datesteps==get_val_at_index(datesteps=0)
           expression: ((1 - storage_loss) ** 24) * roll(storage_inter_cluster, datesteps=1)
       storage_intra:
-- 
2.43.0


From 9032aaf346f82868bce59fd333d243729c82a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:11 +0000
Subject: [PATCH 27/29] fix: clustering lookups are wrong for days not starting
 at midnight and for datetime cluster data

---
 src/calliope/preprocess/time.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/calliope/preprocess/time.py b/src/calliope/preprocess/time.py
index 4a6bba6..bd5f687 100644
--- a/src/calliope/preprocess/time.py
+++ b/src/calliope/preprocess/time.py
@@ -148,12 +148,12 @@ def cluster(data: xr.Dataset, clustering_param: str, time_format: str):
             `data` clustered according to contents of `clustering_file`.
 
     """
-    clustering_timeseries = data[clustering_param].to_series()
+    clustering_timeseries = data[clustering_param].to_series().dropna()
     if pd.api.types.is_datetime64_dtype(clustering_timeseries):
         representative_days = clustering_timeseries.dt.date
     else:
         representative_days = _datetime_index(
-            clustering_timeseries.dropna() + " 00:00:00", time_format
+            clustering_timeseries + " 00:00:00", time_format
         ).dt.date
 
     grouper = representative_days.to_frame("clusters").groupby("clusters")
@@ -275,12 +275,12 @@ def _lookup_clusters(dataset: xr.Dataset, grouper: pd.Series) -> xr.Dataset:
     dataset["cluster_first_timestep"] = dataset.timesteps.isin(
         dataset.timesteps.groupby("timesteps.date").first()
     )
-    dataset["lookup_cluster_last_timestep"] = (
-        dataset.timesteps.groupby("timesteps.date")
-        .last()
-        .rename({"date": "timesteps"})
-        .reindex_like(dataset.timesteps)
-    )
+    timesteps_by_date = dataset.timesteps.groupby("timesteps.date")
+    # Only the first timestep of each cluster has a value. It is not necessarily midnight.
+    dataset["lookup_cluster_last_timestep"] = xr.DataArray(
+        timesteps_by_date.last().values,
+        coords={"timesteps": timesteps_by_date.first().values},
+    ).reindex_like(dataset.timesteps)
 
     dataset["lookup_datestep_cluster"] = xr.DataArray(
         grouper.ngroup(), dims="datesteps"
-- 
2.43.0


From 88004d9e009b4fa368bb99059bec1467cbd03fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 28/29] fix: datetime data in an in-memory table cannot be
 loaded

---
 src/calliope/preprocess/model_data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/calliope/preprocess/model_data.py b/src/calliope/preprocess/model_data.py
index eb50bf3..da4196e 100644
--- a/src/calliope/preprocess/model_data.py
+++ b/src/calliope/preprocess/model_data.py
@@ -571,11 +571,16 @@ class ModelDataBuilder(ModelDTypeUpdater):
         to_add_update_dim_dtype = to_add.assign_coords(
             self._update_dtypes(to_add.coords, id_)
         )
-        self.dataset = xr.merge(
+        updated = xr.merge(
             [to_add_update_dim_dtype, self.dataset],
             combine_attrs="no_conflicts",
             compat="override",
-        ).fillna(self.dataset)
+        )
+        # Only data in both needs filling (there is no missing value to fill datetime data with).
+        in_both = [name for name in to_add.data_vars if name in self.dataset.data_vars]
+        self.dataset = updated.assign(
+            updated[in_both].fillna(self.dataset[in_both]).data_vars
+        )
 
     def _log_input_data_updates(self, name: str, input_data_da: xr.DataArray):
         """Logger for model input data updates.
-- 
2.43.0


From 7fadf288e55ef9644a77049f9e2c0879506dfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 29/29] fix: shadow prices of an earlier solve are reported for
 a later one

---
 src/calliope/backend/pyomo_backend_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calliope/backend/pyomo_backend_model.py b/src/calliope/backend/pyomo_backend_model.py
index 59375c4..9a64a52 100644
--- a/src/calliope/backend/pyomo_backend_model.py
+++ b/src/calliope/backend/pyomo_backend_model.py
@@ -343,6 +343,8 @@ class PyomoBackendModel(backend_model.BackendModel, metaclass=SelectiveWrappingM
                 "Switching off shadow price tracker as constraint duals cannot be accessed from the CBC solver"
             )
             self.shadow_prices.deactivate()
+        # Shadow prices of an earlier solve do not apply to this one
+        self._instance.dual.clear()
         opt = SolverFactory(solve_config.solver, solver_io=solve_config.solver_io)
 
         if solve_config.solver_options:
-- 
2.43.0

