From 7b0746e780c3fc821eb8e741dbc826c3bc397fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 01/71] fix: truncated uniform RVs honour one-sided limits and
 their own bounds

---
 pelicun/uq.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..4391c79 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1881,8 +1881,10 @@ class UniformRandomVariable(RandomVariable):
         if np.isnan(b):
             b = np.inf
 
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        # a missing (NaN) truncation limit leaves the bound unchanged
+        tr_a, tr_b = self.truncation_limits
+        a = np.fmax(a, tr_a)
+        b = np.fmin(b, tr_b)
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1911,8 +1913,10 @@ class UniformRandomVariable(RandomVariable):
         if np.isnan(b):
             b = np.inf
 
-        if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+        # a missing (NaN) truncation limit leaves the bound unchanged
+        tr_a, tr_b = self.truncation_limits
+        a = np.fmax(a, tr_a)
+        b = np.fmin(b, tr_b)
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From 2f522f683a5e9c44cd730840ed15b65cd1e65469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 02/71] fix: Normal_COV RVs with a negative mean get a positive
 standard deviation

---
 pelicun/uq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 4391c79..25f4933 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1695,7 +1695,7 @@ class Normal_COV(NormalRandomVariable):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
-        std = mean * cov
+        std = np.abs(mean) * cov
         theta = np.array([mean, std])
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
-- 
2.43.0


From 9a4639f5b01243d921224e4b4342abccd92d9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 03/71] fix: lognormal CDF with a non-positive lower truncation
 limit is not NaN

---
 pelicun/uq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 25f4933..a968f87 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1750,6 +1750,7 @@ class LogNormalRandomVariable(RandomVariable):
 
             # Replace NaN values
             a = np.nan_to_num(a, nan=FIRST_POSITIVE_NUMBER)
+            a[a <= 0] = FIRST_POSITIVE_NUMBER
             b = np.nan_to_num(b, nan=np.inf)
 
             p_a, p_b = (
-- 
2.43.0


From afa1e7183052c7e03f08eb433a93cddb867080d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 04/71] fix: sampling a multinomial RV does not overwrite its
 uniform sample

---
 pelicun/uq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index a968f87..44441b8 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2474,6 +2474,8 @@ class MultinomialRandomVariable(RandomVariable):
         """
         p_cum = np.cumsum(self.theta)[:-1]
 
+        # the uniform sample belongs to the caller: work on a copy
+        values = values.copy()
         for i, p_i in enumerate(p_cum):
             values[values < p_i] = 10 + i
         values[values <= 1.0] = 10 + len(p_cum)
-- 
2.43.0


From 2c9173fb1c5ed588604fc69048218356ebb08e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 05/71] fix: row-oriented tables are converted to user units
 when saved

---
 pelicun/file_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 518758a..897cea5 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -187,7 +187,10 @@ def save_to_csv(  # noqa: C901
 
         # if the orientation is 1, we might not need to scale all columns
         if orientation == 1:
-            cols_to_scale_bool = [dt in {float, int} for dt in data.dtypes]
+            cols_to_scale_bool = [
+                pd.api.types.is_float_dtype(dt) or pd.api.types.is_integer_dtype(dt)
+                for dt in data.dtypes
+            ]
             cols_to_scale = data.columns[cols_to_scale_bool]
 
         labels_to_keep = []
-- 
2.43.0


From ec6b12d33098194287c9e99b2e46c50bef84ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 06/71] fix: normal random variables with one parameter row per
 realization

Normal_STD and Normal_COV unpacked the first two rows of theta instead of
its first two columns when parameters vary by realization, e.g., after a
capacity adjustment with a list of operations.
---
 pelicun/uq.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 44441b8..c31872a 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1655,8 +1655,9 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        # `theta` can have one row per realization
+        mean, std = np.asarray(theta).T[:2]
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1688,15 +1689,16 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        # `theta` can have one row per realization
+        mean, cov = np.asarray(theta).T[:2]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
         std = np.abs(mean) * cov
-        theta = np.array([mean, std])
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
-- 
2.43.0


From ed66396d35ef8626629e783f18fccc6ff920662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 07/71] fix: deterministic random variables with one value per
 realization

The whole first row of theta was used instead of the value of each
realization, e.g., after a capacity adjustment with a list of operations.
---
 pelicun/uq.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index c31872a..a761914 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -2404,6 +2404,10 @@ class DeterministicRandomVariable(UtilityRandomVariable):
           Sample array containing the deterministic value.
 
         """
+        if self.theta.ndim > 1:
+            # one value per realization
+            return np.broadcast_to(self.theta[:, 0], sample_size).copy()
+
         return np.full(sample_size, self.theta[0])
 
 
-- 
2.43.0


From 8ff91d3a15c8d30a084b1571eb04135c0819130c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 08/71] fix: components without a demand expression next to
 ones with an expression

The missing value in the Expression column was treated as an expression.
---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..801edd1 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1290,6 +1290,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # no expression specified for this component
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 88815d391acd0bcc119e0b45f36fc2f4baee2487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 09/71] fix: demand expressions that use the same demand more
 than once

Repeated demands were stored under one key, which shifted the remaining
terms of the expression.
---
 pelicun/model/demand_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 801edd1..e5ebe3b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1439,7 +1439,7 @@ def _assemble_required_demand_data(
     demand_dict = {}
 
     for edps, expression in required_edps:
-        edp_values = {}
+        edp_values = []
 
         for edp in edps:
             edp_type, location, direction = edp.split('-')
@@ -1475,13 +1475,13 @@ def _assemble_required_demand_data(
                 # directional
                 demand = demand_sample[edp_type, location, direction].to_numpy()
 
-            edp_values[edp] = demand
+            edp_values.append(demand)
 
         # evaluate expression
         if expression is not None:
             # build a dict of values
             value_dict = {}
-            for i, edp_value in enumerate(edp_values.values()):
+            for i, edp_value in enumerate(edp_values):
                 value_dict[f'X{i + 1}'] = edp_value
             demand = ne.evaluate(
                 _clean_up_expression(expression), local_dict=value_dict
-- 
2.43.0


From 9318679414fb5a4cd4df8a7667550cc6fe4c5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 10/71] fix: limit states are evaluated in order of severity

With ten or more limit states, the alphabetical order was used: LS10 was
assigned the second damage state and LS2 took precedence over it.
---
 pelicun/model/damage_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..79ea25c 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1123,7 +1123,11 @@ class DamageModel_DS(DamageModel_Base):
         )
 
         # get a list of limit state ids among all components in the damage model
-        ls_list = dmg_eval.columns.get_level_values(5).unique()
+        # in order of severity: LS10 comes after LS9
+        ls_list = sorted(
+            dmg_eval.columns.get_level_values(5).unique(),
+            key=lambda ls_id: (len(ls_id), ls_id),
+        )
 
         # for each consecutive limit state...
         for ls_id in ls_list:
@@ -1442,6 +1446,8 @@ class DamageModel_DS(DamageModel_Base):
                 for val in frg_params.index.get_level_values(0).unique():
                     if 'LS' in val:
                         limit_states.append(val[2:])  # noqa: PERF401
+                # in order of severity: LS10 comes after LS9
+                limit_states.sort(key=lambda ls_id: (len(ls_id), ls_id))
 
                 ds_id = 0
 
-- 
2.43.0


From 9553e770fb8cea7bb9e37f24b2989f358912c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 11/71] fix: multilinear_CDF capacities for performance groups
 with several blocks

The parameters were parsed again, from their parsed form, for the second
block.
---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 79ea25c..9a8d205 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1517,6 +1517,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1546,21 +1561,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From 0ca501368799178cee639e9ea6665820315e02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 12/71] fix: damage process tasks are ordered by their number

Task 10 was performed before task 2.
---
 pelicun/model/damage_model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 9a8d205..8cb3e47 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,17 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by the number in the
+            # beginning of their name
+            def task_order(key: str) -> tuple:
+                number = key.split('_')[0]
+                if number.isdecimal():
+                    return (0, int(number), key)
+                return (1, 0, key)
+
+            dmg_process = {
+                key: dmg_process[key] for key in sorted(dmg_process, key=task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
-- 
2.43.0


From 71e6ec1ef091de21807abd139021d67e5c2790af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 13/71] fix: component names with an underscore in damage
 processes

Names were cut at the underscore, although the documented example of a
task is 1_CMP_A.
---
 pelicun/model/damage_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 8cb3e47..7a4d8d6 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1763,7 +1763,7 @@ class DamageModel_DS(DamageModel_Base):
             self.log.msg(f'Applying task {task}...', prepend_timestamp=True)
 
         # parse task
-        source_cmp = task[0].split('_')[1]  # source component
+        source_cmp = task[0].split('_', 1)[1]  # source component
         events = task[1]  # prescribed events
 
         # check for the `-LOC` suffix. If this is the case, we need to
@@ -1805,7 +1805,7 @@ class DamageModel_DS(DamageModel_Base):
 
             for target_info in target_infos:
                 # get the target component and event type
-                target_cmp, target_event = target_info.split('_')
+                target_cmp, target_event = target_info.rsplit('_', 1)
 
                 if (target_cmp != 'ALL') and (
                     target_cmp not in self.ds_sample.columns.get_level_values('cmp')
-- 
2.43.0


From a45d3ffa41f14c7b88d796429464c925b033dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 14/71] fix: damage state probabilities when no realization was
 evaluated

The table could not be built if every value was NA.
---
 pelicun/model/damage_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 7a4d8d6..e27424a 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -753,7 +753,7 @@ class DamageModel_DS(DamageModel_Base):
             values = values[values != -1]
             if len(values) == 0:
                 # can't determine without a sample
-                probabilities[col] = np.nan
+                probabilities[col] = pd.Series(dtype='float64')
             else:
                 vcounts = values.value_counts() / len(values)
                 probabilities[col] = vcounts  # type: ignore
-- 
2.43.0


From b7c1f18493b722f420bb02955acea618a9af6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 15/71] fix: redefinitions of loss parameters are ignored

Values missing from the first definition of a loss model were filled in
from later definitions of the same component.
---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..3391491 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1655,7 +1655,9 @@ class RepairModel_Base(PelicunModel):
 
         # drop redefinitions of components
         data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
+            data.groupby(level=[0, 1])
+            .first(skipna=False)
+            .transform(lambda x: x.fillna(np.nan))
         )
         # note: .groupby introduces None entries. We replace them with
         # NaN for consistency.
-- 
2.43.0


From a4b67f9db4b0c436c777b440b8c31630b7bf7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 16/71] fix: economies of scale that do not apply across floors

With EconomiesOfScale/AcrossFloors turned off, locations were mistaken for
damage states and the loss calculation failed.
---
 pelicun/model/loss_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 3391491..1d9e009 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1944,8 +1944,8 @@ class RepairModel_DS(RepairModel_Base):
             eco_columns = ['cmp', 'loc']
 
         else:
-            eco_levels = [0, 1, 4]
-            eco_columns = ['cmp', 'loc', 'ds']
+            eco_levels = [0, 4, 1]
+            eco_columns = ['cmp', 'ds', 'loc']
 
         eco_group = dmg_quantities.T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
@@ -2488,7 +2488,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From cd84cb795aad091ca87f62bac41a9cfaa245a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 17/71] fix: undamaged quantities do not contribute to
 economies of scale

With EconomiesOfScale/AcrossDamageStates turned on, the aggregated damaged
quantity included the undamaged part of the component.
---
 pelicun/model/loss_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1d9e009..95619f4 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1947,7 +1947,9 @@ class RepairModel_DS(RepairModel_Base):
             eco_levels = [0, 4, 1]
             eco_columns = ['cmp', 'ds', 'loc']
 
-        eco_group = dmg_quantities.T.groupby(level=eco_levels)
+        # undamaged quantities are not repaired
+        damaged = dmg_quantities.columns.get_level_values('ds') != '0'
+        eco_group = dmg_quantities.loc[:, damaged].T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
 
-- 
2.43.0


From 1c1dae925aa12772927f34c22f613e3f5e1a6733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:16 +0000
Subject: [PATCH 18/71] fix: economies of scale across damage states with a
 damage state missing

The loss calculation failed if a damage state with consequences was not
observed in the damage sample.
---
 pelicun/model/loss_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 95619f4..80ca64d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2012,6 +2012,7 @@ class RepairModel_DS(RepairModel_Base):
             ['cmp', 'ds', 'loc', 'dir', 'uid']
         )
         dmg_quantities = dmg_quantities.sort_index(axis=1)
+        available_ds = set(dmg_quantities.columns.droplevel(['loc', 'dir', 'uid']))
 
         if std_sample is not None:
             std_dvs = std_sample.columns.unique(level=0)
@@ -2043,6 +2044,10 @@ class RepairModel_DS(RepairModel_Base):
                     .loc[:, component]
                     .columns.unique(level=0)
                 ):
+                    if (component, ds) not in available_ds:
+                        # no component is in this damage state
+                        continue
+
                     loc_list = []
 
                     for loc_id, loc in enumerate(
-- 
2.43.0


From 1c47fbf9ae504faed6150413f8fa0c8949a05c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 19/71] fix: components with random consequences in some of
 their damage states only

---
 pelicun/model/loss_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 80ca64d..9a75d9d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2022,9 +2022,13 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                prob_cmp_list = set(
+                    std_sample[decision_variable].columns.droplevel(
+                        ['loc', 'dir', 'uid']
+                    )
+                )
             else:
-                prob_cmp_list = []
+                prob_cmp_list = set()
 
             cmp_list: list[tuple[Any, ...]] = []
 
@@ -2068,7 +2072,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2089,7 +2093,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_list:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From c0abec5095af7cef7407b5594ddb36abd0c0d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 20/71] fix: damage without any consequence does not stop the
 loss calculation

---
 pelicun/model/loss_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 9a75d9d..6b9a874 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2139,6 +2139,14 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'There are no consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-- 
2.43.0


From 467de199f8f9708d2949a6afaab3e41290400408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:04 +0000
Subject: [PATCH 21/71] fix: replacement consequences exclude the other losses
 when aggregating

---
 pelicun/model/loss_model.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6b9a874..c6fedda 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -132,18 +132,24 @@ class LossModel(PelicunModel):
 
         # If both are not None, combine
 
-        ds_model_levels = self.ds_model.sample.columns.names
+        return self._combine_samples(self.ds_model.sample, self.lf_model.sample)
+
+    @staticmethod
+    def _combine_samples(
+        ds_sample: pd.DataFrame, lf_sample: pd.DataFrame
+    ) -> pd.DataFrame:
+        ds_model_levels = ds_sample.columns.names
 
         # add a `ds` level to the lf_model sample
-        new_index = self.lf_model.sample.columns.to_frame(index=False)
+        new_index = lf_sample.columns.to_frame(index=False)
         # add
         new_index['ds'] = 'N/A'
         # reorder
         new_index = new_index[ds_model_levels]
         new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
+        lf_sample.columns = new_multiindex
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat((ds_sample, lf_sample), axis=1)
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
@@ -918,7 +924,13 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
+        if ds_sample is None:
+            combined_sample = lf_sample
+        elif lf_sample is None:
+            combined_sample = ds_sample
+        else:
+            combined_sample = self._combine_samples(ds_sample, lf_sample)
+        assert combined_sample is not None
         sample = (
             combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
         )
-- 
2.43.0


From b378507b1ed830e63a3437c7ab641d36fe1f1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 22/71] fix: loss functions of components mapped to a
 consequence with another name

---
 pelicun/model/loss_model.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index c6fedda..f2455f2 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2590,7 +2590,10 @@ class RepairModel_LF(RepairModel_Base):
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                if (
+                    loss_map[component],
+                    decision_variable,
+                ) not in self.loss_params.index:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2610,9 +2613,16 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # get the parameters of the consequence assigned to each component
+        component_dvs = performance_group.index.unique(level='cmp').to_list()
+        component_parameters = self.loss_params.loc[
+            [(loss_map[component], dv) for component, dv in component_dvs], :
+        ]
+        component_parameters.index = pd.MultiIndex.from_tuples(component_dvs)
+
         required_edps = base.invert_mapping(
             _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
+                component_parameters, performance_group, demand_offset
             )
         )
 
@@ -2784,12 +2794,12 @@ class RepairModel_LF(RepairModel_Base):
         ), blocks in performance_group['Blocks'].items():
             consequence = loss_map[component]
             edp = required_edps[
-                (consequence, decision_variable), location, direction, uid
+                (component, decision_variable), location, direction, uid
             ]
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From bd5c395c29a1ee89daeafcd9fd88d663b51f5014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 23/71] fix: losses are combined wherever the components are
 available, in the order of the table

---
 pelicun/model/loss_model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index f2455f2..6c817c0 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1168,21 +1168,21 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
-                    # check if `components_to_combine` is a subset of
-                    # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                # find all `loc`-`dir`-`uid`s where the components to
+                # combine are available, possibly with other
+                # components
+                loc_dir_uids = [
+                    loc_dir_uid
+                    for group, members in potential_groups[decision_variable].items()
+                    if frozenset(components_to_combine) <= group
+                    for loc_dir_uid in members
+                ]
+                assert loc_dir_uids
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in loc_dir_uids:
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
                     values = np.column_stack([dsample[col] for col in cols])
                     # define/get interpolation function
-- 
2.43.0


From b0f9add8badfec1e29dfa8d32b7f989d602f972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 24/71] fix: combination of the losses of more than two
 components

---
 pelicun/model/loss_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 6c817c0..aa354b9 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1310,9 +1310,14 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                combination_index = tuple(
+                    combination_array[
+                        tuple(
+                            slice(None) if other_axis == axis else 0
+                            for other_axis in range(combination_array.ndim)
+                        )
+                    ]
+                    for axis in range(combination_array.ndim)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From c39a8e32ec881b60b64608e7241bc608966d6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 25/71] fix: replacement thresholds for decision variables
 without any loss

---
 pelicun/model/loss_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index aa354b9..593b1e2 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1424,6 +1424,9 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            if sample_dv not in sample.columns.get_level_values('dv'):
+                # no losses, the threshold is not exceeded
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From f885b668fa04a936c6003290a594d0335fb795ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 26/71] fix: aggregation supports decision variables with any
 name

---
 pelicun/model/loss_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 593b1e2..a6adf92 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1373,7 +1373,8 @@ class LossModel(PelicunModel):
             for x in df_agg.columns.get_level_values(0)
         ]
         assert self.dv_units is not None
-        column_units = [self.dv_units[x.title()] for x in column_measures]
+        measure_units = {dv.lower(): unit for dv, unit in self.dv_units.items()}
+        column_units = [measure_units[x] for x in column_measures]
         dv_units = pd.Series(column_units, index=df_agg.columns, name='Units')
         res = file_io.save_to_csv(
             df_agg,
-- 
2.43.0


From dbff3e7fad77e7e8b70b9147953c0ecc4aa6f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 27/71] fix: convert each row of the component model with its
 own unit

---
 pelicun/model/asset_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..38c7a75 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -333,7 +333,7 @@ class AssetModel(PelicunModel):
         # group units by cmp id to avoid redundant entries
         self.cmp_units = units.copy().groupby(level=0).first()
 
-        marginal_params = pd.concat([marginal_params, units], axis=1)
+        marginal_params = pd.concat([marginal_params, units.rename('Units')], axis=1)
 
         cmp_marginal_param_dct: dict[str, list[Any]] = {
             'Family': [],
@@ -362,7 +362,7 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    cmp_marginal_param.extend([row.Units] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From 4e6918c305b3da1bb0f8951ca109a622d7d34de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 28/71] fix: let a missing direction stand for direction 1 as
 documented

---
 pelicun/model/asset_model.py   | 4 +++-
 pelicun/model/pelicun_model.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 38c7a75..ab8397e 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -348,7 +348,9 @@ class AssetModel(PelicunModel):
         index_list = []
         for row in marginal_params.itertuples():
             locs = self._get_locations(str(row.Location))
-            dirs = self._get_directions(str(row.Direction))
+            dirs = self._get_directions(
+                None if pd.isna(row.Direction) else str(row.Direction)
+            )
             indices = list(product((row.Index,), locs, dirs))
             num_vals = len(indices)
             for col, cmp_marginal_param in cmp_marginal_param_dct.items():
diff --git a/pelicun/model/pelicun_model.py b/pelicun/model/pelicun_model.py
index 767a8e1..99ddf11 100644
--- a/pelicun/model/pelicun_model.py
+++ b/pelicun/model/pelicun_model.py
@@ -404,7 +404,7 @@ class PelicunModel:
 
         """
         if pd.isna(dir_str):
-            return np.ones(1).astype(str)
+            return np.array(['1'])
 
         try:
             res = str(int(float(dir_str)))  # type: ignore
-- 
2.43.0


From 2010b20b916e8ab915122aed532657af828ca41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 29/71] fix: load_model uses the empirical data it is given,
 and only those

---
 pelicun/model/demand_model.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index e5ebe3b..f3e665b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -891,19 +891,22 @@ class DemandModel(PelicunModel):
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
 
+        # the file with empirical data is optional
+        if (
+            isinstance(empirical_data_source, str)
+            and not Path(empirical_data_source).exists()
+        ):
+            empirical_data_source = None
+
         if empirical_data_source is not None:
-            if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
-            ):
-                empirical_data = file_io.load_data(
-                    empirical_data_source,
-                    self._asmnt.unit_conversion_factors,
-                    log=self._asmnt.log,
-                )
-                assert isinstance(empirical_data, pd.DataFrame)
-                self.empirical_data = empirical_data
-                self.empirical_data.columns.names = ['type', 'loc', 'dir']
+            empirical_data = file_io.load_data(
+                empirical_data_source,
+                self._asmnt.unit_conversion_factors,
+                log=self._asmnt.log,
+            )
+            assert isinstance(empirical_data, pd.DataFrame)
+            self.empirical_data = empirical_data
+            self.empirical_data.columns.names = ['type', 'loc', 'dir']
         else:
             self.empirical_data = None
 
-- 
2.43.0


From 40bb4dccd061144f2ae82d15b6528fcc25b94aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 30/71] fix: a demand model with empirical demands only can be
 loaded again

---
 pelicun/base.py               |  4 ++++
 pelicun/model/demand_model.py | 18 +++++++++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..e53289c 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -844,6 +844,10 @@ def convert_to_MultiIndex(  # noqa: N802
         msg = f'Invalid axis parameter: {axis}'
         raise ValueError(msg)
 
+    # there is nothing to convert in an empty index
+    if not index_labels:
+        return data
+
     max_lbl_len = np.max([len(labels) for labels in index_labels])
 
     for l_i, labels in enumerate(index_labels):
diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f3e665b..d83060d 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -918,13 +918,17 @@ class DemandModel(PelicunModel):
                 log=self._asmnt.log,
             )
             assert isinstance(correlation, pd.DataFrame)
-            self.correlation = correlation
-            self.correlation.index = self.correlation.index.set_names(
-                ['type', 'loc', 'dir']
-            )
-            self.correlation.columns = self.correlation.columns.set_names(
-                ['type', 'loc', 'dir']
-            )
+            if correlation.empty:
+                # no variables are correlated
+                self.correlation = None
+            else:
+                self.correlation = correlation
+                self.correlation.index = self.correlation.index.set_names(
+                    ['type', 'loc', 'dir']
+                )
+                self.correlation.columns = self.correlation.columns.set_names(
+                    ['type', 'loc', 'dir']
+                )
         else:
             self.correlation = None
 
-- 
2.43.0


From 3b55b2661370038b93961908e594ec2f640f540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 31/71] fix: cloned demands keep the unit of their source and
 the names of the header

---
 pelicun/model/demand_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index d83060d..15bdf2b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1124,13 +1124,16 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # units of the copied columns
+        assert self.user_units is not None
+        self.user_units = self.user_units.reindex(self.sample.columns[column_index])
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
+        self.sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=self.sample.columns.names
+        )
         # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
-        assert self.user_units is not None
         self.user_units.index = self.sample.columns
 
     def generate_sample(self, config: dict) -> None:
-- 
2.43.0


From 516322c5dbe040d83ef96028f9cdb7f629dcd1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 32/71] fix: limits set for all demands are not converted again
 with the unit of a demand type

---
 pelicun/model/demand_model.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 15bdf2b..8c7ec0b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -582,7 +582,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
-            # load limits
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
+            # load limits and scale them, if needed
             for lim in (
                 'CensorLower',
                 'CensorUpper',
@@ -592,18 +594,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From d98469b831f9b75043232ab7bf4aa123104e18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 33/71] fix: additional uncertainty of normal demands is a
 standard deviation

---
 pelicun/model/demand_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 8c7ec0b..1b70ee0 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -603,7 +603,7 @@ class DemandModel(PelicunModel):
                 )
 
                 # scale the sig value if the target distribution family is normal
-                if settings['DistributionFamily'] == 'normal':
+                if settings['DistributionFamily'] in {'normal', 'normal_std'}:
                     sig_increase *= scale_factor
 
                 cal_df.loc[list(cols), 'SigIncrease'] = sig_increase
@@ -776,8 +776,16 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
+            # The second parameter of the normal family is a coefficient of
+            # variation, but the additional uncertainty is a standard deviation.
+            scale = np.where(
+                model_params['Family'] == 'normal',
+                np.abs(model_params['Theta_0'].to_numpy()),
+                1.0,
+            )
+
             model_params.loc[:, 'Theta_1'] = np.sqrt(
-                sig_0**2.0 + sig_inc**2.0,  # type: ignore
+                sig_0**2.0 + (sig_inc / scale) ** 2.0,  # type: ignore
             )
 
         # remove unneeded fields from model_params
-- 
2.43.0


From c724dcd920ce27f481dfbad5b930959660fb0a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 34/71] fix: fitting a lognormal distribution to integers does
 not truncate their logarithms

---
 pelicun/uq.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index a761914..8d7f396 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -774,9 +774,10 @@ def fit_distribution_to_sample(  # noqa: C901
         If NaN values are produced during standard normal space transformation
 
     """
-    samples = np.atleast_2d(raw_sample)
-    tr_limits = np.atleast_2d(truncation_limits)
-    det_limits = np.atleast_2d(detection_limits)
+    # the transformed data and limits are not integers, even if the inputs are
+    samples = np.atleast_2d(np.asarray(raw_sample, dtype=float))
+    tr_limits = np.atleast_2d(np.asarray(truncation_limits, dtype=float))
+    det_limits = np.atleast_2d(np.asarray(detection_limits, dtype=float))
     dist_list = np.atleast_1d(distribution)
     n_dims, n_samples = samples.shape
 
-- 
2.43.0


From 1dafe2dc82171debdd49da6ed060592d1220f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 35/71] fix: collapse limits can be given as integers

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..9f7ee4b 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -659,7 +659,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, int, float))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From 05f0b11e7de9b36220c9bfddc89384c43a13089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 36/71] fix: inferring residual drifts does not alter the
 configuration

---
 pelicun/assessment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 9f7ee4b..22b946c 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,7 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            residual_drift_inference = residual_drift_inference.copy()
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From 44da222d0d349c3ef2e59edc7c1c8d94d73c8e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 37/71] fix: collapse can be driven by floor accelerations and
 velocities

---
 pelicun/assessment.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 22b946c..65305f2 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1032,7 +1032,6 @@ class DLCalculationAssessment(AssessmentBase):
                 coll_cmp_name = 'collapse'
 
             adf.loc[coll_cmp_name, ('Demand', 'Directional')] = 1
-            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = 0
 
             coll_dem = collapse_fragility['DemandType']
 
@@ -1059,6 +1058,13 @@ class DLCalculationAssessment(AssessmentBase):
                 )
                 raise ValueError(msg)
 
+            # the locations are those of the demands: cancel the offset
+            # that is added to the locations of some demand types
+            demand_offset = self.options.demand_offset or {}
+            adf.loc[coll_cmp_name, ('Demand', 'Offset')] = -demand_offset.get(
+                coll_dem, 0
+            )
+
             if coll_dem_spec is None:
                 adf.loc[coll_cmp_name, ('Demand', 'Type')] = coll_dem_name
 
-- 
2.43.0


From c8a1c1c30a45151667da580b2b0d9acddfcd85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 38/71] fix: all damage states can be listed without damage
 state weights

---
 pelicun/model/damage_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index e27424a..de6bf40 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1995,7 +1995,7 @@ class DamageModel_DS(DamageModel_Base):
                 # check if the given limit state is defined
                 if not pd.isna(cmp_data[ls, 'Theta_0']):
                     # check if there is only one damage state
-                    if pd.isna(cmp_data[ls, 'DamageStateWeights']):
+                    if pd.isna(cmp_data.get((ls, 'DamageStateWeights'))):
                         ds_count += 1
 
                     else:
-- 
2.43.0


From cb343fda8112f20fa52ed10c9071eebd9241e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 39/71] fix: consequences of a default database can be replaced
 by custom ones

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 65305f2..6d74998 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1351,8 +1351,9 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df, keeping those from the database
+        # that takes precedence
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0


From d2dd9d623ef8aec4760be9abe161733b0dbce0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 40/71] fix: default consequence databases can be referenced by
 their legacy names

---
 pelicun/assessment.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 6d74998..af0ea41 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1531,12 +1531,15 @@ class DLCalculationAssessment(AssessmentBase):
                 if Path(consequence_db_path).is_file():
                     consequence_db.append(consequence_db_path)
 
-                    conseq_df = pd.concat(
-                        [
-                            conseq_df,
-                            self.get_default_data(method_name, 'consequence_repair'),
-                        ]
+                    method_conseq_df = file_io.load_data(
+                        consequence_db_path,
+                        unit_conversion_factors=None,
+                        orientation=1,
+                        reindex=False,
+                        log=self.log,
                     )
+                    assert isinstance(method_conseq_df, pd.DataFrame)
+                    conseq_df = pd.concat([conseq_df, method_conseq_df])
                     assert isinstance(conseq_df, pd.DataFrame)
 
                 else:
-- 
2.43.0


From 7d4ca33ebf031797931ab7dcc859a09ecb29accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 41/71] fix: the losses of collapse in a user-defined loss map
 are kept

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index af0ea41..802e067 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1424,8 +1424,9 @@ class DLCalculationAssessment(AssessmentBase):
 
         # prepare additional loss map entries, if needed
         if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+            for driver in ('collapse', 'irreparable'):
+                if driver not in loss_map.index:
+                    loss_map.loc[driver, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From 4020f813df60c34646267d8564014df0f64b7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 42/71] fix: legacy names of the water and power network
 databases are recognized

---
 pelicun/file_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 897cea5..17055b7 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -86,8 +86,8 @@ legacy_names = {
     'damage_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
     'damage_DB_Hazus_EQ_story': 'Hazus Earthquake - Stories',
     'damage_DB_Hazus_EQ_trnsp': 'Hazus Earthquake - Transportation',
-    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Water',
-    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Power',
+    'damage_DB_Hazus_EQ_water': 'Hazus Earthquake - Potable Water',
+    'damage_DB_Hazus_EQ_power': 'Hazus Earthquake - Electric Power',
     'damage_DB_SimCenter_Hazus_HU_bldg': 'Hazus Hurricane Wind',
     'loss_repair_DB_FEMA_P58_2nd': 'FEMA P-58',
     'loss_repair_DB_Hazus_EQ_bldg': 'Hazus Earthquake - Buildings',
-- 
2.43.0


From fbb0a06a26928830a191418f6883004d2fc0833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 43/71] fix: losses can be aggregated when nothing is damaged

---
 pelicun/model/loss_model.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a6adf92..1b56ec6 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -907,7 +907,30 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            if not future:
+                return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            # return a result for each realization
+            damage_sample = self._asmnt.damage.ds_model.sample
+            index = (
+                pd.RangeIndex(len(damage_sample))
+                if damage_sample is not None
+                else pd.RangeIndex(1)
+            )
+            no_losses = base.convert_to_MultiIndex(
+                pd.DataFrame(0.00, index=index, columns=_construct_columns()), axis=1
+            )
+            assert isinstance(no_losses, pd.DataFrame)
+            no_exceedance = pd.DataFrame(
+                data=False,
+                index=index,
+                columns=(
+                    list(replacement_configuration[0].RV)
+                    if replacement_configuration is not None
+                    else []
+                ),
+                dtype=bool,
+            )
+            return no_losses.sort_index(axis=1), no_exceedance
 
         #
         #  handle `replacement`, regardless of whether
-- 
2.43.0


From 4c17a7f626c6569f3f909dfed5708eca7630500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 44/71] fix: output settings of a calculation do not affect the
 next one

---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..5316584 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -45,6 +45,7 @@ import argparse
 import json
 import os
 import sys
+from copy import deepcopy
 from pathlib import Path
 from time import gmtime, strftime
 from typing import Hashable
@@ -791,9 +792,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -833,7 +834,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -853,7 +854,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From 39cfa258ebe693e19d6766a3f83d89ab35d285af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 45/71] fix: statistics with units are numbers in JSON outputs

---
 pelicun/tools/DL_calculation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 5316584..5a57053 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1057,7 +1057,8 @@ def _create_json_files_if_requested(
                 axis=1,
             )
 
-            data = data.drop(units_key, axis=0)
+            # without the units, all values are numbers
+            data = data.drop(units_key, axis=0).astype(float)
 
             out_dict = convert_df_to_dict(data)
 
-- 
2.43.0


From 5b467d94ca970489a0d26f6aed141ce49e4f1ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 46/71] fix: JSON results of an earlier calculation are removed

---
 pelicun/tools/DL_calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 5a57053..57c5103 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -121,6 +121,8 @@ known_output_files = [
     'DL_summary.csv',
     'DL_summary_stats.csv',
 ]
+# all of them can be available in JSON format, too
+known_output_files += [f'{Path(name).stem}.json' for name in known_output_files]
 
 full_out_config = {
     'Demand': {'Sample': True, 'Statistics': True},
-- 
2.43.0


From 57fea828b6cdbd3b0673cdc0d06fe652838d0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 47/71] fix: results of calculations without losses can be
 saved

---
 pelicun/tools/DL_calculation.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 57c5103..13fe4db 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -1439,12 +1439,19 @@ def _loss_save(  # noqa: C901
         Whether to aggregate colocated components. Default is False.
 
     """
-    out = assessment.loss.save_sample(save_units=True)
-    assert isinstance(out, tuple)
-    repair_sample, repair_units_series = out
-    repair_units = repair_units_series.to_frame().T
+    out_reqs = _parse_requested_output_file_names(output_config)
 
-    if aggregate_colocated:
+    if assessment.loss.sample is not None:
+        out = assessment.loss.save_sample(save_units=True)
+        assert isinstance(out, tuple)
+        repair_sample, repair_units_series = out
+        repair_units = repair_units_series.to_frame().T
+    else:
+        # nothing is damaged, only the aggregate losses are available
+        out_reqs &= {'AggregateSample', 'AggregateStatistics'}
+        repair_sample = repair_units = pd.DataFrame()
+
+    if aggregate_colocated and not repair_sample.empty:
         if 'ds' in repair_units.columns.names:
             uid_levels = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
         else:
@@ -1457,8 +1464,6 @@ def _loss_save(  # noqa: C901
             repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
         )
 
-    out_reqs = _parse_requested_output_file_names(output_config)
-
     if 'Sample' in out_reqs:
         repair_sample_s = repair_sample.copy()
         repair_sample_s = pd.concat([repair_sample_s, repair_units])
-- 
2.43.0


From a4c70d983205fb7a2c3ce81d3ae39899781adb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 48/71] fix: a component sample file is accepted in place of a
 component assignment

---
 pelicun/settings/input_schema.json | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pelicun/settings/input_schema.json b/pelicun/settings/input_schema.json
index 346a9b0..8dac0cb 100644
--- a/pelicun/settings/input_schema.json
+++ b/pelicun/settings/input_schema.json
@@ -168,10 +168,7 @@
             "ComponentDatabasePath": {
               "type": "string"
             }
-          },
-          "required": [
-            "ComponentAssignmentFile"
-          ]
+          }
         },
         "Damage": {
           "type": "object",
-- 
2.43.0


From 388834e47f8ebd95ce6a512b961c05af7a461c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 49/71] fix: buildings that are never damaged have no losses in
 a regional simulation

---
 pelicun/tools/regional_sim.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..e5b5000 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -305,6 +305,15 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
+        # there are no results if none of the buildings is damaged
+        if assessment.loss.sample is None:
+            no_losses = pd.DataFrame(
+                0.0, index=dmg_subset.index, columns=building_ids
+            )
+            for DV_type in ['Cost', 'Time']:  # noqa: N806
+                loss_results[DV_type].append(no_losses)
+            continue
+
         repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
         # aggregate across uid
@@ -337,7 +346,10 @@ def _calculate_losses_hazus_eq(
             grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
 
             # we did not preserve the units for now; we can add them here if needed
-            loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
+            # buildings that are never damaged have no results: their losses are zero
+            loss_results[DV_type].append(
+                grp_repair_dv.reindex(columns=building_ids, fill_value=0.0)
+            )
 
     repair_costs = pd.concat(loss_results['Cost'], axis=1).sort_index(axis=1).T
     repair_times = pd.concat(loss_results['Time'], axis=1).sort_index(axis=1).T
@@ -383,6 +395,19 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
+    # list every building with damage results
+    damage_sample = assessment.damage.save_sample()
+    building_ids = np.unique(
+        damage_sample.columns.get_level_values('loc').astype(int)
+    )
+
+    # there are no results if none of the buildings is damaged
+    if assessment.loss.sample is None:
+        no_losses = pd.DataFrame(
+            0.0, index=building_ids, columns=damage_sample.index
+        )
+        return no_losses, no_losses if 'Time' in decision_variables else None
+
     repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
     # aggregate across uid
@@ -412,14 +437,15 @@ def _calculate_losses_general(
     # - - - -
 
     # prepare the output
+    # buildings that are never damaged have no results: their losses are zero
     repair_costs = grp_repair['Cost']
     repair_costs.columns = repair_costs.columns.astype(int)
-    repair_costs = repair_costs.T
+    repair_costs = repair_costs.reindex(columns=building_ids, fill_value=0.0).T
 
     if 'Time' in decision_variables:
         repair_times = grp_repair['Time']
         repair_times.columns = repair_times.columns.astype(int)
-        repair_times = repair_times.T
+        repair_times = repair_times.reindex(columns=building_ids, fill_value=0.0).T
     else:
         repair_times = None
 
-- 
2.43.0


From 92ed2e5e300bb8a1adb766e2d0e1d54a7dd0a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 50/71] fix: regional simulations assign intensity measures by
 their name

---
 pelicun/tools/regional_sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index e5b5000..0db9653 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -511,7 +511,10 @@ def process_buildings_chunk(
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-    grid_data_sorted = grid_data.sort_index(axis=1)
+    # arrange the data to follow the order of grid points and intensity measures
+    grid_data_sorted = grid_data[
+        [(grid_point, im) for grid_point in grid_points.index for im in im_list]
+    ]
 
     n_realizations = grid_data_sorted.shape[0]
     n_sources = grid_data_sorted.columns.unique(level=0).size
-- 
2.43.0


From 40490484130e08cecc736b5ae9ab6df4ca6d00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 51/71] fix: the auto-population script of the caller is used

---
 pelicun/tools/DL_calculation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 13fe4db..c6d336f 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -316,7 +316,7 @@ def run_pelicun(  # noqa: C901
     config = _parse_config_file(
         config_path_p,
         output_path_p,
-        Path(auto_script_path).resolve() if auto_script_path is not None else None,
+        Path(auto_script_path).resolve() if auto_script_path else None,
         demand_file,
         realizations,
         output_format,
@@ -651,7 +651,11 @@ def _parse_config_file(  # noqa: C901, PLR0912
     if is_unspecified(config, 'DL'):
         dl_method = get(config, 'Applications/DL/ApplicationData/DL_Method')
 
-        if dl_method == 'User-provided Models':
+        if auto_script_path is not None:
+            # use the script of the caller
+            auto_script_paths = [auto_script_path]
+
+        elif dl_method == 'User-provided Models':
             if custom_model_dir is not None:
                 dl_model_folder = custom_model_dir
             else:
-- 
2.43.0


From eb6c97b6ec79274b144e7cb1d6cc9b302d748ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 52/71] fix: several auto-population scripts can be used
 without losses

---
 pelicun/tools/DL_calculation.py | 35 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index c6d336f..8694cbe 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -713,29 +713,22 @@ def _parse_config_file(  # noqa: C901, PLR0912
                 # config is updated.
                 # Requires further updating to make it more generic and support more than
                 # just hurricane wind & surge
-                update(
-                    config_ap,
+                for database in (
                     'DL/Asset/ComponentDatabase',
-                    (
-                        f"{get(config_ap, 'DL/Asset/ComponentDatabase')},"
-                        f"{get(config_ap_i, 'DL/Asset/ComponentDatabase')}"
-                    ),
-                )
-
-                update(
-                    config_ap,
                     'DL/Losses/Repair/ConsequenceDatabase',
-                    (
-                        f"{get(config_ap, 'DL/Losses/Repair/ConsequenceDatabase')},"
-                        f"{get(config_ap_i, 'DL/Losses/Repair/ConsequenceDatabase')}"
-                    ),
-                )
-
-                update(
-                    config_ap,
-                    'DL/Losses/Repair/CombinationMethod',
-                    'Hazus Hurricane',
-                )
+                ):
+                    names = [get(config_ap, database), get(config_ap_i, database)]
+                    names = [name for name in names if name is not None]
+                    if names:
+                        update(config_ap, database, ','.join(names))
+
+                # there is nothing to combine without losses
+                if is_specified(config_ap, 'DL/Losses/Repair'):
+                    update(
+                        config_ap,
+                        'DL/Losses/Repair/CombinationMethod',
+                        'Hazus Hurricane',
+                    )
 
         if is_unspecified(config_ap, 'DL'):
             msg = (
-- 
2.43.0


From 594a7d214a299067f89655264fbe83cdbd3f2736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 53/71] fix: assessment options are used without options from
 the auto-population script

---
 pelicun/tools/DL_calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 8694cbe..99e9377 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -758,6 +758,8 @@ def _parse_config_file(  # noqa: C901, PLR0912
             # extend options defined via the auto-population script to
             # include those in the original `config`
             config_ap['Applications']['DL']['ApplicationData'].pop('Options')
+            if is_unspecified(config_ap, 'DL/Options'):
+                update(config_ap, 'DL/Options', {})
             update_vals(
                 config_ap['DL']['Options'],
                 assessment_options,
-- 
2.43.0


From b22226f8251eb566ccd5cbcc5225f74cb564f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 54/71] fix: wind and flood losses are combined in the order of
 their databases

---
 pelicun/assessment.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 802e067..fd1a78b 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1456,7 +1456,16 @@ class DLCalculationAssessment(AssessmentBase):
             # get the component names
             # assume that the first and second component in the loss map
             # are the wind and flood components, respectively
-            wind_comp, flood_comp = loss_map.index.to_numpy()[[0, 1]]
+            drivers = loss_map.index.to_numpy()
+            if loss_map_approach == 'Automatic':
+                # the automatic loss map is in alphabetical order; use the
+                # order of the consequence databases instead
+                position = conseq_df.index.unique(level=0).get_indexer(
+                    loss_map['Repair']
+                )
+                drivers = drivers[np.argsort(position, kind='stable')]
+                drivers = drivers[np.sort(position) >= 0]
+            wind_comp, flood_comp = drivers[[0, 1]]
 
             loss_combination = {
                 'Cost': {
-- 
2.43.0


From d4648a23ec6a5c0e8bf99d473b73225de268b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 55/71] fix: integer distribution parameters and limits are
 scaled exactly

---
 pelicun/uq.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 8d7f396..6520749 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -108,14 +108,13 @@ def scale_distribution(
 
     """
     if truncation_limits is not None:
-        truncation_limits = truncation_limits.copy()
-        truncation_limits *= scale_factor
+        truncation_limits = truncation_limits * scale_factor
 
     # undefined family is considered deterministic
     if pd.isna(family):
         family = 'deterministic'
 
-    theta_new = np.full_like(theta, np.nan)
+    theta_new = np.full_like(theta, np.nan, dtype=np.result_type(theta, float))
     if family == 'normal_std':
         theta_new[0] = theta[0] * scale_factor  # mean
         theta_new[1] = theta[1] * scale_factor  # STD
-- 
2.43.0


From 0447cae15b72dc469419dcdf994c7a54eda53a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 56/71] fix: cost and time stay correlated for components with
 Cost in their name

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1b56ec6..fa6f43d 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2374,7 +2374,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2952,7 +2952,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From 0870b8c21a91a30c983248754502aea493b7b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 57/71] fix: columns with the same name keep it when a table is
 loaded from a file

Component quantities of several groups at one place were loaded as if they were
in directions that do not exist (1.1, 1.2, ...).
---
 pelicun/file_io.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pelicun/file_io.py b/pelicun/file_io.py
index 17055b7..cd18a5c 100644
--- a/pelicun/file_io.py
+++ b/pelicun/file_io.py
@@ -607,6 +607,19 @@ def load_from_file(filepath: str, log: base.Logger | None = None) -> pd.DataFram
             encoding_errors='replace',
         )
 
+        # keep the names of columns that occur more than once as they are in
+        # the file, without the suffix pandas uses to tell them apart
+        header = pd.read_csv(
+            filepath_path,
+            header=None,
+            nrows=1,
+            dtype=str,
+            keep_default_na=False,
+            encoding_errors='replace',
+        ).iloc[0, 1:]
+        if len(header) == data.shape[1] and header[header != ''].duplicated().any():
+            data.columns = header.where(header != '', data.columns).to_list()
+
         if log:
             log.msg('File successfully opened.', prepend_timestamp=False)
 
-- 
2.43.0


From 60e8e5d0067215c118689dbec93dc14884384c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 58/71] fix: residual drifts are inferred from drifts in any
 unit

The drifts were compared to the yield drift in the unit of the user.
---
 pelicun/model/demand_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 1b70ee0..f2df53d 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -464,7 +464,8 @@ class DemandModel(PelicunModel):
         demand_sample, demand_units = sample_tuple
         assert isinstance(demand_sample, pd.DataFrame)
         assert isinstance(demand_units, pd.Series)
-        pid = demand_sample['PID']
+        # the yield drift is not in the units of the user
+        pid = self.sample['PID']
         rid = self.estimate_RID(pid, params, method)
         rid_units = pd.Series('unitless', index=rid.columns)
         demand_sample_ext = pd.concat([demand_sample, rid], axis=1)
-- 
2.43.0


From 9249869a437f88f385164d15b0ac00c375ff407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 59/71] fix: an update of the model library gets every file
 that differs between the commits

---
 pelicun/tools/dlml.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..e861978 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -63,6 +63,9 @@ from pelicun.pelicun_warnings import PelicunWarning
 logger = logging.getLogger('pelicun.dlml')
 
 # --- Module-level path constants ---
+# GitHub lists at most this many files in the comparison of two commits
+MAX_COMPARED_FILES = 300
+
 PELICUN_ROOT_DIR = Path(__file__).resolve().parent.parent
 
 
@@ -206,7 +209,31 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        comparisons = [compare_data]
+
+        # A three-dot comparison only lists what changed on the side of the
+        # head since the common ancestor. When the commits are on different
+        # branches, collect the changes on the side of the base as well.
+        if compare_data.get('status') == 'diverged':
+            response = requests.get(
+                f'{get_api_repo_url()}/compare/{head_commit}...{base_commit}',
+                headers=headers,
+                timeout=(10, 60),
+            )
+            response.raise_for_status()
+            comparisons.append(response.json())
+
+        changed_files = set()
+        for comparison in comparisons:
+            files = comparison.get('files', [])
+            if len(files) >= MAX_COMPARED_FILES:
+                logger.warning('Too many changes; the list might be incomplete.')
+                logger.warning(
+                    'Will proceed by re-downloading all necessary files.'
+                )
+                return None
+            changed_files.update(file_info['filename'] for file_info in files)
+        return changed_files
 
     except requests.exceptions.RequestException as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
-- 
2.43.0


From 4990a0186db95c31b05d671e55079bd383fa875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 60/71] fix: the cache of the model library does not claim a
 commit that is not installed

---
 pelicun/tools/dlml.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index e861978..d87505d 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -603,7 +603,11 @@ def download_data_files(  # noqa: C901
     cache_file = target_data_abs_dir / '.dlml_cache.json'
 
     # Load cache if using caching
-    cache_data = load_cache(str(cache_file)) if use_cache else {}
+    saved_cache = load_cache(str(cache_file))
+    cache_data = saved_cache if use_cache else {}
+
+    # An existing cache has to stay in line with the files in any case
+    update_cache = use_cache or bool(saved_cache)
 
     headers = {'Accept': 'application/vnd.github.v3+json'}
     # Check for the GITHUB_TOKEN environment variable
@@ -635,6 +639,11 @@ def download_data_files(  # noqa: C901
             )
             changed_files = _get_changed_files(old_commit_sha, commit_sha, headers)
 
+    # The files are about to change. Until all of them are in place, the cache
+    # must not claim that a particular commit is installed.
+    if saved_cache:
+        save_cache(str(cache_file), {})
+
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
@@ -667,7 +676,7 @@ def download_data_files(  # noqa: C901
     file_download_base_url = f'{get_raw_repo_url()}/{commit_sha}'
 
     # Initialize cache for this commit if using caching
-    if use_cache:
+    if update_cache:
         # Keep track of files that should exist
         new_cache = {
             'commit_sha': commit_sha,
@@ -719,13 +728,13 @@ def download_data_files(  # noqa: C901
             remote_url = f'{file_download_base_url}/{file_path}'
             _download_file(remote_url, str(local_path))
 
-            if use_cache:
+            if update_cache:
                 new_cache['files'][file_path] = get_file_hash(str(local_path))
 
             pbar.update(1)
 
     # Save the new cache
-    if use_cache:
+    if update_cache:
         save_cache(str(cache_file), new_cache)
 
     logger.info(
-- 
2.43.0


From fdcdb6af8e25dd785bd62b6be832eeae6b557a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 61/71] fix: an interrupted first download of the model library
 is not taken for installed

---
 pelicun/tools/dlml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index d87505d..2e7009b 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -647,7 +647,10 @@ def download_data_files(  # noqa: C901
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
-    model_file_local_path = target_data_abs_dir / 'model_files.txt'
+    # The list gets its final name once all the files are in place, because
+    # its presence marks the library as installed
+    model_file_final_path = target_data_abs_dir / 'model_files.txt'
+    model_file_local_path = target_data_abs_dir / 'model_files.txt.part'
     _download_file(model_file_list_url, str(model_file_local_path))
 
     logger.info('Successfully downloaded model file list.')
@@ -733,6 +736,9 @@ def download_data_files(  # noqa: C901
 
             pbar.update(1)
 
+    if model_file_local_path.exists():
+        model_file_local_path.replace(model_file_final_path)
+
     # Save the new cache
     if update_cache:
         save_cache(str(cache_file), new_cache)
-- 
2.43.0


From d954826e38f19c63122809a65fd6a6c4d0d388c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:32 +0000
Subject: [PATCH 62/71] fix: the model library is downloaded again when its
 files were removed

---
 pelicun/tools/dlml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 2e7009b..967bc10 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -812,6 +812,8 @@ def check_dlml_data() -> None:
     if not data_exists:
         # No DLML data found, download latest version
         try:
+            # A cache left behind describes files that are not there anymore
+            (target_data_abs_dir / '.dlml_cache.json').unlink(missing_ok=True)
             print('DLML model data not found. Downloading latest version...')  # noqa: T201
             print('This is a one-time setup that may take a few minutes.')  # noqa: T201
             download_data_files(version='latest', use_cache=True)
-- 
2.43.0


From 2813c10a400d2884ec4d3c9cfc5570c01e2d4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:02 +0000
Subject: [PATCH 63/71] fix: options of the library update are accepted before
 the version

---
 pelicun/cli.py | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/pelicun/cli.py b/pelicun/cli.py
index 8323520..17f04b1 100644
--- a/pelicun/cli.py
+++ b/pelicun/cli.py
@@ -154,32 +154,44 @@ Examples:
         'dlml', help='Update DLML (Damage and Loss Model Library) data files.'
     )
 
-    # Add the arguments specific to dlml
-    parser_dlml.add_argument(
-        'action',
-        choices=['update'],
+    # The update action has its own parser, so that the optional target and the
+    # options can follow it in any order
+    dlml_actions = parser_dlml.add_subparsers(
+        dest='action',
+        required=True,
         help='Action to perform. Currently only "update" is supported.',
     )
-    parser_dlml.add_argument(
+    parser_update = dlml_actions.add_parser(
+        'update', help='Download the latest or the requested data files.'
+    )
+    parser_update.add_argument(
         'target',
         nargs='?',
         default='latest',
         help='Version tag (e.g., v1.2.0) or "latest" for the latest release. '
         'Use "commit <sha>" to specify a commit SHA.',
     )
-    parser_dlml.add_argument(
-        '--no-cache',
-        action='store_true',
-        help='Disable caching to force re-download of all files.',
-    )
-    parser_dlml.add_argument(
-        '--log',
-        nargs='?',
-        const=True,
-        metavar='LOGFILE',
-        help='Save detailed log to specified file. If no filename provided, '
-        'creates dlml_update_TIMESTAMP.log in current directory.',
-    )
+
+    # The options are also accepted in front of the action
+    for options, default in (
+        (parser_dlml, None),
+        (parser_update, argparse.SUPPRESS),
+    ):
+        options.add_argument(
+            '--no-cache',
+            action='store_true',
+            default=default,
+            help='Disable caching to force re-download of all files.',
+        )
+        options.add_argument(
+            '--log',
+            nargs='?',
+            const=True,
+            default=default,
+            metavar='LOGFILE',
+            help='Save detailed log to specified file. If no filename provided, '
+            'creates dlml_update_TIMESTAMP.log in current directory.',
+        )
     # Associate the dlml_update function with this subparser
     parser_dlml.set_defaults(func=dlml_update)
 
-- 
2.43.0


From 0c296c53e85a881ae5c6277eb57463f0cc763ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:12 +0000
Subject: [PATCH 64/71] fix: reading the combined losses does not alter the
 losses of the loss functions

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index fa6f43d..1090364 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -147,7 +147,7 @@ class LossModel(PelicunModel):
         # reorder
         new_index = new_index[ds_model_levels]
         new_multiindex = pd.MultiIndex.from_frame(new_index)
-        lf_sample.columns = new_multiindex
+        lf_sample = lf_sample.set_axis(new_multiindex, axis=1)
 
         return pd.concat((ds_sample, lf_sample), axis=1)
 
-- 
2.43.0


From e7ba375c8e5ba3ff93207eca5f416e8bce1f4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:23 +0000
Subject: [PATCH 65/71] fix: the options given by the user are copied

The merged configuration was the user's own dictionary, filled in with the
defaults, and its groups were the ones used by the assessment. Changing the
dictionary, for instance to set up a second assessment, changed the options of
the first one.
---
 pelicun/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index e53289c..2ab7008 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -48,6 +48,7 @@ import pprint
 import sys
 import traceback
 import warnings
+from copy import deepcopy
 from datetime import datetime, timezone
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, ClassVar, Optional, TypeVar, overload
@@ -194,7 +195,8 @@ class Options:
         self.sampling_method: str | None = None
         self.list_all_ds: bool | None = None
 
-        merged_config_options = merge_default_config(user_config_options)
+        # the user's config is left as it is
+        merged_config_options = merge_default_config(deepcopy(user_config_options))
 
         self.seed = merged_config_options['Seed']
         self.sampling_method = merged_config_options['Sampling']['SamplingMethod']
-- 
2.43.0


From 6a5ee829d8c662e128f53dfb5fb00843b5046713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:59 +0000
Subject: [PATCH 66/71] fix: losses are saved when some consequences have none

Parameters of a consequence without losses (a decision variable that is not
affected by the damage states that occurred) stopped the loss sample from being
saved, with a KeyError, when both its decision variable and its component had
other losses.
---
 pelicun/model/loss_model.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1090364..aa6f3e9 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -747,11 +747,16 @@ class LossModel(PelicunModel):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
+        # consequences with parameters do not necessarily have losses
+        valid_cases = set(
+            zip(
+                dv_units.index.get_level_values(0),
+                dv_units.index.get_level_values(1),
+            )
+        )
 
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in valid_cases:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
@@ -1845,11 +1850,16 @@ class RepairModel_DS(RepairModel_Base):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
+        # consequences with parameters do not necessarily have losses
+        valid_cases = set(
+            zip(
+                dv_units.index.get_level_values(0),
+                dv_units.index.get_level_values(1),
+            )
+        )
 
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in valid_cases:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
-- 
2.43.0


From 7c39df4146566f99de1b89589ba2bb81ac0a4061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 67/71] fix: a component can have losses from damage states and
 from loss functions

The median consequences were looked up for every decision variable of a damaged
component, including those that are given by loss functions, which raised a
KeyError (or an AssertionError when there are only loss functions).
---
 pelicun/model/loss_model.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index aa6f3e9..eb34a2f 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1981,6 +1981,15 @@ class RepairModel_DS(RepairModel_Base):
             )
             return
 
+        # If all losses come from loss functions, damage has no consequences
+        if self.loss_params is None:
+            self.sample = None
+            self.log.msg(
+                'There are no consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         # calculate the quantities for economies of scale
         self.log.msg('\nAggregating damage quantities...', prepend_timestamp=False)
 
@@ -2456,10 +2465,16 @@ class RepairModel_DS(RepairModel_Base):
                 if loss_cmp_id not in eco_qnt.columns.get_level_values(0).unique():
                     continue
 
+                # If loss parameters are missing for that consequence,
+                # for this particular loss model, they will exist in
+                # the other(s).
+                assert self.loss_params is not None
+                if (loss_cmp_name, decision_variable) not in self.loss_params.index:
+                    continue
+
                 ds_list = []
                 sub_medians = []
 
-                assert self.loss_params is not None
                 for ds in self.loss_params.columns.get_level_values(0).unique():
                     if not ds.startswith('DS'):
                         continue
-- 
2.43.0


From 508f6fda2b4ea0c99be3beed53397576289a8c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:44 +0000
Subject: [PATCH 68/71] fix: the order of a filled loss map is the order of the
 components

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index eb34a2f..326c9f4 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -247,7 +247,7 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        cmp_list = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -278,7 +278,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in cmp_list:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From faa6d1bc74a9bd83ae4f2e74bd358c21e87cb3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:48 +0000
Subject: [PATCH 69/71] fix: loss parameters are converted to base units once

Loading more loss parameters converted the ones loaded before once more.
---
 pelicun/model/loss_model.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 326c9f4..2558461 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1658,6 +1658,7 @@ class RepairModel_Base(PelicunModel):
 
     __slots__ = [
         'consequence',
+        'converted',
         'decision_variables',
         'loss_map',
         'loss_params',
@@ -1678,6 +1679,7 @@ class RepairModel_Base(PelicunModel):
         super().__init__(assessment)
 
         self.loss_params: pd.DataFrame | None = None
+        self.converted: pd.Index | None = None
         self.sample: pd.DataFrame | None = None
         self.consequence = 'Repair'
         self.decision_variables: tuple[str, ...] = ()
@@ -1797,6 +1799,24 @@ class RepairModel_Base(PelicunModel):
     def convert_loss_parameter_units(self) -> None:
         """Convert previously loaded loss parameters to base units."""
 
+    def _units_to_convert(self) -> pd.Series:
+        """
+        Get the units of the parameters that are not in base units yet.
+
+        Returns
+        -------
+        Series
+            Decision variable units, missing for the parameters that
+            have already been converted.
+
+        """
+        assert self.loss_params is not None
+        units = self.loss_params['DV', 'Unit']
+        if self.converted is not None:
+            units = units.mask(units.index.isin(self.converted))
+        self.converted = self.loss_params.index
+        return units
+
 
 class RepairModel_DS(RepairModel_Base):
     """Repair consequences for components with damage states."""
@@ -2222,7 +2242,7 @@ class RepairModel_DS(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self._units_to_convert()
         arg_units = self.loss_params['Quantity', 'Unit']
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
@@ -2771,7 +2791,7 @@ class RepairModel_LF(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self._units_to_convert()
         arg_units = self.loss_params['Demand', 'Unit']
         column = 'LossFunction'
         params = self.loss_params[column].copy()
-- 
2.43.0


From 108e0ce6bbc6772a1ff52b7f6f8877324d4c896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:57 +0000
Subject: [PATCH 70/71] fix: a loss sample without uids can be loaded

---
 pelicun/model/loss_model.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 2558461..67a66e4 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1941,17 +1941,11 @@ class RepairModel_DS(RepairModel_Base):
         )
         assert isinstance(sample, pd.DataFrame)
         assert isinstance(units, pd.Series)
-        units.index.names = names
         # Obtain the DV units
         # Note: we don't need to check for consistency (all rows
         # having the same unit) since the units are extracted from a
         # single row in the CSV, affecting all subsequent rows.
-        units_isolated = (
-            units.reset_index()[['dv', 'Units']]
-            .set_index('dv')
-            .groupby('dv')['Units']
-        )
-        dv_units = units_isolated.first().to_dict()
+        dv_units = units.groupby(level=0).first().to_dict()
 
         # check if `uid` level was provided
         num_levels = len(sample.columns.names)
-- 
2.43.0


From 83b2d9a69fdec25508f348f1f72f367ca61cc84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:30 +0000
Subject: [PATCH 71/71] fix: the demand model keeps its units when demands are
 cloned or dropped

---
 pelicun/model/demand_model.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f2df53d..f83c054 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -840,10 +840,11 @@ class DemandModel(PelicunModel):
         # conversion functionality. We do it manually here instead.
         assert isinstance(self.marginal_params, pd.DataFrame)
         assert isinstance(self.user_units, pd.Series)
+        units = self.user_units.loc[self.marginal_params.index]
         marginal_params_user_units = self._convert_marginal_params(
-            self.marginal_params.copy(), self.user_units, inverse_conversion=True
+            self.marginal_params.copy(), units, inverse_conversion=True
         )
-        marginal_params_user_units['Units'] = self.user_units
+        marginal_params_user_units['Units'] = units
 
         file_io.save_to_csv(
             marginal_params_user_units,
@@ -1126,7 +1127,7 @@ class DemandModel(PelicunModel):
                 column_values.extend(new_column_values)
         # units of the copied columns
         assert self.user_units is not None
-        self.user_units = self.user_units.reindex(self.sample.columns[column_index])
+        cloned_units = self.user_units.reindex(self.sample.columns[column_index])
         # copy the columns
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
@@ -1134,7 +1135,16 @@ class DemandModel(PelicunModel):
             column_values, names=self.sample.columns.names
         )
         # update units
-        self.user_units.index = self.sample.columns
+        cloned_units.index = self.sample.columns
+
+        # The units of the demands that the model describes are still
+        # needed to save the model or to generate another sample.
+        self.user_units = pd.concat(
+            (
+                cloned_units,
+                self.user_units[~self.user_units.index.isin(cloned_units.index)],
+            )
+        )
 
     def generate_sample(self, config: dict) -> None:
         """
-- 
2.43.0

