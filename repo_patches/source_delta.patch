From 5b31cc7bf253266565b50b2c98e7dbf9ab8c9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 01/67] fix: keep the on/off row bounds of mutually exclusive
 nodes with variable flow bounds

---
 pywr-core/src/solvers/builder.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..1a493e5 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -501,13 +501,23 @@ where
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, ub.min(1e6)));
+                    // The bounds of variable rows are reset before each update
+                    let f64_max = self.builder.f64_max;
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, f64_max);
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, -lb));
+                    // The bounds of variable rows are reset before each update
+                    let f64_max = self.builder.f64_max;
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, f64_max);
                 }
             }
         }
-- 
2.43.0


From 145dd68fac95a6deb8c1e74b434af30bb87ad99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 02/67] fix: recover the volume, not the flow, from a rolling
 virtual storage's history

---
 pywr-core/src/state/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 7ea58c0..0f170e4 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -158,14 +158,17 @@ impl VirtualStorageState {
 
     fn recover_last_historical_flow(&mut self, timestep: &Timestep) {
         if let Some(history) = self.history.as_mut() {
-            self.storage.add_in_flow(history.pop_flow(), timestep);
+            // The history contains volumes, which are converted to a flow over this timestep.
+            self.storage
+                .add_in_flow(history.pop_flow() / timestep.days(), timestep);
         }
     }
 
     fn add_out_flow(&mut self, flow: f64, timestep: &Timestep) {
         self.storage.add_out_flow(flow, timestep);
         if let Some(history) = self.history.as_mut() {
-            history.add_flow(flow);
+            // Store the volume so that it can be recovered in full
+            history.add_flow(flow * timestep.days());
         }
     }
 
-- 
2.43.0


From 605c52085107ade7147b892cb55d1dd98fd94151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:09 +0000
Subject: [PATCH 03/67] fix: seed a rolling virtual storage's history from the
 volume it is reset to

---
 pywr-core/src/virtual_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index a14c674..4abf057 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -448,7 +448,7 @@ impl VirtualStorageNode {
             // Reset the rolling history if defined
             if let Some(window) = self.rolling_window {
                 // Initially the missing volume is distributed evenly across the window
-                let initial_flow = (max_volume - initial_volume) / window.get() as f64;
+                let initial_flow = (max_volume - reset_volume) / window.get() as f64;
                 state.reset_virtual_storage_history(self.meta.index(), initial_flow)?;
             }
         }
-- 
2.43.0


From d814b8247ca25fb4d50e0a4c72f954dd8538839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 04/67] fix: accumulate the updated factors of nodes that share
 an LP column

---
 pywr-core/src/solvers/builder.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 1a493e5..77b396f 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -87,34 +87,50 @@ where
         self.row_upper[row] = self.row_upper[row].min(ub);
     }
 
+    /// Add `factor` to the updated coefficient of `column` in `row`.
+    ///
+    /// A column appears more than once in a row if it is shared by several of the nodes in that row.
+    fn add_coefficient_to_update(&mut self, row: I, column: I, factor: f64) {
+        match self
+            .coefficients_to_update
+            .iter_mut()
+            .rev()
+            .take_while(|(r, _, _)| *r == row)
+            .find(|(_, c, _)| *c == column)
+        {
+            Some((_, _, value)) => *value += factor,
+            None => self.coefficients_to_update.push((row, column, factor)),
+        }
+    }
+
     fn update_row_coefficients(&mut self, row: I, node: &Node, factor: f64, col_edge_map: &ColumnEdgeMap<I>) {
         match node.node_type() {
             NodeType::Link => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Input => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Output => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Storage => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, -factor);
                 }
             }
         }
-- 
2.43.0


From 6dad22c6d4025b837a93404915ff4ba802e861f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 05/67] fix: give every variable factor constraint its own LP
 row

---
 pywr-core/src/solvers/builder.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 77b396f..f2fdbbf 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -207,6 +207,15 @@ where
         }
     }
 
+    /// Add a row to the LP that is not shared, even if the same row already exists.
+    ///
+    /// This is required if the coefficients of the row, and not just its bounds, are updated.
+    fn add_distinct_variable_row(&mut self, row: RowBuilder<I>) -> I {
+        let row_id = self.num_variable_rows();
+        self.rows.push(row);
+        row_id
+    }
+
     /// Return the number of variable rows
     fn num_variable_rows(&self) -> I {
         I::from(self.rows.len()).unwrap()
@@ -1008,7 +1017,7 @@ where
                         row_indices_for_agg_node.push(None)
                     } else {
                         // These rows will be updated with the correct ratio later
-                        let row_idx = self.builder.add_variable_row(row);
+                        let row_idx = self.builder.add_distinct_variable_row(row);
                         row_indices_for_agg_node.push(Some(row_idx));
                     }
                 }
-- 
2.43.0


From 4ee9edd896947e2d7fb352a3681bfdccde5bf8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:28 +0000
Subject: [PATCH 06/67] fix: update coefficient constraints that have a
 variable right-hand side

---
 pywr-core/src/aggregated_node.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..7dea9c5 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -1074,8 +1074,14 @@ fn get_const_coefficient_factor_pairs<'a>(
     let f1 = factors[1].try_get_constant_value(values)?;
 
     let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+        Some(rhs) => rhs.try_get_constant_value(values)?,
+        None => Some(0.0),
+    };
+
+    // If the right-hand side is not constant then the constraint, as a whole, is not constant.
+    let (f0, f1, rhs) = match rhs {
+        Some(rhs) => (f0, f1, rhs),
+        None => (None, None, 0.0),
     };
 
     Ok(vec![NodeConstFactorPair::new(
-- 
2.43.0


From 0280037c22de518521517c2039c62d9a7ae2b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:09 +0000
Subject: [PATCH 07/67] fix: report invalid factors of aggregated nodes instead
 of ignoring them or panicking

---
 pywr-core/src/aggregated_node.rs |  9 ++++++---
 pywr-core/src/solvers/builder.rs | 20 +++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 7dea9c5..2f08eac 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -743,7 +743,7 @@ fn get_norm_proportional_factor_pairs<'a>(
         .iter()
         .map(|f| {
             let v = f.get_value(model, state)?;
-            if v < 0.0 {
+            if v <= 0.0 {
                 Err(ProportionalFactorError::NegativeOrZeroFactor { value: v })
             } else {
                 Ok(v)
@@ -809,7 +809,7 @@ fn get_const_norm_proportional_factor_pairs<'a>(
         .map(|f| {
             let v = f.try_get_constant_value(values)?;
             if let Some(v) = v {
-                if v < 0.0 {
+                if v <= 0.0 {
                     Err(ConstantProportionalFactorError::NegativeOrZeroFactor { value: v })
                 } else {
                     Ok(Some(v))
@@ -911,6 +911,9 @@ fn get_norm_ratio_factor_pairs<'a>(
         .skip(1)
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
+            if v1 <= 0.0 {
+                return Err(RatioFactorError::NegativeOrZeroFactor { value: v1 });
+            }
 
             Ok(NodeFactorPair::new(
                 NodeFactor::new(n0, 1.0),
@@ -970,7 +973,7 @@ fn get_const_norm_ratio_factor_pairs<'a>(
             let v1 = f1.try_get_constant_value(values)?;
 
             if let Some(v) = v1 {
-                if v < 0.0 {
+                if v <= 0.0 {
                     return Err(ConstantRatioFactorError::NegativeOrZeroFactor { value: v });
                 }
             }
diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index f2fdbbf..6377700 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -562,7 +562,12 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -696,7 +701,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -975,12 +980,17 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -1029,7 +1039,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..c8f0893 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0


From 6bf0f588e00e838909e60919a2aabee23aee9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 08/67] fix: do not pass infinite lower row bounds to MicroLP

---
 pywr-core/src/solvers/microlp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index 85acf22..b10eede 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -68,7 +68,9 @@ impl MicroLpSolver {
             } else {
                 assert!(row_lower < row_upper, "Row lower bound must be less than upper bound");
                 // Otherwise add two rows for each constraint (>= and <=)
-                problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                if row_lower.is_finite() {
+                    problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
+                }
 
                 if row_upper.is_finite() {
                     problem.add_constraint(expr, ComparisonOp::Le, row_upper);
-- 
2.43.0


From e996509bed9b1c469ed315575ac41b95b0cf0bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 09/67] fix: report contradictory row bounds as infeasible
 instead of panicking with MicroLP

---
 pywr-core/src/solvers/microlp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/microlp/mod.rs b/pywr-core/src/solvers/microlp/mod.rs
index b10eede..d7654ec 100644
--- a/pywr-core/src/solvers/microlp/mod.rs
+++ b/pywr-core/src/solvers/microlp/mod.rs
@@ -66,8 +66,8 @@ impl MicroLpSolver {
                 // If the bounds are equal we can just add a single equality constraint
                 problem.add_constraint(expr.clone(), ComparisonOp::Eq, row_lower);
             } else {
-                assert!(row_lower < row_upper, "Row lower bound must be less than upper bound");
-                // Otherwise add two rows for each constraint (>= and <=)
+                // Otherwise add two rows for each constraint (>= and <=). If the lower bound is greater than
+                // the upper bound these rows contradict one another, and the solver reports it as infeasible.
                 if row_lower.is_finite() {
                     problem.add_constraint(expr.clone(), ComparisonOp::Ge, row_lower);
                 }
-- 
2.43.0


From ae68f608cffede6e2346fd7783873e788d1db7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 10/67] fix: set up the internal state of the offset parameter

Every use of the parameter panicked because its state, which is needed for
the variable API, was never created.
---
 pywr-core/src/parameters/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/offset.rs b/pywr-core/src/parameters/offset.rs
index f85d673..d84fbde 100644
--- a/pywr-core/src/parameters/offset.rs
+++ b/pywr-core/src/parameters/offset.rs
@@ -1,6 +1,6 @@
 use crate::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
 use crate::network::ResolutionMaps;
-use crate::parameters::errors::GeneralCalculationError;
+use crate::parameters::errors::{GeneralCalculationError, ParameterSetupError};
 use crate::parameters::{
     ActivationFunction, BuiltParameter, GeneralBeforeParameter, GeneralParameter, GeneralParameterContext,
     GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
@@ -8,6 +8,8 @@ use crate::parameters::{
     downcast_internal_state_mut, downcast_internal_state_ref, downcast_variable_config_ref,
 };
 use crate::resolve_metric_f64;
+use crate::scenario::ScenarioIndex;
+use crate::timestep::Timestep;
 
 #[derive(Debug)]
 pub struct OffsetParameter {
@@ -36,6 +38,15 @@ impl Parameter for OffsetParameter {
         &self.meta
     }
 
+    fn setup(
+        &self,
+        _timesteps: &[Timestep],
+        _scenario_index: &ScenarioIndex,
+    ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
+        let value: InternalValue = None;
+        Ok(Some(Box::new(value)))
+    }
+
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
         Some(self)
     }
-- 
2.43.0


From cba45c19d182ce30a7009c9a987fef215e9e019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 11/67] fix: uniform drawdown profile is a day off in non-leap
 years

Resets on or before 29th February counted that day in years which don't
have one.
---
 .../parameters/profiles/uniform_drawdown.rs   | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pywr-core/src/parameters/profiles/uniform_drawdown.rs b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
index 6948a9a..6656fb7 100644
--- a/pywr-core/src/parameters/profiles/uniform_drawdown.rs
+++ b/pywr-core/src/parameters/profiles/uniform_drawdown.rs
@@ -47,14 +47,27 @@ impl SimpleParameter<f64> for UniformDrawdownProfileParameter {
         // or not in the current period
         let total_days_in_period = if is_leap_year(year) { 366 } else { 365 };
 
-        // Now determine number of days we're into the period if it has wrapped around to a new year
-        if days_into_period < 0 {
+        // The year of the 29th February between the last reset and the current day, if there is one. Both day of
+        // year values count this day in every year, and it must be removed where the day does not exist.
+        let date_year = ctx.timestep.date.year();
+        let year_of_29_feb = if days_into_period < 0 {
+            // The period has wrapped around to a new year
             days_into_period += 366;
-            // Need to adjust for post 29th Feb in non-leap years.
-            // Recall `current_doy` was incremented by 1 if it is a non-leap already (hence comparison to 60)
-            if !is_leap_year(ctx.timestep.date.year()) && current_doy > 60 {
-                days_into_period -= 1;
+            if self.reset_doy <= 60 {
+                Some(date_year - 1)
+            } else if current_doy > 60 {
+                Some(date_year)
+            } else {
+                None
             }
+        } else if self.reset_doy <= 60 && current_doy > 60 {
+            Some(date_year)
+        } else {
+            None
+        };
+
+        if year_of_29_feb.is_some_and(|y| !is_leap_year(y)) {
+            days_into_period -= 1;
         }
 
         let residual_proportion = self.residual_days as f64 / total_days_in_period as f64;
-- 
2.43.0


From 2373ab6b05d33d2bf945ba5409d89d3411a53309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 12/67] fix: thin plate spline RBF at zero distance is zero
 rather than NaN

---
 pywr-core/src/parameters/profiles/rbf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 6d76a6f..24305bd 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -305,6 +305,8 @@ impl RadialBasisFunction {
             RadialBasisFunction::Linear => r,
             RadialBasisFunction::Cubic => r.powi(3),
             RadialBasisFunction::Quintic => r.powi(5),
+            // The limit of r^2 * ln(r) as r tends to zero is zero.
+            RadialBasisFunction::ThinPlateSpline if r == 0.0 => 0.0,
             RadialBasisFunction::ThinPlateSpline => r.powi(2) * r.ln(),
             RadialBasisFunction::Gaussian { epsilon } => (-(epsilon * r).powi(2)).exp(),
             RadialBasisFunction::MultiQuadric { epsilon } => (1.0 + (epsilon * r).powi(2)).sqrt(),
-- 
2.43.0


From c15c8228cc894ff3a67be6c1787938eb02b2024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 13/67] fix: reject invalid scenario indices, combinations and
 empty groups instead of panicking or ignoring them

---
 pywr-core/src/scenario.rs | 40 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/scenario.rs b/pywr-core/src/scenario.rs
index 862aa8b..da437f0 100644
--- a/pywr-core/src/scenario.rs
+++ b/pywr-core/src/scenario.rs
@@ -28,6 +28,12 @@ pub enum ScenarioDomainBuilderError {
         start: usize,
         end: usize,
     },
+    #[error("Scenario group `{group}` has no scenarios; the size must be greater than zero")]
+    EmptyGroup { group: String },
+    #[error("Invalid index {index} for scenario group `{group}` with size {size}")]
+    InvalidIndex { group: String, size: usize, index: usize },
+    #[error("Incorrect number of entries in scenario combination; found {found}, expected {expected}")]
+    IncorrectCombinationLength { found: usize, expected: usize },
 }
 
 /// A subset of a scenario group to run, either defined as a slice or as specific indices.
@@ -174,11 +180,17 @@ impl ScenarioGroupBuilder {
     ///
     /// # Errors
     ///
+    /// - [`ScenarioDomainBuilderError::EmptyGroup`] if the size of the group is zero
     /// - [`ScenarioDomainBuilderError::InvalidSlice`] if the slice is invalid (e.g. start >= end or end > size)
+    /// - [`ScenarioDomainBuilderError::InvalidIndex`] if an index in the subset is not less than the group size
     /// - [`ScenarioDomainBuilderError::NoLabels`] if a label subset is defined but no labels are provided
     /// - [`ScenarioDomainBuilderError::LabelNotFound`] if a label in the subset is not found in the labels for the group
     /// - [`ScenarioDomainBuilderError::IncorrectNumberOfLabels`] if the number of labels provided does not match the group size
     pub fn build(self) -> Result<ScenarioGroup, ScenarioDomainBuilderError> {
+        if self.size == 0 {
+            return Err(ScenarioDomainBuilderError::EmptyGroup { group: self.name });
+        }
+
         let subset = match self.subset {
             Some(ScenarioGroupSubsetBuilder::Slice { start, end }) => {
                 if start >= end || end > self.size {
@@ -192,7 +204,17 @@ impl ScenarioGroupBuilder {
 
                 Some(ScenarioGroupSubset::Slice { start, end })
             }
-            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => Some(ScenarioGroupSubset::Indices(indices)),
+            Some(ScenarioGroupSubsetBuilder::Indices(indices)) => {
+                if let Some(index) = indices.iter().find(|index| **index >= self.size) {
+                    return Err(ScenarioDomainBuilderError::InvalidIndex {
+                        group: self.name.clone(),
+                        size: self.size,
+                        index: *index,
+                    });
+                }
+
+                Some(ScenarioGroupSubset::Indices(indices))
+            }
             Some(ScenarioGroupSubsetBuilder::Labels(subset_labels)) => {
                 if let Some(labels) = &self.labels {
                     let indices: Vec<usize> = subset_labels
@@ -373,6 +395,8 @@ impl ScenarioDomainBuilder {
     ///
     /// A [`ScenarioDomainBuilderError::CombinationsAndSlices`] will be returned if the combinations and slices
     /// are both defined as this is not currently supported.
+    /// A [`ScenarioDomainBuilderError::IncorrectCombinationLength`] or [`ScenarioDomainBuilderError::InvalidIndex`]
+    /// will be returned if a combination does not have one valid entry for each group.
     /// Other [`ScenarioDomainBuilderError`] variants may be returned from the group builders if the groups are
     /// not valid (e.g. invalid slices or labels).
     ///
@@ -404,11 +428,25 @@ impl ScenarioDomainBuilder {
                 let combinations = combinations
                     .iter()
                     .map(|combination| {
+                        if combination.len() != self.groups.len() {
+                            return Err(ScenarioDomainBuilderError::IncorrectCombinationLength {
+                                found: combination.len(),
+                                expected: self.groups.len(),
+                            });
+                        }
+
                         combination
                             .iter()
                             .zip(&self.groups)
                             .map(|(c, group)| match c {
                                 ScenarioLabelOrIndex::Label(label) => group.label_position(label),
+                                ScenarioLabelOrIndex::Index(index) if *index >= group.size => {
+                                    Err(ScenarioDomainBuilderError::InvalidIndex {
+                                        group: group.name.clone(),
+                                        size: group.size,
+                                        index: *index,
+                                    })
+                                }
                                 ScenarioLabelOrIndex::Index(index) => Ok(*index),
                             })
                             .collect::<Result<Vec<usize>, ScenarioDomainBuilderError>>()
-- 
2.43.0


From d936a8bb3d0c02aa984fe5a9271793535980a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 14/67] fix: report an invalid time-step frequency instead of
 panicking

---
 pywr-core/src/timestep.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/timestep.rs b/pywr-core/src/timestep.rs
index 3f61d08..ff14150 100644
--- a/pywr-core/src/timestep.rs
+++ b/pywr-core/src/timestep.rs
@@ -315,7 +315,8 @@ impl TimeDomainBuilder {
     ///
     /// Valid frequency strings are those that can be parsed by `polars::time::Duration::parse`. See: [https://docs.rs/polars-time/latest/polars_time/struct.Duration.html#method.parse]
     fn generate_timesteps_from_frequency(&self, frequency: &str) -> Result<Vec<Timestep>, TimeDomainBuilderError> {
-        let duration = polars::time::Duration::parse(frequency);
+        let duration = polars::time::Duration::try_parse(frequency)
+            .map_err(|_| TimeDomainBuilderError::GenerationError(frequency.to_string()))?;
 
         if duration.negative() || duration.is_zero() {
             return Err(TimeDomainBuilderError::NonPositiveTimestepDuration);
-- 
2.43.0


From d79ae28c48bda2fe0469f1c108e8cb0e76670ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 15/67] fix: order the on/off columns of mutually exclusive
 nodes the same in every run

---
 pywr-core/src/solvers/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 6377700..52c5f11 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -4,7 +4,7 @@ use crate::solvers::col_edge_map::{ColumnEdgeMap, ColumnEdgeMapBuilder};
 use crate::solvers::{SolverSetupError, SolverSolveError, SolverTimings};
 use crate::state::{ConstParameterValues, State};
 use crate::timestep::Timestep;
-use std::collections::{BTreeMap, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::fmt::Debug;
 use std::time::Instant;
 
@@ -765,7 +765,7 @@ where
         // We only want to create one binary variable for each unique set of nodes. For the
         // majority of cases the nodes will only be in one set. However, if a node is in different
         // sets then we need to create separate binary variables and associated them with that node.
-        let mut node_sets_in_a_mutual_exclusivity = HashSet::new();
+        let mut node_sets_in_a_mutual_exclusivity = BTreeSet::new();
         for agg_node in network.aggregated_nodes() {
             if agg_node.has_exclusivity() {
                 for node_set in agg_node.iter_nodes() {
-- 
2.43.0


From 4e61a4a077ac0a0b292950228399858521aba55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 16/67] fix: apply a river gauge's bypass cost as the cost of
 its bypass node

---
 pywr-schema/src/nodes/river_gauge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/nodes/river_gauge.rs b/pywr-schema/src/nodes/river_gauge.rs
index 7917fa8..7428d48 100644
--- a/pywr-schema/src/nodes/river_gauge.rs
+++ b/pywr-schema/src/nodes/river_gauge.rs
@@ -117,7 +117,7 @@ impl RiverGaugeNode {
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
         let mut mrf_node = pywr_core::node::NodeBuilder::link(self.mrf_sub_name());
-        let bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
+        let mut bypass_node = pywr_core::node::NodeBuilder::link(self.bypass_sub_name());
 
         // MRF applies as a maximum on the MRF node.
         if let Some(cost) = &self.mrf_cost {
@@ -132,7 +132,7 @@ impl RiverGaugeNode {
 
         if let Some(cost) = &self.bypass_cost {
             let value = cost.load(network, args, Some(&self.meta.name))?;
-            mrf_node.min_flow(value);
+            bypass_node.cost(value);
         }
 
         network.node(mrf_node);
-- 
2.43.0


From 04f18b61e631c3b93f500b7135e7192b070003eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 17/67] fix: make the evaporation of a reservoir an output node

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 2be9ad6..a5568de 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -459,7 +459,7 @@ impl ReservoirNode {
 
             // add evaporation node and edge
             if let Some(evaporation) = &self.evaporation {
-                let mut evaporation_output = pywr_core::NodeBuilder::input(self.evaporation_node_sub_name());
+                let mut evaporation_output = pywr_core::NodeBuilder::output(self.evaporation_node_sub_name());
 
                 let use_max_area = evaporation.use_max_area.unwrap_or(false);
                 let evaporation_area_metric =
-- 
2.43.0


From 540b33dceb7363204f369ffc61857ee04b984b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 18/67] fix: report the evaporation of a reservoir that has no
 rainfall

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index a5568de..03a7da7 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -612,7 +612,7 @@ impl ReservoirNode {
                         }
                     }
                     ReservoirNodeAttribute::Evaporation => {
-                        if self.rainfall.is_some() && self.surface_area.is_some() {
+                        if self.evaporation.is_some() && self.surface_area.is_some() {
                             UnresolvedMetricF64::NodeInFlow(self.evaporation_node_sub_name())
                         } else {
                             0.0.into()
-- 
2.43.0


From c133d1f49a4c5037c8c7871373b91a8cd0e79a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 19/67] fix: report the rainfall of a reservoir as the flow
 leaving its input node

---
 pywr-schema/src/nodes/reservoir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/reservoir.rs b/pywr-schema/src/nodes/reservoir.rs
index 03a7da7..b199a7a 100644
--- a/pywr-schema/src/nodes/reservoir.rs
+++ b/pywr-schema/src/nodes/reservoir.rs
@@ -606,7 +606,7 @@ impl ReservoirNode {
                     }
                     ReservoirNodeAttribute::Rainfall => {
                         if self.rainfall.is_some() && self.surface_area.is_some() {
-                            UnresolvedMetricF64::NodeInFlow(self.rainfall_node_sub_name())
+                            UnresolvedMetricF64::NodeOutFlow(self.rainfall_node_sub_name())
                         } else {
                             0.0.into()
                         }
-- 
2.43.0


From c15a8160bfe522e82848904d7877157de840dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 20/67] fix: apply a link's soft maximum to the flow below it
 when there is a soft minimum too

---
 pywr-schema/src/nodes/core.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/core.rs b/pywr-schema/src/nodes/core.rs
index a148426..a331d98 100644
--- a/pywr-schema/src/nodes/core.rs
+++ b/pywr-schema/src/nodes/core.rs
@@ -540,7 +540,7 @@ impl LinkNode {
                 // add constraints on node aggregating `[name]` and `[name].soft_min`
                 if let Some(soft_max_flow) = &soft_max.flow {
                     let value = soft_max_flow.load(network, args, Some(&self.meta.name))?;
-                    agg_node.max_flow(value);
+                    agg_node_l_l.max_flow(value);
                 }
 
                 network.node(link);
-- 
2.43.0


From fb9c11e339c83ee06bef9e99c378184894ffc728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:06 +0000
Subject: [PATCH 21/67] fix: report the outflow of a routed river net of its
 loss

---
 pywr-schema/src/nodes/river.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr-schema/src/nodes/river.rs b/pywr-schema/src/nodes/river.rs
index 3b514b0..0d9d09a 100644
--- a/pywr-schema/src/nodes/river.rs
+++ b/pywr-schema/src/nodes/river.rs
@@ -221,13 +221,13 @@ impl RiverNode {
                 }
             }
             RiverNodeComponent::Outflow => {
-                match self.routing_method.is_some() {
-                    false => {
-                        // Simple link node
+                match (self.loss_factor.is_some(), self.routing_method.is_some()) {
+                    (_, false) | (true, true) => {
+                        // Simple link node, or the net flow after the loss
                         vec![self.net_sub_name()]
                     }
-                    true => {
-                        // Routing
+                    (false, true) => {
+                        // Routing, but no loss
                         vec![self.input_sub_name()]
                     }
                 }
-- 
2.43.0


From f1790dd0ec2209bd90ee21bb1d6ebdb06e9e58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:13 +0000
Subject: [PATCH 22/67] fix: return no loss component for a treatment works
 without a loss factor

---
 pywr-schema/src/nodes/water_treatment_works.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/nodes/water_treatment_works.rs b/pywr-schema/src/nodes/water_treatment_works.rs
index ce486bd..3a4edb7 100644
--- a/pywr-schema/src/nodes/water_treatment_works.rs
+++ b/pywr-schema/src/nodes/water_treatment_works.rs
@@ -154,7 +154,10 @@ impl WaterTreatmentWorksNode {
                 vec![self.net_sub_name()]
             }
             WaterTreatmentWorksNodeComponent::Loss => {
-                vec![self.loss_sub_name()]
+                match self.loss_factor.is_some() {
+                    true => vec![self.loss_sub_name()],
+                    false => vec![], // No loss node defined, so return empty
+                }
             }
         };
 
-- 
2.43.0


From 7de088f30bd6a920b90039c34542facf62e7b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 23/67] fix: apply each factor of a virtual storage to all the
 flows of its node reference

---
 .../nodes/virtual_nodes/virtual_storage.rs    | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index aafc2b7..6a51958 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -214,13 +214,12 @@ impl VirtualStorageNode {
 
 #[cfg(feature = "core")]
 impl VirtualStorageNode {
-    /// This returns the node indices for flow constraints based on the nodes referenced in this virtual storage node.
+    /// This returns the node indices for flow constraints for each of the node references in this virtual storage node.
     ///
     /// Note that this is a private function, as it is not supported using this node itself
     /// inside a flow constraint.
-    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<UnresolvedNode>, SchemaError> {
-        let nodes = self
-            .nodes
+    fn nodes_for_flow_constraints(&self, args: &LoadArgs) -> Result<Vec<Vec<UnresolvedNode>>, SchemaError> {
+        self.nodes
             .iter()
             .map(|node_ref| {
                 args.schema
@@ -230,18 +229,15 @@ impl VirtualStorageNode {
                     })?
                     .nodes_for_flow_constraints(node_ref.component)
             })
-            .collect::<Result<Vec<_>, _>>()?
-            .into_iter()
-            .flatten()
-            .collect();
-        Ok(nodes)
+            .collect()
     }
     pub fn add_to_network(
         &self,
         network: &mut pywr_core::network::NetworkBuilder,
         args: &LoadArgs,
     ) -> Result<(), SchemaError> {
-        let nodes = self.nodes_for_flow_constraints(args)?;
+        let ref_nodes = self.nodes_for_flow_constraints(args)?;
+        let nodes: Vec<UnresolvedNode> = ref_nodes.iter().flatten().cloned().collect();
 
         let mut builder = VirtualStorageNodeBuilder::new(self.meta.name.as_str(), &nodes);
 
@@ -293,7 +289,19 @@ impl VirtualStorageNode {
         }
 
         if let Some(factors) = &self.factors {
-            builder.factors(factors);
+            if factors.len() != ref_nodes.len() {
+                return Err(SchemaError::DataLengthMismatch {
+                    expected: ref_nodes.len(),
+                    found: factors.len(),
+                });
+            }
+            // A reference can be to several nodes; each of them has the factor of the reference.
+            let factors: Vec<f64> = ref_nodes
+                .iter()
+                .zip(factors)
+                .flat_map(|(nodes, factor)| nodes.iter().map(|_| *factor))
+                .collect();
+            builder.factors(&factors);
         }
 
         network.virtual_storage_node(builder);
-- 
2.43.0


From c1d056b45ccbbb1101d828f7453a92baf9176603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 24/67] fix: apply the time and scenario functions of a memory
 output to their own dimension

---
 pywr-schema/src/outputs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/outputs/memory.rs b/pywr-schema/src/outputs/memory.rs
index afe76a5..5f27c45 100644
--- a/pywr-schema/src/outputs/memory.rs
+++ b/pywr-schema/src/outputs/memory.rs
@@ -21,8 +21,8 @@ pub struct MemoryAggregation {
 impl MemoryAggregation {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregation, SchemaError> {
         Ok(pywr_core::recorders::Aggregation::new(
-            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.scenario.as_ref().map(|f| f.load(data_path)).transpose()?,
+            self.time.as_ref().map(|f| f.load(data_path)).transpose()?,
             self.metric.as_ref().map(|f| f.load(data_path)).transpose()?,
         ))
     }
-- 
2.43.0


From 04d9e7048ea86f63561860a3b9d2e5611b6d9831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 25/67] fix: divide values at the boundaries of fixed length
 aggregation periods

---
 pywr-core/src/recorders/aggregator/mod.rs | 38 ++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index a0030ea..eda0aa0 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -25,7 +25,9 @@ impl AggregationFrequency {
         }
     }
 
-    fn start_of_next_period(&self, current_date: &DateTime) -> DateTime {
+    /// The start of the first period after `current_date`, where `period_start` is the start of the period
+    /// that contains, or is immediately before, `current_date`.
+    fn start_of_next_period(&self, period_start: &DateTime, current_date: &DateTime) -> DateTime {
         match self {
             Self::Monthly => {
                 let next_month = current_date
@@ -39,22 +41,36 @@ impl AggregationFrequency {
                     .expect("Date overflowed when calculating next year.");
                 next_year.first_of_year().start_of_day()
             }
-            Self::Days(days) => current_date
-                .checked_add(days.get().days())
-                .expect("Date overflowed when calculating next period."),
+            Self::Days(days) => {
+                let mut next_period = *period_start;
+                while next_period <= *current_date {
+                    next_period = next_period
+                        .checked_add(days.get().days())
+                        .expect("Date overflowed when calculating next period.");
+                }
+                next_period
+            }
         }
     }
 
     /// Split the value representing a period into multiple ['PeriodValue'] that do not cross the
     /// boundary of the given period.
-    fn split_value_into_periods(&self, value: PeriodValue<f64>) -> Vec<PeriodValue<f64>> {
+    ///
+    /// If a period is already in progress it starts at `period_start`; otherwise the first period starts
+    /// with the value.
+    fn split_value_into_periods(
+        &self,
+        period_start: Option<DateTime>,
+        value: PeriodValue<f64>,
+    ) -> Vec<PeriodValue<f64>> {
         let mut sub_values = Vec::new();
 
+        let period_start = period_start.unwrap_or(value.start);
         let mut current_date = value.start;
         let end_date = value.duration + value.start;
 
         while current_date < end_date {
-            let start_of_next_period = self.start_of_next_period(&current_date);
+            let start_of_next_period = self.start_of_next_period(&period_start, &current_date);
 
             let current_duration = if start_of_next_period <= end_date {
                 start_of_next_period.duration_since(current_date)
@@ -81,6 +97,14 @@ struct PeriodicAggregatorState {
 }
 
 impl PeriodicAggregatorState {
+    /// The start of the period in progress, if any.
+    fn period_start(&self) -> Option<DateTime> {
+        self.current_values
+            .as_ref()
+            .and_then(|values| values.first())
+            .map(|value| value.start)
+    }
+
     fn process_value(
         &mut self,
         value: PeriodValue<f64>,
@@ -238,7 +262,7 @@ impl PeriodicAggregator {
         let mut agg_value = None;
 
         if let Some(period) = &self.frequency {
-            for v in period.split_value_into_periods(value) {
+            for v in period.split_value_into_periods(current_state.period_start(), value) {
                 let av = current_state.process_value(v, period, &self.function);
                 if av.is_some() {
                     if agg_value.is_some() {
-- 
2.43.0


From 41e279b6439f341da6c6facb7c61e8d8a4042620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 26/67] fix: report every period completed when nested
 aggregators are finalised

---
 pywr-core/src/recorders/aggregator/mod.rs | 26 +++++++++++------
 pywr-core/src/recorders/csv.rs            | 23 +++++++--------
 pywr-core/src/recorders/memory.rs         |  4 +--
 pywr-core/src/recorders/metric_set.rs     | 35 ++++++++++++++---------
 4 files changed, 51 insertions(+), 37 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index eda0aa0..8630bbc 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -335,20 +335,30 @@ impl Aggregator {
     /// This will also compute the final aggregation value from the child aggregators if any exists.
     /// This includes aggregation calculations over partial or unfinished periods.
     pub fn finalise(&self, state: &mut AggregatorState) -> Option<PeriodValue<f64>> {
-        let final_child_value = match (&self.child, state.child.as_mut()) {
-            (Some(child), Some(child_state)) => child.finalise(child_state),
-            (None, None) => None,
+        self.finalise_all(state).pop()
+    }
+
+    /// Compute all the remaining aggregation values from the current state.
+    ///
+    /// The last value is the one for the period in progress. It is preceded by the values of any periods
+    /// that are completed by the final values of the child aggregators.
+    pub fn finalise_all(&self, state: &mut AggregatorState) -> Vec<PeriodValue<f64>> {
+        let final_child_values = match (&self.child, state.child.as_mut()) {
+            (Some(child), Some(child_state)) => child.finalise_all(child_state),
+            (None, None) => Vec::new(),
             (None, Some(_)) => panic!("Aggregator state contains a child state when none is expected."),
             (Some(_), None) => panic!("Aggregator state does not contain a child state when one is expected."),
         };
 
-        // If there is a final value from the child aggregator then process it
-        if let Some(final_child_value) = final_child_value {
-            let _ = self.agg.process_value(&mut state.state, final_child_value);
-        }
+        // Process any final values from the child aggregator; these may complete a period
+        let mut values: Vec<PeriodValue<f64>> = final_child_values
+            .into_iter()
+            .filter_map(|v| self.agg.process_value(&mut state.state, v))
+            .collect();
 
         // Finally, compute the aggregation of the current state
-        self.agg.calc_aggregation(&state.state)
+        values.extend(self.agg.calc_aggregation(&state.state));
+        values
     }
 
     /// Create the initial default state for the aggregator.
diff --git a/pywr-core/src/recorders/csv.rs b/pywr-core/src/recorders/csv.rs
index 69fa4a1..c8ca530 100644
--- a/pywr-core/src/recorders/csv.rs
+++ b/pywr-core/src/recorders/csv.rs
@@ -42,7 +42,8 @@ struct Internal {
 
 impl CsvWideFmtOutput {
     fn write_values(&self, metric_set_states: &[Vec<MetricSetState>], internal: &mut Internal) -> Result<(), CsvError> {
-        let mut row = Vec::new();
+        // There is a row for each yielded period
+        let mut rows: Vec<Vec<String>> = Vec::new();
 
         // Iterate through all scenario's state
         for ms_scenario_states in metric_set_states.iter() {
@@ -53,23 +54,19 @@ impl CsvWideFmtOutput {
                         index: self.metric_set_idx,
                     })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
-                let values = current_values
-                    .iter()
-                    .map(|v| format!("{:.2}", v.value))
-                    .collect::<Vec<_>>();
+            for (period, current_values) in metric_set_state.current_values().enumerate() {
+                let values = current_values.iter().map(|v| format!("{:.2}", v.value));
 
-                // If the row is empty, add the start time
-                if row.is_empty() {
-                    row.push(current_values.first().unwrap().start.to_string())
+                // If this is a new row, add the start time
+                if rows.len() <= period {
+                    rows.push(vec![current_values.first().unwrap().start.to_string()])
                 }
 
-                row.extend(values);
+                rows[period].extend(values);
             }
         }
 
-        // Only write
-        if row.len() > 1 {
+        for row in rows {
             internal.writer.write_record(row).map_err(|source| CsvError::CSVError {
                 path: self.filename.clone(),
                 source,
@@ -263,7 +260,7 @@ impl CsvLongFmtOutput {
                     .get(*metric_set_idx.deref())
                     .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
 
-                if let Some(current_values) = metric_set_state.current_values() {
+                for current_values in metric_set_state.current_values() {
                     let metric_set = network
                         .get_metric_set(*metric_set_idx)
                         .ok_or(CsvError::MetricSetIndexNotFound { index: *metric_set_idx })?;
diff --git a/pywr-core/src/recorders/memory.rs b/pywr-core/src/recorders/memory.rs
index 86ad39a..4e8f9dd 100644
--- a/pywr-core/src/recorders/memory.rs
+++ b/pywr-core/src/recorders/memory.rs
@@ -338,7 +338,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
+            for current_values in metric_set_state.current_values() {
                 scenario_data.push(current_values.into());
             }
         }
@@ -370,7 +370,7 @@ impl Recorder for MemoryRecorder {
                 }
             })?;
 
-            if let Some(current_values) = metric_set_state.current_values() {
+            for current_values in metric_set_state.current_values() {
                 scenario_data.push(current_values.into());
             }
         }
diff --git a/pywr-core/src/recorders/metric_set.rs b/pywr-core/src/recorders/metric_set.rs
index 360d13c..600dcd1 100644
--- a/pywr-core/src/recorders/metric_set.rs
+++ b/pywr-core/src/recorders/metric_set.rs
@@ -78,15 +78,18 @@ impl UnresolvedOutputMetric {
 
 #[derive(Debug, Clone)]
 pub struct MetricSetState {
-    // Populated with any yielded values from the last processing.
-    current_values: Option<Vec<PeriodValue<f64>>>,
+    // Populated with any yielded values from the last processing. There is an entry for each period that
+    // was yielded, and each entry contains a value for each metric. Processing a time-step yields at most one
+    // period; finalising may yield more when aggregators are nested.
+    current_values: Vec<Vec<PeriodValue<f64>>>,
     // If the metric set aggregates then this state tracks the aggregation of each metric
     aggregation_states: Option<Vec<AggregatorState>>,
 }
 
 impl MetricSetState {
-    pub fn current_values(&self) -> Option<&[PeriodValue<f64>]> {
-        self.current_values.as_deref()
+    /// The values of each period yielded from the last processing.
+    pub fn current_values(&self) -> impl Iterator<Item = &[PeriodValue<f64>]> {
+        self.current_values.iter().map(|values| values.as_slice())
     }
 }
 
@@ -116,7 +119,7 @@ impl MetricSet {
     /// Setup a new [`MetricSetState`] for this [`MetricSet`].
     pub fn setup(&self) -> MetricSetState {
         MetricSetState {
-            current_values: None,
+            current_values: Vec::new(),
             aggregation_states: self
                 .aggregator
                 .as_ref()
@@ -164,9 +167,9 @@ impl MetricSet {
             }
 
             let agg_values = if agg_values.is_empty() {
-                None
+                Vec::new()
             } else if agg_values.len() == values.len() {
-                Some(agg_values)
+                vec![agg_values]
             } else {
                 // This should never happen because the aggregator should either yield no values
                 // or the same number of values as the input metrics.
@@ -175,7 +178,7 @@ impl MetricSet {
 
             internal_state.current_values = agg_values;
         } else {
-            internal_state.current_values = Some(values);
+            internal_state.current_values = vec![values];
         }
 
         Ok(())
@@ -188,14 +191,18 @@ impl MetricSet {
                 .as_mut()
                 .expect("Aggregation state expected for metric set with aggregator!");
 
-            let final_values = aggregation_states
+            let final_values: Vec<Vec<PeriodValue<f64>>> = aggregation_states
                 .iter_mut()
-                .map(|current_state| aggregator.finalise(current_state))
-                .collect::<Option<Vec<_>>>();
-
-            internal_state.current_values = final_values;
+                .map(|current_state| aggregator.finalise_all(current_state))
+                .collect();
+
+            // Every metric yields the same periods; transpose to the values of each period.
+            let num_periods = final_values.iter().map(|v| v.len()).min().unwrap_or(0);
+            internal_state.current_values = (0..num_periods)
+                .map(|period| final_values.iter().map(|v| v[period]).collect())
+                .collect();
         } else {
-            internal_state.current_values = None;
+            internal_state.current_values.clear();
         }
     }
 }
-- 
2.43.0


From b4b9d84316fd831ebffccb952fd5bb911f3ff73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 27/67] fix: scalar tables of three and four row or column keys

They were loaded with two keys, so that every such table was refused with 'too many columns (rows)'.
---
 pywr-schema/src/data_tables/scalar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index fae00c9..e5a1a43 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -99,8 +99,8 @@ impl LoadedScalarTable {
         match rows {
             1 => Ok(LoadedScalarTable::One(load_csv_rows_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_rows_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_rows_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_rows_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
@@ -112,8 +112,8 @@ impl LoadedScalarTable {
         match cols {
             1 => Ok(LoadedScalarTable::One(load_csv_cols_scalar_table(path)?)),
             2 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            3 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
-            4 => Ok(LoadedScalarTable::Two(load_csv_cols_scalar_table(path)?)),
+            3 => Ok(LoadedScalarTable::Three(load_csv_cols_scalar_table(path)?)),
+            4 => Ok(LoadedScalarTable::Four(load_csv_cols_scalar_table(path)?)),
             _ => Err(TableError::FormatNotSupported(
                 "CSV row scalar table with more than four index columns is not supported.".to_string(),
             )),
-- 
2.43.0


From b63d44fef6d48c0bafe1e3e64e0866ceddfd396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 28/67] fix: refuse scalar tables without values instead of
 panicking

---
 pywr-schema/src/data_tables/scalar.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index e5a1a43..90a0c7c 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -262,7 +262,12 @@ fn load_csv_rows_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
                 });
             }
 
-            Ok((key, values[0]))
+            let value = values
+                .first()
+                .copied()
+                .ok_or_else(|| TableError::InvalidFormat(format!("no value column after the {N} index columns")))?;
+
+            Ok((key, value))
         })
         .collect::<Result<_, TableError>>()?;
 
@@ -333,7 +338,11 @@ fn load_csv_cols_scalar_table<const N: usize>(path: &Path) -> Result<ScalarTable
     // Turn this into a look-up table with key (row, column)
     let mut values: HashMap<[String; N], TableScalarValue> = HashMap::new();
 
-    for (col, value) in col_headers.iter().zip(&rows[0]) {
+    let row = rows
+        .first()
+        .ok_or_else(|| TableError::InvalidFormat(format!("no row of values after the {N} header rows")))?;
+
+    for (col, value) in col_headers.iter().zip(row) {
         if let Some(v) = value {
             // SAFETY: We have already checked ensured that the number of header rows is N
             let key: [String; N] = col.to_vec().try_into().unwrap();
-- 
2.43.0


From dafa98d82c4c51bc562aa8d31972eb9482993df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 29/67] fix: refuse table index values which lose precision

Large values were silently changed to the nearest f64, or to the largest u64.
---
 pywr-schema/src/data_tables/scalar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/data_tables/scalar.rs b/pywr-schema/src/data_tables/scalar.rs
index 90a0c7c..ca42546 100644
--- a/pywr-schema/src/data_tables/scalar.rs
+++ b/pywr-schema/src/data_tables/scalar.rs
@@ -25,7 +25,8 @@ impl TableScalarValue {
     pub fn try_as_u64(&self) -> Option<u64> {
         match self {
             TableScalarValue::Float(v) => {
-                if *v >= 0.0 && v.fract() == 0.0 {
+                // Whole numbers of 2^53 and above are not all representable as f64.
+                if *v >= 0.0 && v.fract() == 0.0 && *v < (1u64 << 53) as f64 {
                     Some(*v as u64)
                 } else {
                     None
-- 
2.43.0


From a0b06f295a68cd2bc8444668f68364b091097abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 30/67] fix: separate the parameters of a timeseries from each
 other

A column and a scenario group of the same name shared one parameter, so that
one of them had the values of the other; the same data used as values and as
indices were not found; and a local parameter of a node with the name of the
timeseries was used in place of its data.
---
 pywr-schema/src/timeseries/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 2220a9d..8940a7a 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -155,6 +155,16 @@ impl TryFrom<LoadTimeseriesError> for PyErr {
     }
 }
 
+/// The name of the parameter which provides the data of a timeseries.
+///
+/// The sub-name keeps apart the columns and the scenario groups of the same name, and floating-point and
+/// index values of the same data. It also keeps these parameters apart from the local parameters of a node with the
+/// same name as the timeseries.
+#[cfg(feature = "core")]
+fn timeseries_parameter_name(timeseries: &str, kind: &str, name: &str, ty: &str) -> ParameterName {
+    ParameterName::new_with_subname(name, Some(&format!("timeseries-{kind}-{ty}")), Some(timeseries))
+}
+
 #[derive(Default)]
 #[cfg(feature = "core")]
 pub struct LoadedTimeseriesCollection {
@@ -199,7 +209,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, "column", col, "f64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -222,7 +232,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, "column", col, "u64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -256,7 +266,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&Float64)?.f64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, "column", col, "f64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -290,7 +300,7 @@ impl LoadedTimeseriesCollection {
         let series = df.column(col)?.rechunk();
 
         let array = series.cast(&UInt64)?.u64()?.to_ndarray()?.to_owned();
-        let name = ParameterName::new(col, Some(name));
+        let name = timeseries_parameter_name(name, "column", col, "u64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array1ParameterBuilder::new(name.clone(), array);
@@ -315,7 +325,7 @@ impl LoadedTimeseriesCollection {
         // Original array as loaded from the timeseries
         let array: Array2<f64> = df.to_ndarray::<Float64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = timeseries_parameter_name(name, "scenario", scenario, "f64");
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
             network.parameters().f64(Box::new(p));
@@ -339,7 +349,7 @@ impl LoadedTimeseriesCollection {
 
         let array: Array2<u64> = df.to_ndarray::<UInt64Type>(IndexOrder::default())?;
 
-        let name = ParameterName::new(scenario, Some(name));
+        let name = timeseries_parameter_name(name, "scenario", scenario, "u64");
 
         if !network.parameters().contains_name(&name) {
             let p = Array2ParameterBuilder::new(name.clone(), array, scenario);
-- 
2.43.0


From cd24c0d143f67eb7880777aaba447df7e8d8e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 31/67] fix: refuse unsupported timeseries data instead of
 panicking

---
 pywr-schema/src/timeseries/align_and_resample.rs | 2 +-
 pywr-schema/src/timeseries/mod.rs                | 2 ++
 pywr-schema/src/timeseries/polars_dataset.rs     | 3 ---
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index d50e575..073198f 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -38,7 +38,7 @@ pub fn align_and_resample(
     let durations = durations.column("duration")?.duration()?;
 
     if durations.len() > 1 {
-        todo!("Non-uniform timestep are not yet supported");
+        return Err(TimeseriesError::TimeseriesNonUniform(name.to_string()));
     }
 
     let timeseries_duration = match durations.physical().get(0) {
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 8940a7a..de31d15 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -43,6 +43,8 @@ pub enum TimeseriesError {
     TimeseriesNotFound(String),
     #[error("The duration of timeseries '{0}' could not be determined.")]
     TimeseriesDurationNotFound(String),
+    #[error("The rows of timeseries '{0}' are not at uniform intervals, which is not supported.")]
+    TimeseriesNonUniform(String),
     #[error("Column '{col}' not found in timeseries input '{name}'")]
     ColumnNotFound { col: String, name: String },
     #[error("Timeseries provider '{provider}' does not support '{fmt}' file types")]
diff --git a/pywr-schema/src/timeseries/polars_dataset.rs b/pywr-schema/src/timeseries/polars_dataset.rs
index b909f1f..d283a93 100644
--- a/pywr-schema/src/timeseries/polars_dataset.rs
+++ b/pywr-schema/src/timeseries/polars_dataset.rs
@@ -69,9 +69,6 @@ mod core {
 
                             read_options.try_into_reader_with_file_path(Some(fp))?.finish()?
                         }
-                        Some("parquet") => {
-                            todo!()
-                        }
                         Some(other_ext) => {
                             return Err(TimeseriesError::TimeseriesUnsupportedFileFormat {
                                 provider: "polars".to_string(),
-- 
2.43.0


From 34c666eb035823dac750da48e51250128a9b2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 32/67] fix: refuse to align timeseries with time-steps of
 different durations

All time-steps were taken to have the duration of the first, so that with
monthly time-steps the values could be those of other days.
---
 pywr-schema/src/timeseries/align_and_resample.rs | 6 ++++--
 pywr-schema/src/timeseries/mod.rs                | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index 073198f..3077fab 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -46,8 +46,10 @@ pub fn align_and_resample(
         None => return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string())),
     };
 
-    // Use the first timestep of the domain to determine if the timeseries needs to be upsampled or downsampled.
-    let model_duration = domain.first_timestep().duration;
+    // Use the duration of the time-steps to determine if the timeseries needs to be upsampled or downsampled.
+    let model_duration = domain
+        .fixed_step_duration()
+        .ok_or_else(|| TimeseriesError::NonUniformTimesteps(name.to_string()))?;
     let model_duration_string = model_duration.duration_string();
 
     let df = match model_duration.milliseconds().cmp(&timeseries_duration) {
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index de31d15..12ba080 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -45,6 +45,8 @@ pub enum TimeseriesError {
     TimeseriesDurationNotFound(String),
     #[error("The rows of timeseries '{0}' are not at uniform intervals, which is not supported.")]
     TimeseriesNonUniform(String),
+    #[error("Timeseries '{0}' can not be aligned with time-steps of different durations.")]
+    NonUniformTimesteps(String),
     #[error("Column '{col}' not found in timeseries input '{name}'")]
     ColumnNotFound { col: String, name: String },
     #[error("Timeseries provider '{provider}' does not support '{fmt}' file types")]
-- 
2.43.0


From 6e267217f76da658f3990ee699829a25dec86421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 33/67] fix: refuse scenario data of which the columns do not
 match the scenario group

Too few columns caused a panic, or an error in the middle of a run; of too many
columns the first ones were used.
---
 pywr-core/src/parameters/array.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pywr-core/src/parameters/array.rs b/pywr-core/src/parameters/array.rs
index 0c3339c..404892a 100644
--- a/pywr-core/src/parameters/array.rs
+++ b/pywr-core/src/parameters/array.rs
@@ -289,6 +289,7 @@ impl ParameterBuilder<f64> for Array2ParameterBuilder<f64> {
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<f64>, ParameterBuildError> {
         let scenario_group_index = resolution_maps.domain.scenarios().group_index(&self.scenario_group)?;
+        check_array2_columns(&self.array, &self.scenario_group, resolution_maps)?;
 
         let mut array = self.array;
 
@@ -322,6 +323,7 @@ impl ParameterBuilder<u64> for Array2ParameterBuilder<u64> {
         resolution_maps: &ResolutionMaps,
     ) -> Result<MaybeBuiltParameter<u64>, ParameterBuildError> {
         let scenario_group_index = resolution_maps.domain.scenarios().group_index(&self.scenario_group)?;
+        check_array2_columns(&self.array, &self.scenario_group, resolution_maps)?;
 
         let mut array = self.array;
 
@@ -345,6 +347,23 @@ impl ParameterBuilder<u64> for Array2ParameterBuilder<u64> {
     }
 }
 
+/// Check that a 2D array has a column for every scenario of the scenario group.
+fn check_array2_columns<T>(
+    array: &Array2<T>,
+    scenario_group: &str,
+    resolution_maps: &ResolutionMaps,
+) -> Result<(), ParameterBuildError> {
+    let group_size = resolution_maps.domain.scenarios().group_size(scenario_group)?;
+    if array.ncols() != group_size {
+        return Err(ParameterBuildError::ScenarioValuesLengthMismatch {
+            values: array.ncols(),
+            scenarios: group_size,
+            group: scenario_group.to_string(),
+        });
+    }
+    Ok(())
+}
+
 /// Create a subset of a 2D array based on the column indices.
 ///
 /// This function is used to reduce the size of a timeseries dataframe to only include the columns
-- 
2.43.0


From 339cc0a067cc6ee101436bda007875627d43fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 34/67] fix: values of timeseries which are upsampled by a
 fraction

Rows of data which are not at the time of a time-step were ignored when the
interval of the data is not a multiple of the time-step: two-day time-steps
with weekly data had the values of two weeks ago.
---
 .../src/timeseries/align_and_resample.rs      | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index 3077fab..46b5cf8 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -75,9 +75,19 @@ pub fn align_and_resample(
             // Upsample
             // TODO: this does not extend the dataframe beyond its original end date. Should it do when using a forward fill strategy?
             // The df could be extend by the length of the duration it is being resampled to.
-            df.clone()
-                .upsample::<[String; 0]>([], time_col, Duration::parse(model_duration_string.as_str()))?
-                .fill_null(FillNullStrategy::Forward(None))?
+            // Upsample to the greatest common interval, so that every row of the original data is kept, and then take
+            // the rows of the time-steps.
+            let model_milliseconds = model_duration.milliseconds();
+            let interval = greatest_common_divisor(model_milliseconds, timeseries_duration);
+            let df = df
+                .clone()
+                .upsample::<[String; 0]>([], time_col, Duration::parse(&format!("{interval}ms")))?
+                .fill_null(FillNullStrategy::Forward(None))?;
+
+            let rows: Vec<IdxSize> = (0..df.height() as IdxSize)
+                .step_by((model_milliseconds / interval) as usize)
+                .collect();
+            df.take(&IdxCa::from_vec("rows".into(), rows))?
         }
         Ordering::Equal => df,
     };
@@ -95,6 +105,10 @@ pub fn align_and_resample(
     Ok(df)
 }
 
+fn greatest_common_divisor(a: i64, b: i64) -> i64 {
+    if b == 0 { a } else { greatest_common_divisor(b, a % b) }
+}
+
 fn slice_start(df: DataFrame, time_col: &str, domain: &TimeDomain) -> Result<DataFrame, TimeseriesError> {
     let start = domain.first_timestep().date;
 
-- 
2.43.0


From 7ab32d68b5034f4aaacf1cbd681afb8e36d42f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 35/67] fix: refuse timeseries without data for the model's
 period instead of panicking

---
 pywr-schema/src/timeseries/align_and_resample.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr-schema/src/timeseries/align_and_resample.rs b/pywr-schema/src/timeseries/align_and_resample.rs
index 46b5cf8..2f067ff 100644
--- a/pywr-schema/src/timeseries/align_and_resample.rs
+++ b/pywr-schema/src/timeseries/align_and_resample.rs
@@ -26,6 +26,11 @@ pub fn align_and_resample(
     // Ensure that df start aligns with models start for any resampling
     let df = slice_start(df, time_col, domain)?;
 
+    // The duration can only be determined from two or more rows
+    if df.height() < 2 {
+        return Err(TimeseriesError::TimeseriesDurationNotFound(name.to_string()));
+    }
+
     // Get the durations of the time column
     let durations = df
         .clone()
-- 
2.43.0


From 05913dea732b77ae484f5140cd800d1fce63ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:43 +0000
Subject: [PATCH 36/67] fix: phase of hydropower parameters listed by the
 all_parameters filter

---
 pywr-schema/src/parameters/hydropower.rs | 13 ++++++++++++-
 pywr-schema/src/parameters/mod.rs        |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 9d7d1a9..65bfae8 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -4,7 +4,7 @@ use crate::error::ComponentConversionError;
 use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
-use crate::parameters::{ConversionData, ParameterMeta};
+use crate::parameters::{ConversionData, ParameterMeta, ParameterPhase};
 use crate::v1::{TryFromV1, TryIntoV2, try_convert_parameter_attr};
 #[cfg(feature = "core")]
 use pywr_core::parameters::{HydropowerTargetData, ParameterName};
@@ -82,6 +82,17 @@ pub struct HydropowerTargetParameter {
     pub energy_unit_conversion: Option<f64>,
 }
 
+impl HydropowerTargetParameter {
+    /// The phase(s) in which this parameter produces a value.
+    pub fn phase(&self) -> ParameterPhase {
+        match (&self.target, &self.actual_flow) {
+            (Some(_), Some(_)) => ParameterPhase::Both,
+            (None, Some(_)) => ParameterPhase::After,
+            _ => ParameterPhase::Before,
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl HydropowerTargetParameter {
     pub fn add_to_network(
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 067ccb1..7c0c7c9 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -258,7 +258,7 @@ impl Parameter {
             Self::Offset(_) => ParameterPhase::Before,
             Self::DiscountFactor(_) => ParameterPhase::Before,
             Self::Interpolated(_) => ParameterPhase::Before,
-            Self::HydropowerTarget(_) => ParameterPhase::Before,
+            Self::HydropowerTarget(p) => p.phase(),
             Self::RbfProfile(_) => ParameterPhase::Before,
             Self::NegativeMax(_) => ParameterPhase::Before,
             Self::NegativeMin(_) => ParameterPhase::Before,
-- 
2.43.0


From e721d3ec4388416e0b78cf963572620ccbdfa7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 37/67] fix: refuse control curves with the wrong number of
 values

---
 pywr-schema/src/parameters/control_curves.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 5ac028f..6a91528 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -19,6 +19,18 @@ use pywr_v1_schema::parameters::{
 };
 use schemars::JsonSchema;
 
+/// Check that there are `extra` more values than control curves.
+#[cfg(feature = "core")]
+fn check_number_of_values(num_control_curves: usize, num_values: usize, extra: usize) -> Result<(), SchemaError> {
+    if num_values != num_control_curves + extra {
+        return Err(SchemaError::DataLengthMismatch {
+            expected: num_control_curves + extra,
+            found: num_values,
+        });
+    }
+    Ok(())
+}
+
 #[derive(serde::Deserialize, serde::Serialize, Debug, Clone, JsonSchema, PywrVisitAll)]
 #[serde(deny_unknown_fields)]
 pub struct ControlCurveInterpolatedParameter {
@@ -44,6 +56,8 @@ impl ControlCurveInterpolatedParameter {
             .map(|cc| cc.load(network, args, None))
             .collect::<Result<Vec<_>, _>>()?;
 
+        check_number_of_values(self.control_curves.len(), self.values.len(), 2)?;
+
         let values = self
             .values
             .iter()
@@ -275,6 +289,8 @@ impl ControlCurveParameter {
     ) -> Result<(), SchemaError> {
         let metric = self.storage_metric.load(network, args, None)?;
 
+        check_number_of_values(self.control_curves.len(), self.values.len(), 1)?;
+
         let mut builder = pywr_core::parameters::ControlCurveParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -376,6 +392,9 @@ impl ControlCurvePiecewiseInterpolatedParameter {
     ) -> Result<(), SchemaError> {
         let metric = self.storage_metric.load(network, args, parent)?;
 
+        let num_values = self.values.as_ref().map(|v| v.len()).unwrap_or(0);
+        check_number_of_values(self.control_curves.len(), num_values, 1)?;
+
         let mut builder = PiecewiseInterpolatedParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
             metric,
-- 
2.43.0


From 404376512b7445239bc0c0c468cd92db233538fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 38/67] fix: refuse multiple thresholds with the wrong number
 of returned metrics

---
 pywr-schema/src/parameters/thresholds.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 52fdf90..3eda300 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -357,6 +357,13 @@ impl MultiThresholdParameter {
         network.parameters().u64(Box::new(builder));
 
         if let Some(values) = &self.returned_metrics {
+            // One value for each of the thresholds, and one if none of them is met
+            if values.len() != self.thresholds.len() + 1 {
+                return Err(SchemaError::DataLengthMismatch {
+                    expected: self.thresholds.len() + 1,
+                    found: values.len(),
+                });
+            }
             let mut values_builder = pywr_core::parameters::IndexedArrayParameterBuilder::new(
                 ParameterName::new(&self.meta.name, parent),
                 UnresolvedMetricU64::new_parameter_before(name),
-- 
2.43.0


From 2ddefccdd24381095bcd318abcf63a6561080aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 39/67] fix: refuse index metrics of a value that a parameter
 does not have

---
 pywr-core/src/metric.rs | 66 ++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/pywr-core/src/metric.rs b/pywr-core/src/metric.rs
index f099220..527ee44 100644
--- a/pywr-core/src/metric.rs
+++ b/pywr-core/src/metric.rs
@@ -1559,9 +1559,28 @@ fn resolve_parameter_index_u64_to_metric_u64(
     consumer_phase: MetricConsumerPhase,
 ) -> Result<MetricU64, MetricU64ResolutionError> {
     match idx {
-        // Constant and simple can always be resolved to a metric.
-        ParameterIndex::Const(idx) => Ok(ConstantMetricU64::IndexParameterValue(idx).into()),
-        ParameterIndex::Simple(idx) => Ok(SimpleMetricU64::IndexParameterValue { index: idx }.into()),
+        // Constant and simple can always be resolved to a metric, regardless of the consumer phase
+        // as long as the parameter return value is "before".
+        ParameterIndex::Const(idx) => match parameter_return_value {
+            ParameterReturnValue::Before => Ok(ConstantMetricU64::IndexParameterValue(idx).into()),
+            ParameterReturnValue::After | ParameterReturnValue::AfterOrElseInitial => {
+                Err(MetricU64ResolutionError::ParameterNotRegisteredInCorrectPhase {
+                    parameter: name.clone(),
+                    consumer_phase,
+                    return_value: parameter_return_value,
+                })
+            }
+        },
+        ParameterIndex::Simple(idx) => match parameter_return_value {
+            ParameterReturnValue::Before => Ok(SimpleMetricU64::IndexParameterValue { index: idx }.into()),
+            ParameterReturnValue::After | ParameterReturnValue::AfterOrElseInitial => {
+                Err(MetricU64ResolutionError::ParameterNotRegisteredInCorrectPhase {
+                    parameter: name.clone(),
+                    consumer_phase,
+                    return_value: parameter_return_value,
+                })
+            }
+        },
         // General parameters must be validated against the consumer phase to determine if they can be resolved to a metric.
         ParameterIndex::General(idx) => {
             match (parameter_return_value, consumer_phase) {
@@ -1689,17 +1708,36 @@ fn resolve_parameter_index_multi_to_metric_u64(
     consumer_phase: MetricConsumerPhase,
 ) -> Result<MetricU64, MetricU64ResolutionError> {
     match idx {
-        // Constant and simple can always be resolved to a metric.
-        ParameterIndex::Const(index) => Ok(ConstantMetricU64::MultiParameterValue {
-            index,
-            key: key.to_string(),
-        }
-        .into()),
-        ParameterIndex::Simple(index) => Ok(SimpleMetricU64::MultiParameterValue {
-            index,
-            key: key.to_string(),
-        }
-        .into()),
+        // Constant and simple can always be resolved to a metric, regardless of the consumer phase
+        // as long as the parameter return value is "before".
+        ParameterIndex::Const(index) => match parameter_return_value {
+            ParameterReturnValue::Before => Ok(ConstantMetricU64::MultiParameterValue {
+                index,
+                key: key.to_string(),
+            }
+            .into()),
+            ParameterReturnValue::After | ParameterReturnValue::AfterOrElseInitial => {
+                Err(MetricU64ResolutionError::ParameterNotRegisteredInCorrectPhase {
+                    parameter: name.clone(),
+                    consumer_phase,
+                    return_value: parameter_return_value,
+                })
+            }
+        },
+        ParameterIndex::Simple(index) => match parameter_return_value {
+            ParameterReturnValue::Before => Ok(SimpleMetricU64::MultiParameterValue {
+                index,
+                key: key.to_string(),
+            }
+            .into()),
+            ParameterReturnValue::After | ParameterReturnValue::AfterOrElseInitial => {
+                Err(MetricU64ResolutionError::ParameterNotRegisteredInCorrectPhase {
+                    parameter: name.clone(),
+                    consumer_phase,
+                    return_value: parameter_return_value,
+                })
+            }
+        },
         // General parameters must be validated against the consumer phase to determine if they can be resolved to a metric.
         ParameterIndex::General(idx) => {
             match (parameter_return_value, consumer_phase) {
-- 
2.43.0


From c86dfd92547eb4b6cc98fec3b1b14b13656732fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 40/67] fix: visit the metrics that are held in arrays

---
 pywr-schema/src/visit.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/visit.rs b/pywr-schema/src/visit.rs
index 7740809..8bfa1cb 100644
--- a/pywr-schema/src/visit.rs
+++ b/pywr-schema/src/visit.rs
@@ -113,7 +113,19 @@ impl VisitMetrics for i32 {}
 impl VisitMetrics for f32 {}
 impl VisitMetrics for f64 {}
 impl<const N: usize> VisitMetrics for [f64; N] {}
-impl<const N: usize> VisitMetrics for [Metric; N] {}
+impl<const N: usize> VisitMetrics for [Metric; N] {
+    fn visit_metrics<F: FnMut(&Metric)>(&self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics(visitor);
+        }
+    }
+
+    fn visit_metrics_mut<F: FnMut(&mut Metric)>(&mut self, visitor: &mut F) {
+        for item in self {
+            item.visit_metrics_mut(visitor);
+        }
+    }
+}
 impl VisitMetrics for bool {}
 impl VisitMetrics for u64 {}
 impl VisitMetrics for String {}
-- 
2.43.0


From 6e12b1d887bf0c4f24bd3f56f968a16eea52959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 41/67] fix: visit the paths of tables, virtual nodes and
 metric sets

---
 pywr-schema/src/data_tables/mod.rs | 15 +++++++++++++++
 pywr-schema/src/metric_sets/mod.rs | 22 ++++++++++++++++++++--
 pywr-schema/src/network.rs         | 24 ++++++++++++++++++++++++
 3 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/pywr-schema/src/data_tables/mod.rs b/pywr-schema/src/data_tables/mod.rs
index c022c0a..d6f0606 100644
--- a/pywr-schema/src/data_tables/mod.rs
+++ b/pywr-schema/src/data_tables/mod.rs
@@ -21,6 +21,7 @@ mod vec;
 use crate::ConversionError;
 use crate::digest::{Checksum, ChecksumError};
 use crate::parameters::TableIndex;
+use crate::visit::VisitPaths;
 #[cfg(feature = "pyo3")]
 use pyo3::pyclass;
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
@@ -78,6 +79,20 @@ impl DataTable {
     }
 }
 
+impl VisitPaths for DataTable {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => visitor(&tbl.url),
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        match self {
+            DataTable::CSV(tbl) => visitor(&mut tbl.url),
+        }
+    }
+}
+
 #[derive(serde::Deserialize, serde::Serialize, Debug, Clone, JsonSchema, Display, EnumDiscriminants)]
 #[serde(tag = "type", deny_unknown_fields)]
 #[strum_discriminants(derive(Display, IntoStaticStr, EnumString, EnumIter))]
diff --git a/pywr-schema/src/metric_sets/mod.rs b/pywr-schema/src/metric_sets/mod.rs
index 099908a..f4948fb 100644
--- a/pywr-schema/src/metric_sets/mod.rs
+++ b/pywr-schema/src/metric_sets/mod.rs
@@ -8,14 +8,14 @@ use crate::metric::{EdgeReference, ParameterReferenceBuilder, ParameterReturnVal
 use crate::network::LoadArgs;
 #[cfg(feature = "core")]
 use crate::parameters::{Parameter, ParameterPhase, PythonReturnType};
+use crate::visit::VisitPaths;
 #[cfg(feature = "core")]
 use pywr_core::recorders::UnresolvedOutputMetric;
 use pywr_schema_macros::skip_serializing_none;
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 use std::num::NonZeroI64;
-#[cfg(feature = "core")]
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticStr};
 
 #[derive(serde::Deserialize, serde::Serialize, Debug, Copy, Clone, JsonSchema, Display, EnumDiscriminants)]
@@ -59,6 +59,24 @@ pub struct MetricAggregator {
     pub child: Option<Box<MetricAggregator>>,
 }
 
+impl VisitPaths for MetricAggregator {
+    fn visit_paths<F: FnMut(&Path)>(&self, visitor: &mut F) {
+        self.func.visit_paths(visitor);
+
+        if let Some(child) = &self.child {
+            child.visit_paths(visitor);
+        }
+    }
+
+    fn visit_paths_mut<F: FnMut(&mut PathBuf)>(&mut self, visitor: &mut F) {
+        self.func.visit_paths_mut(visitor);
+
+        if let Some(child) = &mut self.child {
+            child.visit_paths_mut(visitor);
+        }
+    }
+}
+
 #[cfg(feature = "core")]
 impl MetricAggregator {
     fn load(&self, data_path: Option<&Path>) -> Result<pywr_core::recorders::Aggregator, SchemaError> {
diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index d02e976..aaa7621 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -175,14 +175,26 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref().into_iter().flatten() {
+            virtual_node.visit_paths(visitor);
+        }
+
         for parameter in self.parameters.as_deref().into_iter().flatten() {
             parameter.visit_paths(visitor);
         }
 
+        for table in self.tables.as_deref().into_iter().flatten() {
+            table.visit_paths(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref().into_iter().flatten() {
             timeseries.visit_paths(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref().into_iter().flatten() {
+            metric_set.aggregator.visit_paths(visitor);
+        }
+
         for outputs in self.outputs.as_deref().into_iter().flatten() {
             outputs.visit_paths(visitor);
         }
@@ -192,14 +204,26 @@ impl VisitPaths for NetworkSchema {
             node.visit_paths_mut(visitor);
         }
 
+        for virtual_node in self.virtual_nodes.as_deref_mut().into_iter().flatten() {
+            virtual_node.visit_paths_mut(visitor);
+        }
+
         for parameter in self.parameters.as_deref_mut().into_iter().flatten() {
             parameter.visit_paths_mut(visitor);
         }
 
+        for table in self.tables.as_deref_mut().into_iter().flatten() {
+            table.visit_paths_mut(visitor);
+        }
+
         for timeseries in self.timeseries.as_deref_mut().into_iter().flatten() {
             timeseries.visit_paths_mut(visitor);
         }
 
+        for metric_set in self.metric_sets.as_deref_mut().into_iter().flatten() {
+            metric_set.aggregator.visit_paths_mut(visitor);
+        }
+
         for outputs in self.outputs.as_deref_mut().into_iter().flatten() {
             outputs.visit_paths_mut(visitor);
         }
-- 
2.43.0


From a2a77316e50df1313b6a0b26841fa40f21b6360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:14 +0000
Subject: [PATCH 42/67] fix: release the memory of the HiGHS solvers

---
 pywr-core/src/solvers/highs/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/highs/mod.rs b/pywr-core/src/solvers/highs/mod.rs
index 358749a..e2a833b 100644
--- a/pywr-core/src/solvers/highs/mod.rs
+++ b/pywr-core/src/solvers/highs/mod.rs
@@ -7,7 +7,7 @@ use crate::state::{ConstParameterValues, State};
 use crate::timestep::Timestep;
 use highs_sys::{
     Highs_addCols, Highs_addRows, Highs_changeCoeff, Highs_changeColIntegrality, Highs_changeColsCostByRange,
-    Highs_changeObjectiveSense, Highs_changeRowsBoundsByMask, Highs_clearSolver, Highs_create,
+    Highs_changeObjectiveSense, Highs_changeRowsBoundsByMask, Highs_clearSolver, Highs_create, Highs_destroy,
     Highs_getDoubleInfoValue, Highs_getModelStatus, Highs_getSolution, Highs_run, Highs_setBoolOptionValue,
     Highs_setStringOptionValue, Highs_writeModel, HighsInt, OBJECTIVE_SENSE_MINIMIZE, STATUS_OK,
     kHighsModelStatusInfeasible, kHighsModelStatusInterrupt, kHighsModelStatusIterationLimit,
@@ -57,6 +57,12 @@ impl Default for Highs {
     }
 }
 
+impl Drop for Highs {
+    fn drop(&mut self) {
+        unsafe { Highs_destroy(self.ptr) };
+    }
+}
+
 #[derive(Error, Debug)]
 #[error("Error in Highs function: {function}")]
 pub struct HighsStatusError {
-- 
2.43.0


From 7a577f80319bfaf317a292e67f1f44680b5b0024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:45 +0000
Subject: [PATCH 43/67] fix: report v1 components that can not be converted
 instead of panicking

---
 pywr-schema/src/nodes/mod.rs      | 15 +++++++++++++--
 pywr-schema/src/parameters/mod.rs | 29 +++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/nodes/mod.rs b/pywr-schema/src/nodes/mod.rs
index 26d6c03..8a685fc 100644
--- a/pywr-schema/src/nodes/mod.rs
+++ b/pywr-schema/src/nodes/mod.rs
@@ -670,6 +670,17 @@ impl From<VirtualNode> for NodeOrVirtualNode {
     }
 }
 
+/// Error for a v1 node type that can not be converted.
+fn unsupported_v1_node(name: &str, feature: &str) -> Box<ComponentConversionError> {
+    Box::new(ComponentConversionError::Node {
+        attr: "".to_string(),
+        name: name.to_string(),
+        error: ConversionError::UnsupportedFeature {
+            feature: feature.to_string(),
+        },
+    })
+}
+
 impl TryFromV1<Box<CoreNodeV1>> for NodeOrVirtualNode {
     type Error = Box<ComponentConversionError>;
 
@@ -700,10 +711,10 @@ impl TryFromV1<Box<CoreNodeV1>> for NodeOrVirtualNode {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
             CoreNodeV1::PiecewiseLink(n) => Node::PiecewiseLink(n.try_into_v2(parent_node, conversion_data)?).into(),
-            CoreNodeV1::MultiSplitLink(_) => todo!(),
+            CoreNodeV1::MultiSplitLink(n) => return Err(unsupported_v1_node(&n.meta.name, "MultiSplitLink nodes")),
             CoreNodeV1::BreakLink(n) => Node::Link(n.try_into_v2(parent_node, conversion_data)?).into(),
             CoreNodeV1::Delay(n) => Node::Delay(n.try_into()?).into(),
-            CoreNodeV1::RiverSplit(_) => todo!("Conversion of RiverSplit nodes"),
+            CoreNodeV1::RiverSplit(n) => return Err(unsupported_v1_node(&n.meta.name, "RiverSplit nodes")),
             CoreNodeV1::MonthlyVirtualStorage(n) => {
                 VirtualNode::VirtualStorage(n.try_into_v2(parent_node, conversion_data)?).into()
             }
diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 7c0c7c9..0508f19 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -64,7 +64,8 @@ pub use python::{PythonObject, PythonParameter, PythonReturnType};
 use pywr_schema_macros::{PywrVisitAll, skip_serializing_none};
 use pywr_v1_schema::parameters::{
     CoreParameter, DataFrameParameter as DataFrameParameterV1, Parameter as ParameterV1,
-    ParameterValue as ParameterValueV1, TableIndex as TableIndexV1, TableIndexEntry as TableIndexEntryV1,
+    ParameterMeta as ParameterMetaV1, ParameterValue as ParameterValueV1, TableIndex as TableIndexV1,
+    TableIndexEntry as TableIndexEntryV1,
 };
 pub use rolling::{RollingIndexParameter, RollingParameter};
 use schemars::JsonSchema;
@@ -590,6 +591,17 @@ impl From<ConvertedTimeseriesReference> for ParameterOrTimeseriesRef {
     }
 }
 
+/// Error for a v1 parameter type that can not be converted.
+fn unsupported_v1_parameter(meta: Option<ParameterMetaV1>, feature: &str) -> Box<ComponentConversionError> {
+    Box::new(ComponentConversionError::Parameter {
+        attr: "".to_string(),
+        name: meta.and_then(|m| m.name).unwrap_or_else(|| "unnamed".to_string()),
+        error: ConversionError::UnsupportedFeature {
+            feature: feature.to_string(),
+        },
+    })
+}
+
 impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
     type Error = Box<ComponentConversionError>;
 
@@ -658,8 +670,15 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::MultipleThresholdParameterIndex(p) => {
                     Parameter::MultiThreshold(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::CurrentYearThreshold(_) => todo!(),
-                CoreParameter::CurrentOrdinalDayThreshold(_) => todo!(),
+                CoreParameter::CurrentYearThreshold(p) => {
+                    return Err(unsupported_v1_parameter(p.meta, "CurrentYearThreshold parameters"));
+                }
+                CoreParameter::CurrentOrdinalDayThreshold(p) => {
+                    return Err(unsupported_v1_parameter(
+                        p.meta,
+                        "CurrentOrdinalDayThreshold parameters",
+                    ));
+                }
                 CoreParameter::TablesArray(p) => {
                     Parameter::TablesArray(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
@@ -711,7 +730,9 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::RollingMeanFlowNode(p) => {
                     Parameter::Rolling(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ScenarioWrapper(_) => todo!("Implement ScenarioWrapperParameter"),
+                CoreParameter::ScenarioWrapper(p) => {
+                    return Err(unsupported_v1_parameter(p.meta, "ScenarioWrapper parameters"));
+                }
                 CoreParameter::Flow(p) => {
                     return Err(Box::new(ComponentConversionError::Parameter {
                         name: p.meta.and_then(|m| m.name).unwrap_or("unnamed".to_string()),
-- 
2.43.0


From ece667894a3b73b2c81f413c3366de1bff86cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 44/67] fix: connect converted edges to the abstraction slot of
 a RiverSplitWithGauge

---
 pywr-schema/src/nodes/river_split_with_gauge.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 5b5ed5d..747c6d5 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -66,6 +66,10 @@ impl TryFrom<NodeSlot> for RiverSplitWithGaugeOutputNodeSlot {
             NodeSlot::River => Ok(RiverSplitWithGaugeOutputNodeSlot::River),
             NodeSlot::Split { position } => Ok(RiverSplitWithGaugeOutputNodeSlot::Split { position }),
             NodeSlot::User { name } => Ok(RiverSplitWithGaugeOutputNodeSlot::User { name }),
+            // Edges converted from v1 use this for the slot named "abstraction".
+            NodeSlot::Abstraction => Ok(RiverSplitWithGaugeOutputNodeSlot::User {
+                name: "abstraction".to_string(),
+            }),
             _ => Err(SchemaError::OutputNodeSlotNotSupported { slot }),
         }
     }
-- 
2.43.0


From ab02b068a021a5deb6a9f9b03352a4ddc6005239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 45/67] fix: keep the end of a v1 scenario slice of one
 element, refuse a step of zero

---
 pywr-schema/src/model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/model.rs b/pywr-schema/src/model.rs
index b69a7d8..9437141 100644
--- a/pywr-schema/src/model.rs
+++ b/pywr-schema/src/model.rs
@@ -225,8 +225,9 @@ impl TryFrom<pywr_v1_schema::model::Scenario> for ScenarioGroup {
             .slice
             .map(|s| match s.len() {
                 1 => {
+                    // As with Python's `slice(stop)` a single value is the end of the slice.
                     let start = 0;
-                    let end = v1.size;
+                    let end = s[0].unwrap_or(v1.size);
                     Ok(ScenarioGroupSubset::Slice(ScenarioGroupSlice { start, end }))
                 }
                 2 => {
@@ -244,6 +245,9 @@ impl TryFrom<pywr_v1_schema::model::Scenario> for ScenarioGroup {
                         None => v1.size,
                     };
                     match s[2] {
+                        Some(0) => Err(ConversionError::UnsupportedFeature {
+                            feature: "A scenario slice with a step of zero".to_string(),
+                        }),
                         Some(step) => {
                             let indices = (start..end).step_by(step).collect();
                             Ok(ScenarioGroupSubset::Indices(ScenarioGroupIndices { indices }))
-- 
2.43.0


From 6ae6c7e03e2a66418d275a64588610581591f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 46/67] fix: convert v1 parameters that refer to virtual nodes

---
 pywr-schema/src/parameters/interpolated.rs | 14 +++-----------
 pywr-schema/src/parameters/polynomial.rs   |  7 ++-----
 pywr-schema/src/parameters/rolling.rs      |  8 ++------
 pywr-schema/src/parameters/thresholds.rs   |  8 ++++----
 pywr-schema/src/v1.rs                      | 13 +++++++++++--
 5 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 0893c94..77aa1b0 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -2,7 +2,7 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
@@ -88,12 +88,8 @@ impl TryFromV1<InterpolatedFlowParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to v2's default metric
-        let x = Metric::Node(node_ref);
+        let x = conversion_data.node_metric(v1.node, None);
 
         let xp = v1
             .flows
@@ -154,12 +150,8 @@ impl TryFromV1<InterpolatedVolumeParameterV1> for InterpolatedParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
         // This defaults to the node's inflow; not sure if we can do better than that.
-        let x = Metric::Node(node_ref);
+        let x = conversion_data.node_metric(v1.node, None);
 
         let xp = v1
             .volumes
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index e7d8ee7..6b84176 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -1,7 +1,7 @@
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::nodes::NodeAttribute;
@@ -63,10 +63,7 @@ impl TryFromV1<Polynomial1DParameterV1> for Polynomial1DParameter {
             false => Some(NodeAttribute::Volume),
         };
 
-        let metric = Metric::Node(NodeAttrReference {
-            name: v1.storage_node,
-            attribute,
-        });
+        let metric = conversion_data.node_metric(v1.storage_node, attribute);
 
         Ok(Self {
             meta: v1.meta.try_into_v2(parent_node, conversion_data)?,
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 7f7927c..adf3a72 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -1,7 +1,7 @@
 use crate::agg_funcs::{AggFunc, IndexAggFunc};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{IndexMetric, Metric, NodeAttrReference};
+use crate::metric::{IndexMetric, Metric};
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::ParameterMeta;
@@ -140,11 +140,7 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         };
 
         // Convert the node reference to a metric
-        let node_ref = NodeAttrReference {
-            name: v1.node,
-            attribute: None,
-        };
-        let metric = Metric::Node(node_ref);
+        let metric = conversion_data.node_metric(v1.node, None);
 
         // pywr 1 does not support interpolation
         let p = Self {
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index 3eda300..b86514a 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -2,7 +2,7 @@ use crate::ConversionError;
 use crate::error::ComponentConversionError;
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
-use crate::metric::{Metric, NodeAttrReference};
+use crate::metric::Metric;
 #[cfg(feature = "core")]
 use crate::network::LoadArgs;
 use crate::parameters::{ConversionData, ParameterMeta};
@@ -209,7 +209,7 @@ impl TryFromV1<NodeThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = conversion_data.node_metric(v1.node, None);
 
         let threshold =
             try_convert_parameter_attr(&meta.name, "threshold", v1.threshold, parent_node, conversion_data)?;
@@ -256,7 +256,7 @@ impl TryFromV1<StorageThresholdParameterV1> for ThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.storage_node, None));
+        let metric = conversion_data.node_metric(v1.storage_node, None);
 
         let returned_metrics: Option<[Metric; 2]> = match v1.values {
             Some(v) => {
@@ -390,7 +390,7 @@ impl TryFromV1<MultiThresholdIndexParameterV1> for MultiThresholdParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
-        let metric = Metric::Node(NodeAttrReference::new(v1.node, None));
+        let metric = conversion_data.node_metric(v1.node, None);
 
         let thresholds = v1
             .thresholds
diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index 65e5b19..ec12666 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -14,8 +14,8 @@ use std::collections::HashMap;
 
 use crate::ConversionError;
 use crate::error::ComponentConversionError;
-use crate::metric::Metric;
-use crate::nodes::{NodeMeta, StorageInitialVolume};
+use crate::metric::{Metric, NodeAttrReference, VirtualNodeAttrReference};
+use crate::nodes::{NodeAttribute, NodeMeta, StorageInitialVolume};
 use crate::parameters::{ConstantFloatVec, Parameter, ParameterMeta};
 use crate::timeseries::Timeseries;
 use pywr_v1_schema::nodes::NodeMeta as NodeMetaV1;
@@ -36,6 +36,15 @@ impl ConversionData {
     pub fn reset_count(&mut self) {
         self.unnamed_count = 0;
     }
+
+    /// Create a metric that refers to a node or virtual node of the network.
+    pub fn node_metric(&self, name: String, attribute: Option<NodeAttribute>) -> Metric {
+        if self.virtual_nodes.contains(&name) {
+            VirtualNodeAttrReference { name, attribute }.into()
+        } else {
+            NodeAttrReference { name, attribute }.into()
+        }
+    }
 }
 
 pub trait TryFromV1<T>: Sized {
-- 
2.43.0


From db8c20a557ec1f828841aee0f03bbddb29740ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 47/67] fix: refer to converted timeseries from virtual nodes

---
 pywr-schema/src/network.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index aaa7621..85918c5 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -444,6 +444,7 @@ impl NetworkSchema {
         };
 
         nodes.visit_metrics_mut(update_to_ts_ref);
+        virtual_nodes.visit_metrics_mut(update_to_ts_ref);
         parameters.visit_metrics_mut(update_to_ts_ref);
 
         for table in v1.tables.into_iter().flatten() {
-- 
2.43.0


From 5b8374d1bf2231afc9cae84a04ac822a125683cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 48/67] fix: convert v1 control curves without values only once

---
 pywr-schema/src/parameters/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pywr-schema/src/parameters/mod.rs b/pywr-schema/src/parameters/mod.rs
index 0508f19..05f95e8 100644
--- a/pywr-schema/src/parameters/mod.rs
+++ b/pywr-schema/src/parameters/mod.rs
@@ -634,10 +634,13 @@ impl TryFromV1<ParameterV1> for ParameterOrTimeseriesRef {
                 CoreParameter::ControlCurveIndex(p) => {
                     Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-                CoreParameter::ControlCurve(p) => match p.clone().try_into_v2(parent_node, conversion_data) {
-                    Ok(p) => Parameter::ControlCurve(p).into(),
-                    Err(_) => Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into(),
-                },
+                CoreParameter::ControlCurve(p) if p.values.is_none() && p.parameters.is_none() => {
+                    // Without any values the parameter is only used as an index
+                    Parameter::ControlCurveIndex(p.try_into_v2(parent_node, conversion_data)?).into()
+                }
+                CoreParameter::ControlCurve(p) => {
+                    Parameter::ControlCurve(p.try_into_v2(parent_node, conversion_data)?).into()
+                }
                 CoreParameter::DailyProfile(p) => {
                     Parameter::DailyProfile(p.try_into_v2(parent_node, conversion_data)?).into()
                 }
-- 
2.43.0


From 4a85a3d9213a95914fd76f0d74429c545a38ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:36 +0000
Subject: [PATCH 49/67] fix: convert v1 control curve indices of virtual
 storages

---
 pywr-schema/src/parameters/control_curves.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 6a91528..65964f8 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -256,15 +256,13 @@ impl TryFromV1<ControlCurveParameterV1> for ControlCurveIndexParameter {
         };
 
         // v1 uses proportional volume for control curves
-        let storage_node = NodeAttrReference {
-            name: v1.storage_node,
-            attribute: Some(NodeAttribute::ProportionalVolume),
-        };
+        let storage_metric =
+            conversion_data.node_metric(v1.storage_node, Some(NodeAttribute::ProportionalVolume));
 
         let p = Self {
             meta,
             control_curves,
-            storage_metric: storage_node.into(),
+            storage_metric,
         };
         Ok(p)
     }
-- 
2.43.0


From e649cc41579c82163f630d14663013058cda8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 50/67] fix: report v1 attributes that are not converted

---
 .../src/nodes/river_split_with_gauge.rs       | 10 ++++++++
 .../src/nodes/virtual_nodes/aggregated.rs     | 12 +++++++++-
 pywr-schema/src/parameters/core.rs            | 11 ++++++++-
 pywr-schema/src/parameters/profiles.rs        | 20 ++++++++++++++++
 pywr-schema/src/timeseries/mod.rs             | 24 ++++++++++++++++++-
 5 files changed, 74 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index 747c6d5..fdad303 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -299,6 +299,16 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.cost.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "cost".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["cost".to_string()],
+                },
+            }));
+        }
+
         let mrf = try_convert_node_attr(&meta.name, "mrf", v1.mrf, parent_node, conversion_data)?;
         let mrf_cost = try_convert_node_attr(&meta.name, "mrf_cost", v1.mrf_cost, parent_node, conversion_data)?;
 
diff --git a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
index 1f29cd8..e3b9266 100644
--- a/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/aggregated.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::{Metric, NodeComponentReference};
 use crate::node_attribute_subset_enum;
 use crate::nodes::NodeMeta;
@@ -240,6 +240,16 @@ impl TryFromV1<AggregatedNodeV1> for AggregatedNode {
     ) -> Result<Self, Self::Error> {
         let meta: NodeMeta = try_convert_node_meta(v1.meta)?;
 
+        if v1.flow_weights.is_some() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "flow_weights".to_string(),
+                name: meta.name,
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["flow_weights".to_string()],
+                },
+            }));
+        }
+
         let relationship = match v1.factors {
             Some(f) => Some(Relationship::Ratio {
                 factors: f
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 660ead6..9ea461e 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 #[cfg(feature = "core")]
 use crate::error::SchemaError;
 use crate::metric::Metric;
@@ -202,6 +202,15 @@ impl TryFromV1<ConstantParameterV1> for ConstantParameter {
                 attr: "table".to_string(),
                 error,
             })?)
+        } else if v1.external.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "url".to_string(),
+                error: ConversionError::UnsupportedFeature {
+                    feature: "External data references are not supported in Pywr v2. Please use a table instead."
+                        .to_string(),
+                },
+            }));
         } else {
             0.0.into()
         };
diff --git a/pywr-schema/src/parameters/profiles.rs b/pywr-schema/src/parameters/profiles.rs
index 0b91798..c2a6f10 100644
--- a/pywr-schema/src/parameters/profiles.rs
+++ b/pywr-schema/src/parameters/profiles.rs
@@ -409,8 +409,28 @@ impl TryFromV1<RbfProfileParameterV1> for RbfProfileParameter {
     ) -> Result<Self, Self::Error> {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
+        if v1.days_of_year.len() != v1.values.len() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "values".to_string(),
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: v1.days_of_year.len(),
+                    found: v1.values.len(),
+                },
+            }));
+        }
         let points = v1.days_of_year.into_iter().zip(v1.values).collect();
 
+        if v1.min_value.is_some() || v1.max_value.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "min_value".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec!["min_value".to_string(), "max_value".to_string()],
+                },
+            }));
+        }
+
         if v1.rbf_kwargs.contains_key("smooth") {
             return Err(Box::new(ComponentConversionError::Parameter {
                 name: meta.name,
diff --git a/pywr-schema/src/timeseries/mod.rs b/pywr-schema/src/timeseries/mod.rs
index 12ba080..87f2da3 100644
--- a/pywr-schema/src/timeseries/mod.rs
+++ b/pywr-schema/src/timeseries/mod.rs
@@ -489,6 +489,20 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
         let mut ts_name = meta.name.clone();
 
+        if v1.timestep_offset.is_some() || v1.index.is_some() || v1.indexes.is_some() {
+            return Err(Box::new(ComponentConversionError::Parameter {
+                name: meta.name,
+                attr: "timestep_offset".to_string(),
+                error: ConversionError::UnsupportedAttribute {
+                    attrs: vec![
+                        "timestep_offset".to_string(),
+                        "index".to_string(),
+                        "indexes".to_string(),
+                    ],
+                },
+            }));
+        }
+
         if let Some(url) = v1.url {
             // If there is a URL then this entry must be converted into a timeseries
             let mut pandas_kwargs = v1.pandas_kwargs;
@@ -506,7 +520,15 @@ impl TryFromV1<DataFrameParameterV1> for ConvertedTimeseriesReference {
             }
 
             let checksum = match v1.checksum {
-                Some(c) => Checksum::try_from_v1(c, parent_node, conversion_data).ok(),
+                Some(c) => Some(
+                    Checksum::try_from_v1(c, parent_node, conversion_data).map_err(|error| {
+                        ComponentConversionError::Parameter {
+                            name: meta.name.clone(),
+                            attr: "checksum".to_string(),
+                            error,
+                        }
+                    })?,
+                ),
                 None => None,
             };
 
-- 
2.43.0


From 6f8d8dfc0d5e982290d3caf3a5887dcacc941ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 51/67] fix: report v1 components with wrong numbers of values
 or negative windows

---
 pywr-schema/src/nodes/delay.rs                    |  9 ++++++++-
 pywr-schema/src/nodes/piecewise_link.rs           | 15 ++++++++++++++-
 pywr-schema/src/nodes/river_split_with_gauge.rs   | 11 +++++++++++
 .../src/nodes/virtual_nodes/virtual_storage.rs    |  8 ++++----
 pywr-schema/src/parameters/rolling.rs             |  8 +++++++-
 5 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/pywr-schema/src/nodes/delay.rs b/pywr-schema/src/nodes/delay.rs
index b5820eb..9ed626c 100644
--- a/pywr-schema/src/nodes/delay.rs
+++ b/pywr-schema/src/nodes/delay.rs
@@ -184,7 +184,14 @@ impl TryFrom<DelayNodeV1> for DelayNode {
                     }));
                 }
             },
-        } as u64;
+        };
+        let delay: u64 = delay.try_into().map_err(|_| ComponentConversionError::Node {
+            name: meta.name.clone(),
+            attr: "delay".to_string(),
+            error: ConversionError::UnsupportedFeature {
+                feature: "A negative delay".to_string(),
+            },
+        })?;
 
         let initial_value = v1.initial_flow.unwrap_or_default().into();
 
diff --git a/pywr-schema/src/nodes/piecewise_link.rs b/pywr-schema/src/nodes/piecewise_link.rs
index 96127b2..5b9d6e4 100644
--- a/pywr-schema/src/nodes/piecewise_link.rs
+++ b/pywr-schema/src/nodes/piecewise_link.rs
@@ -1,4 +1,4 @@
-use crate::error::ComponentConversionError;
+use crate::error::{ComponentConversionError, ConversionError};
 use crate::metric::Metric;
 use crate::nodes::NodeMeta;
 use crate::parameters::Parameter;
@@ -225,6 +225,19 @@ impl TryFromV1<PiecewiseLinkNodeV1> for PiecewiseLinkNode {
                 .collect::<Result<Vec<_>, _>>()?,
         };
 
+        for (attr, found) in [("costs", costs.len()), ("max_flows", max_flows.len())] {
+            if found != v1.nsteps {
+                return Err(Box::new(ComponentConversionError::Node {
+                    attr: attr.to_string(),
+                    name: meta.name,
+                    error: ConversionError::IncorrectNumberOfValues {
+                        expected: v1.nsteps,
+                        found,
+                    },
+                }));
+            }
+        }
+
         let steps = costs
             .into_iter()
             .zip(max_flows)
diff --git a/pywr-schema/src/nodes/river_split_with_gauge.rs b/pywr-schema/src/nodes/river_split_with_gauge.rs
index fdad303..3330c63 100644
--- a/pywr-schema/src/nodes/river_split_with_gauge.rs
+++ b/pywr-schema/src/nodes/river_split_with_gauge.rs
@@ -319,6 +319,17 @@ impl TryFromV1<RiverSplitWithGaugeNodeV1> for RiverSplitWithGaugeNode {
                 error,
             }
         })?;
+        // There is a factor for each slot other than the first one.
+        if factors.len() + 1 != v1.slot_names.len() {
+            return Err(Box::new(ComponentConversionError::Node {
+                attr: "slot_names".to_string(),
+                name: meta.name,
+                error: ConversionError::IncorrectNumberOfValues {
+                    expected: factors.len() + 1,
+                    found: v1.slot_names.len(),
+                },
+            }));
+        }
         let splits = factors
             .into_iter()
             .zip(v1.slot_names.into_iter().skip(1))
diff --git a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
index 6a51958..aa3da20 100644
--- a/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
+++ b/pywr-schema/src/nodes/virtual_nodes/virtual_storage.rs
@@ -469,26 +469,26 @@ impl TryFromV1<RollingVirtualStorageNodeV1> for VirtualStorageNode {
             try_convert_initial_storage(&meta.name, "initial_volume", v1.initial_volume, v1.initial_volume_pc)?;
 
         let window = if let Some(days) = v1.days {
-            if let Some(days) = NonZeroUsize::new(days as usize) {
+            if let Some(days) = usize::try_from(days).ok().and_then(NonZeroUsize::new) {
                 RollingWindow::Days { days }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: meta.name.clone(),
                     attr: "window".to_string(),
                     error: ConversionError::UnsupportedFeature {
-                        feature: "Rolling window with zero `days` is not supported".to_string(),
+                        feature: "Rolling window with zero or negative `days` is not supported".to_string(),
                     },
                 }));
             }
         } else if let Some(timesteps) = v1.timesteps {
-            if let Some(timesteps) = NonZeroUsize::new(timesteps as usize) {
+            if let Some(timesteps) = usize::try_from(timesteps).ok().and_then(NonZeroUsize::new) {
                 RollingWindow::Timesteps { timesteps }
             } else {
                 return Err(Box::new(ComponentConversionError::Node {
                     name: meta.name.clone(),
                     attr: "window".to_string(),
                     error: ConversionError::UnsupportedFeature {
-                        feature: "Rolling window with zero `timesteps` is not supported".to_string(),
+                        feature: "Rolling window with zero or negative `timesteps` is not supported".to_string(),
                     },
                 }));
             }
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index adf3a72..99638fe 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -109,7 +109,13 @@ impl TryFromV1<RollingMeanFlowNodeParameterV1> for RollingParameter {
         let meta: ParameterMeta = v1.meta.try_into_v2(parent_node, conversion_data)?;
 
         let window_size = match (v1.timesteps, v1.days) {
-            (Some(timesteps), None) => timesteps as u64,
+            (Some(timesteps), None) => timesteps.try_into().map_err(|_| ComponentConversionError::Parameter {
+                attr: "timesteps".to_string(),
+                name: meta.name.clone(),
+                error: ConversionError::UnsupportedFeature {
+                    feature: "A negative number of timesteps".to_string(),
+                },
+            })?,
             (None, Some(_)) => {
                 return Err(Box::new(ComponentConversionError::Parameter {
                         attr: "days".to_string(),
-- 
2.43.0


From 467b71bc70166414ab8eefaad6319dd7c4491945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 52/67] fix: give parameters extracted from v1 components
 unique names

---
 pywr-schema/src/v1.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pywr-schema/src/v1.rs b/pywr-schema/src/v1.rs
index ec12666..5f80244 100644
--- a/pywr-schema/src/v1.rs
+++ b/pywr-schema/src/v1.rs
@@ -37,6 +37,11 @@ impl ConversionData {
         self.unnamed_count = 0;
     }
 
+    /// Is there an extracted parameter or timeseries with this name?
+    fn has_name(&self, name: &str) -> bool {
+        self.parameters.iter().any(|p| p.name() == name) || self.timeseries.iter().any(|t| t.name() == name)
+    }
+
     /// Create a metric that refers to a node or virtual node of the network.
     pub fn node_metric(&self, name: String, attribute: Option<NodeAttribute>) -> Metric {
         if self.virtual_nodes.contains(&name) {
@@ -118,12 +123,17 @@ impl TryFromV1<ParameterMetaV1> for ParameterMeta {
         conversion_data: &mut ConversionData,
     ) -> Result<Self, Self::Error> {
         let name = v1.name.unwrap_or_else(|| {
-            let pname = match parent_node {
-                Some(pn) => format!("{pn}-p{}", conversion_data.unnamed_count),
-                None => format!("unnamed-{}", conversion_data.unnamed_count),
-            };
-            conversion_data.unnamed_count += 1;
-            pname
+            loop {
+                let pname = match parent_node {
+                    Some(pn) => format!("{pn}-p{}", conversion_data.unnamed_count),
+                    None => format!("unnamed-{}", conversion_data.unnamed_count),
+                };
+                conversion_data.unnamed_count += 1;
+                // A node and a parameter may have the same name
+                if !conversion_data.has_name(&pname) {
+                    break pname;
+                }
+            }
         });
 
         let tags = convert_tags(v1.tags).map_err(|error| {
-- 
2.43.0


From 88ebda144b83f6594ebf71f0636c36c3accfb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 53/67] fix: refuse index metrics of nodes and transfers with
 an error

Nodes do not have integer attributes and only f64 values are transferred
between networks. Referring to either as an index was a panic when the
network was built or run.
---
 pywr-core/src/metric.rs   | 15 ++++++++++-----
 pywr-schema/src/metric.rs | 24 ++++++++----------------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/pywr-core/src/metric.rs b/pywr-core/src/metric.rs
index 527ee44..1e9a6bd 100644
--- a/pywr-core/src/metric.rs
+++ b/pywr-core/src/metric.rs
@@ -1465,6 +1465,8 @@ pub enum MetricU64ResolutionError {
     ParameterNotFound { parameter: ParameterName },
     #[error("Inter-network transfer not found when resolving U64 metric: {transfer}")]
     InterNetworkTransferNotFound { transfer: String },
+    #[error("Inter-network transfer can not be used as a U64 metric: {transfer}")]
+    InterNetworkTransferNotSupported { transfer: String },
     #[error(
         "Parameter not registered in the correct phase when resolving U64 metric: {parameter}, consumer phase: {consumer_phase:?}, return value: {return_value:?}"
     )]
@@ -1526,13 +1528,16 @@ impl UnresolvedMetricU64 {
                 resolve_parameter_index_multi_to_metric_u64(name, idx.clone(), key, *return_value, consumer_phase)?
             }
             UnresolvedMetricU64::InterNetworkTransfer(unresolved) => {
-                let idx = resolution_maps.inter_network_transfers.get(unresolved).ok_or_else(|| {
-                    MetricU64ResolutionError::InterNetworkTransferNotFound {
+                if !resolution_maps.inter_network_transfers.contains_key(unresolved) {
+                    return Err(MetricU64ResolutionError::InterNetworkTransferNotFound {
                         transfer: unresolved.clone(),
-                    }
-                })?;
+                    });
+                }
 
-                MetricU64::InterNetworkTransfer(*idx)
+                // Only f64 values can currently be transferred between networks.
+                return Err(MetricU64ResolutionError::InterNetworkTransferNotSupported {
+                    transfer: unresolved.clone(),
+                });
             }
             UnresolvedMetricU64::Constant(value) => (*value).into(),
         };
diff --git a/pywr-schema/src/metric.rs b/pywr-schema/src/metric.rs
index 0ac0e21..709e727 100644
--- a/pywr-schema/src/metric.rs
+++ b/pywr-schema/src/metric.rs
@@ -320,14 +320,10 @@ impl NodeAttrReference {
     #[cfg(feature = "core")]
     pub fn load_u64(&self, args: &LoadArgs) -> Result<UnresolvedMetricU64, SchemaError> {
         // This is the associated node in the schema
-        let _node = args
-            .schema
-            .get_node_by_name(&self.name)
-            .ok_or_else(|| SchemaError::NodeNotFound {
-                name: self.name.clone(),
-            })?;
-
-        todo!("Support usize attributes on nodes.")
+        // Nodes do not currently have any integer attributes.
+        Err(SchemaError::NodeAttributeNotSupported {
+            attr: self.attribute(args)?,
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
@@ -420,14 +416,10 @@ impl VirtualNodeAttrReference {
         args: &LoadArgs,
     ) -> Result<UnresolvedMetricU64, SchemaError> {
         // This is the associated node in the schema
-        let _node =
-            args.schema
-                .get_virtual_node_by_name(&self.name)
-                .ok_or_else(|| SchemaError::VirtualNodeNotFound {
-                    name: self.name.clone(),
-                })?;
-
-        todo!("Support usize attributes on nodes.")
+        // Virtual nodes do not currently have any integer attributes.
+        Err(SchemaError::NodeAttributeNotSupported {
+            attr: self.attribute(args)?,
+        })
     }
 
     /// Return the attribute of the node. If the attribute is not specified then the default
-- 
2.43.0


From 6f083b92a405821d6b8729cc25de9ea0c4363b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 54/67] fix: refuse aggregation periods of a negative number of
 days

They were accepted and caused a panic while the model was running.
---
 pywr-schema/src/metric_sets/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/metric_sets/mod.rs b/pywr-schema/src/metric_sets/mod.rs
index f4948fb..a9c3bb0 100644
--- a/pywr-schema/src/metric_sets/mod.rs
+++ b/pywr-schema/src/metric_sets/mod.rs
@@ -14,7 +14,7 @@ use pywr_core::recorders::UnresolvedOutputMetric;
 use pywr_schema_macros::skip_serializing_none;
 use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
-use std::num::NonZeroI64;
+use std::num::NonZeroU32;
 use std::path::{Path, PathBuf};
 use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticStr};
 
@@ -25,7 +25,7 @@ use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticS
 pub enum MetricAggFrequency {
     Monthly,
     Annual,
-    Days { days: NonZeroI64 },
+    Days { days: NonZeroU32 },
 }
 
 #[cfg(feature = "core")]
@@ -34,7 +34,7 @@ impl From<MetricAggFrequency> for pywr_core::recorders::AggregationFrequency {
         match value {
             MetricAggFrequency::Monthly => pywr_core::recorders::AggregationFrequency::Monthly,
             MetricAggFrequency::Annual => pywr_core::recorders::AggregationFrequency::Annual,
-            MetricAggFrequency::Days { days } => pywr_core::recorders::AggregationFrequency::Days(days),
+            MetricAggFrequency::Days { days } => pywr_core::recorders::AggregationFrequency::Days(days.into()),
         }
     }
 }
-- 
2.43.0


From 5659f9b96118e61a9929544ed209e5c2c95c0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 55/67] fix: allow aggregation periods that go beyond the range
 of dates

---
 pywr-core/src/recorders/aggregator/mod.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pywr-core/src/recorders/aggregator/mod.rs b/pywr-core/src/recorders/aggregator/mod.rs
index 8630bbc..c931fd8 100644
--- a/pywr-core/src/recorders/aggregator/mod.rs
+++ b/pywr-core/src/recorders/aggregator/mod.rs
@@ -1,6 +1,6 @@
 use crate::agg_funcs::AggFuncF64;
 use crate::timestep::PywrDuration;
-use jiff::ToSpan;
+use jiff::{SignedDuration, ToSpan};
 use jiff::civil::DateTime;
 use std::num::NonZeroI64;
 
@@ -11,15 +11,18 @@ pub enum AggregationFrequency {
     Days(NonZeroI64),
 }
 
+/// Add `days` to `date`. A period that goes beyond the range of dates lasts until its end.
+fn add_days(date: &DateTime, days: NonZeroI64) -> DateTime {
+    date.saturating_add(SignedDuration::from_hours(24 * days.get().clamp(-10_000_000, 10_000_000)))
+}
+
 impl AggregationFrequency {
     fn is_date_in_period(&self, period_start: &DateTime, date: &DateTime) -> bool {
         match self {
             Self::Monthly => (period_start.year() == date.year()) && (period_start.month() == date.month()),
             Self::Annual => period_start.year() == date.year(),
             Self::Days(days) => {
-                let period_end = period_start
-                    .checked_add(days.get().days())
-                    .expect("Date overflowed when calculating period end.");
+                let period_end = add_days(period_start, *days);
                 (period_start <= date) && (date < &period_end)
             }
         }
@@ -44,9 +47,7 @@ impl AggregationFrequency {
             Self::Days(days) => {
                 let mut next_period = *period_start;
                 while next_period <= *current_date {
-                    next_period = next_period
-                        .checked_add(days.get().days())
-                        .expect("Date overflowed when calculating next period.");
+                    next_period = add_days(&next_period, *days);
                 }
                 next_period
             }
-- 
2.43.0


From e3420e628de242e69de67e431c927530a4d51147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 56/67] fix: add the local parameters of virtual nodes to the
 network

They could be defined but were never added, so that a reference to one was
an error.
---
 pywr-schema/src/network.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pywr-schema/src/network.rs b/pywr-schema/src/network.rs
index 85918c5..740a249 100644
--- a/pywr-schema/src/network.rs
+++ b/pywr-schema/src/network.rs
@@ -639,6 +639,20 @@ impl NetworkSchema {
                 }
             }
         }
+        // Add all the parameters from the virtual nodes
+        for node in self.virtual_nodes.iter().flatten() {
+            if let Some(local_parameters) = node.local_parameters() {
+                for parameter in local_parameters {
+                    parameter
+                        .add_to_network(network_builder, &args, Some(node.name()))
+                        .map_err(|source| NetworkSchemaBuildError::AddLocalParameterError {
+                            parent: node.name().to_string(),
+                            name: parameter.name().to_string(),
+                            source: Box::new(source),
+                        })?;
+                }
+            }
+        }
         // Add any global parameters
         if let Some(parameters) = self.parameters.as_deref() {
             for parameter in parameters {
-- 
2.43.0


From 389917fab5a0111ab43665825f0fbc0cd4f4cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:07 +0000
Subject: [PATCH 57/67] fix: look up local parameters that other local
 parameters refer to

Most parameters ignored the node they are defined in when loading their
metrics. A reference to another local parameter of the same node was an
error in them.
---
 pywr-schema/src/parameters/asymmetric_switch.rs |  4 ++--
 pywr-schema/src/parameters/control_curves.rs    |  8 ++++----
 pywr-schema/src/parameters/core.rs              | 14 +++++++-------
 pywr-schema/src/parameters/delay.rs             |  4 ++--
 pywr-schema/src/parameters/discount_factor.rs   |  2 +-
 pywr-schema/src/parameters/hydropower.rs        | 10 +++++-----
 pywr-schema/src/parameters/indexed_array.rs     |  2 +-
 pywr-schema/src/parameters/interpolated.rs      |  6 +++---
 pywr-schema/src/parameters/offset.rs            |  2 +-
 pywr-schema/src/parameters/polynomial.rs        |  2 +-
 pywr-schema/src/parameters/python.rs            |  4 ++--
 pywr-schema/src/parameters/rolling.rs           |  4 ++--
 pywr-schema/src/parameters/thresholds.rs        | 10 +++++-----
 13 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/pywr-schema/src/parameters/asymmetric_switch.rs b/pywr-schema/src/parameters/asymmetric_switch.rs
index 135d786..5557523 100644
--- a/pywr-schema/src/parameters/asymmetric_switch.rs
+++ b/pywr-schema/src/parameters/asymmetric_switch.rs
@@ -29,8 +29,8 @@ impl AsymmetricSwitchIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let on_index_parameter = self.on_index_parameter.load(network, args, None)?;
-        let off_index_parameter = self.off_index_parameter.load(network, args, None)?;
+        let on_index_parameter = self.on_index_parameter.load(network, args, parent)?;
+        let off_index_parameter = self.off_index_parameter.load(network, args, parent)?;
 
         let p = pywr_core::parameters::AsymmetricSwitchIndexParameterBuilder::before(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/control_curves.rs b/pywr-schema/src/parameters/control_curves.rs
index 65964f8..f1a9e2d 100644
--- a/pywr-schema/src/parameters/control_curves.rs
+++ b/pywr-schema/src/parameters/control_curves.rs
@@ -48,12 +48,12 @@ impl ControlCurveInterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         let control_curves = self
             .control_curves
             .iter()
-            .map(|cc| cc.load(network, args, None))
+            .map(|cc| cc.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         check_number_of_values(self.control_curves.len(), self.values.len(), 2)?;
@@ -61,7 +61,7 @@ impl ControlCurveInterpolatedParameter {
         let values = self
             .values
             .iter()
-            .map(|val| val.load(network, args, None))
+            .map(|val| val.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let mut p = pywr_core::parameters::ControlCurveInterpolatedParameterBuilder::before(
@@ -285,7 +285,7 @@ impl ControlCurveParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.storage_metric.load(network, args, None)?;
+        let metric = self.storage_metric.load(network, args, parent)?;
 
         check_number_of_values(self.control_curves.len(), self.values.len(), 1)?;
 
diff --git a/pywr-schema/src/parameters/core.rs b/pywr-schema/src/parameters/core.rs
index 9ea461e..797f9c1 100644
--- a/pywr-schema/src/parameters/core.rs
+++ b/pywr-schema/src/parameters/core.rs
@@ -298,7 +298,7 @@ impl MaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let idx = self.parameter.load(network, args, None)?;
+        let idx = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MaxParameterBuilder::new(
@@ -364,8 +364,8 @@ impl DivisionParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let n = self.numerator.load(network, args, None)?;
-        let d = self.denominator.load(network, args, None)?;
+        let n = self.numerator.load(network, args, parent)?;
+        let d = self.denominator.load(network, args, parent)?;
 
         let name = ParameterName::new(&self.meta.name, parent);
 
@@ -434,7 +434,7 @@ impl MinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::MinParameterBuilder::new(
@@ -485,7 +485,7 @@ impl NegativeParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.parameter.load(network, args, None)?;
+        let metric = self.parameter.load(network, args, parent)?;
 
         let p =
             pywr_core::parameters::NegativeParameterBuilder::new(ParameterName::new(&self.meta.name, parent), metric);
@@ -545,7 +545,7 @@ impl NegativeMaxParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMaxParameterBuilder::new(
@@ -613,7 +613,7 @@ impl NegativeMinParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let threshold = self.threshold.unwrap_or(0.0);
 
         let p = pywr_core::parameters::NegativeMinParameterBuilder::new(
diff --git a/pywr-schema/src/parameters/delay.rs b/pywr-schema/src/parameters/delay.rs
index 7278898..5a01833 100644
--- a/pywr-schema/src/parameters/delay.rs
+++ b/pywr-schema/src/parameters/delay.rs
@@ -27,7 +27,7 @@ impl DelayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -59,7 +59,7 @@ impl DelayIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::DelayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/discount_factor.rs b/pywr-schema/src/parameters/discount_factor.rs
index 85ddb85..50cff4f 100644
--- a/pywr-schema/src/parameters/discount_factor.rs
+++ b/pywr-schema/src/parameters/discount_factor.rs
@@ -29,7 +29,7 @@ impl DiscountFactorParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let discount_rate = self.discount_rate.load(network, args, None)?;
+        let discount_rate = self.discount_rate.load(network, args, parent)?;
         let p = pywr_core::parameters::DiscountFactorParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             discount_rate,
diff --git a/pywr-schema/src/parameters/hydropower.rs b/pywr-schema/src/parameters/hydropower.rs
index 65bfae8..cefd77e 100644
--- a/pywr-schema/src/parameters/hydropower.rs
+++ b/pywr-schema/src/parameters/hydropower.rs
@@ -101,26 +101,26 @@ impl HydropowerTargetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let target = self.target.as_ref().map(|t| t.load(network, args, None)).transpose()?;
+        let target = self.target.as_ref().map(|t| t.load(network, args, parent)).transpose()?;
         let water_elevation = self
             .water_elevation
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let max_flow = self
             .max_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let min_flow = self
             .min_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
         let actual_flow = self
             .actual_flow
             .as_ref()
-            .map(|t| t.load(network, args, None))
+            .map(|t| t.load(network, args, parent))
             .transpose()?;
 
         let turbine_data = HydropowerTargetData {
diff --git a/pywr-schema/src/parameters/indexed_array.rs b/pywr-schema/src/parameters/indexed_array.rs
index 0e064a5..bba1a79 100644
--- a/pywr-schema/src/parameters/indexed_array.rs
+++ b/pywr-schema/src/parameters/indexed_array.rs
@@ -29,7 +29,7 @@ impl IndexedArrayParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let index_parameter = self.index_parameter.load(network, args, None)?;
+        let index_parameter = self.index_parameter.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::IndexedArrayParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/interpolated.rs b/pywr-schema/src/parameters/interpolated.rs
index 77aa1b0..5d3c660 100644
--- a/pywr-schema/src/parameters/interpolated.rs
+++ b/pywr-schema/src/parameters/interpolated.rs
@@ -40,7 +40,7 @@ impl InterpolatedParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let x = self.x.load(network, args, None)?;
+        let x = self.x.load(network, args, parent)?;
 
         // Sense check the points
         if self.xp.len() != self.fp.len() {
@@ -53,12 +53,12 @@ impl InterpolatedParameter {
         let xp = self
             .xp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
         let fp = self
             .fp
             .iter()
-            .map(|p| p.load(network, args, None))
+            .map(|p| p.load(network, args, parent))
             .collect::<Result<Vec<_>, _>>()?;
 
         let points = xp.into_iter().zip(fp).collect::<Vec<_>>();
diff --git a/pywr-schema/src/parameters/offset.rs b/pywr-schema/src/parameters/offset.rs
index 06c0474..d2262f8 100644
--- a/pywr-schema/src/parameters/offset.rs
+++ b/pywr-schema/src/parameters/offset.rs
@@ -49,7 +49,7 @@ impl OffsetParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let p = pywr_core::parameters::OffsetParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/polynomial.rs b/pywr-schema/src/parameters/polynomial.rs
index 6b84176..02bb320 100644
--- a/pywr-schema/src/parameters/polynomial.rs
+++ b/pywr-schema/src/parameters/polynomial.rs
@@ -32,7 +32,7 @@ impl Polynomial1DParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let mut builder = pywr_core::parameters::Polynomial1DParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
diff --git a/pywr-schema/src/parameters/python.rs b/pywr-schema/src/parameters/python.rs
index 1f45a3d..d2948c4 100644
--- a/pywr-schema/src/parameters/python.rs
+++ b/pywr-schema/src/parameters/python.rs
@@ -236,7 +236,7 @@ impl PythonParameter {
         let metrics = match &self.metrics {
             Some(metrics) => metrics
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
@@ -244,7 +244,7 @@ impl PythonParameter {
         let indices = match &self.indices {
             Some(indices) => indices
                 .iter()
-                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, None)?)))
+                .map(|(k, v)| Ok((k.to_string(), v.load(network, args, parent)?)))
                 .collect::<Result<HashMap<_, _>, SchemaError>>()?,
             None => HashMap::new(),
         };
diff --git a/pywr-schema/src/parameters/rolling.rs b/pywr-schema/src/parameters/rolling.rs
index 99638fe..421c296 100644
--- a/pywr-schema/src/parameters/rolling.rs
+++ b/pywr-schema/src/parameters/rolling.rs
@@ -40,7 +40,7 @@ impl RollingParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
@@ -83,7 +83,7 @@ impl RollingIndexParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
         let p = pywr_core::parameters::RollingParameterBuilder::new(
             ParameterName::new(&self.meta.name, parent),
             metric,
diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index b86514a..d90ea92 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -111,8 +111,8 @@ impl ThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
-        let threshold = self.threshold.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
+        let threshold = self.threshold.load(network, args, parent)?;
 
         // If the parameter has returned metrics, we need to create a sub-name for the threshold parameter
         // so that it can be distinguished from the indexed array parameter.
@@ -144,7 +144,7 @@ impl ThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
             network.parameters().f64(Box::new(values_builder));
         }
@@ -335,7 +335,7 @@ impl MultiThresholdParameter {
         args: &LoadArgs,
         parent: Option<&str>,
     ) -> Result<(), SchemaError> {
-        let metric = self.metric.load(network, args, None)?;
+        let metric = self.metric.load(network, args, parent)?;
 
         let name = if self.returned_metrics.is_some() {
             ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
@@ -370,7 +370,7 @@ impl MultiThresholdParameter {
             );
 
             for v in values {
-                values_builder.metric(v.load(network, args, None)?);
+                values_builder.metric(v.load(network, args, parent)?);
             }
 
             network.parameters().f64(Box::new(values_builder));
-- 
2.43.0


From e65819cb98ef335b4e74ad0c2e393bbf34f68e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 58/67] fix: put the parts of local threshold parameters into
 their node

A local MultiThreshold was added as a global parameter, and the inner
threshold of one with returned metrics was in the namespace of its own name
instead of that of its node, so that equal names in different nodes clashed.
---
 pywr-schema/src/parameters/thresholds.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-schema/src/parameters/thresholds.rs b/pywr-schema/src/parameters/thresholds.rs
index d90ea92..b2354c7 100644
--- a/pywr-schema/src/parameters/thresholds.rs
+++ b/pywr-schema/src/parameters/thresholds.rs
@@ -119,7 +119,7 @@ impl ThresholdParameter {
         // If it does not have returned metrics, we can just use the parameter name as the
         // name for the threshold parameter.
         let name = if self.returned_metrics.is_some() {
-            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
+            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
         } else {
             ParameterName::new(&self.meta.name, parent)
         };
@@ -338,9 +338,9 @@ impl MultiThresholdParameter {
         let metric = self.metric.load(network, args, parent)?;
 
         let name = if self.returned_metrics.is_some() {
-            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), Some(&self.meta.name))
+            ParameterName::new_with_subname(&self.meta.name, Some("threshold"), parent)
         } else {
-            self.meta.name.as_str().into()
+            ParameterName::new(&self.meta.name, parent)
         };
 
         let mut builder =
-- 
2.43.0


From 657ca91369dc1e36d9207c158e5d1693654cc619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:03 +0000
Subject: [PATCH 59/67] fix: pass large integers to Python as integers

---
 pywr-schema/src/py_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr-schema/src/py_utils.rs b/pywr-schema/src/py_utils.rs
index e35d7e6..7f1875a 100644
--- a/pywr-schema/src/py_utils.rs
+++ b/pywr-schema/src/py_utils.rs
@@ -112,6 +112,8 @@ pub fn try_json_value_into_py(py: Python, value: &Value) -> Result<Option<Py<PyA
         Value::Number(v) => {
             if let Some(i) = v.as_i64() {
                 Some(i.into_py_any(py)?)
+            } else if let Some(u) = v.as_u64() {
+                Some(u.into_py_any(py)?)
             } else if let Some(f) = v.as_f64() {
                 Some(f.into_py_any(py)?)
             } else {
-- 
2.43.0


From 583d345f72212f159a33465c7784828a2b6124d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 60/67] fix: use initial values of parameters with several
 values in the first step

---
 pywr-core/src/state/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 0f170e4..ff4642d 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -195,6 +195,8 @@ impl EdgeState {
 pub struct MultiValue {
     values: HashMap<String, f64>,
     indices: HashMap<String, u64>,
+    /// True until the first value is calculated. All initial values are zero.
+    is_initial: bool,
 }
 
 #[cfg(feature = "pyo3")]
@@ -226,15 +228,27 @@ impl FromPyObject<'_, '_> for MultiValue {
 
 impl MultiValue {
     pub fn new(values: HashMap<String, f64>, indices: HashMap<String, u64>) -> Self {
-        Self { values, indices }
+        Self {
+            values,
+            indices,
+            is_initial: false,
+        }
+    }
+
+    /// The value before any has been calculated. It is zero for every key.
+    fn initial() -> Self {
+        Self {
+            is_initial: true,
+            ..Self::default()
+        }
     }
 
     pub fn get_value(&self, key: &str) -> Option<&f64> {
-        self.values.get(key)
+        self.values.get(key).or(self.is_initial.then_some(&0.0))
     }
 
     pub fn get_index(&self, key: &str) -> Option<&u64> {
-        self.indices.get(key)
+        self.indices.get(key).or(self.is_initial.then_some(&0))
     }
 
     /// Check if any of the values in the MultiValue are NaN
@@ -256,7 +270,7 @@ impl ParameterValues {
         Self {
             values: vec![0.0; num_values],
             indices: vec![0; num_indices],
-            multi_values: vec![MultiValue::default(); num_multi_values],
+            multi_values: vec![MultiValue::initial(); num_multi_values],
         }
     }
 
-- 
2.43.0


From d9c2d44e4196b5cf7ff13fd35d72f3374a979f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 61/67] fix: load Python files of the same name as separate
 modules

---
 pywr-schema/src/py_utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pywr-schema/src/py_utils.rs b/pywr-schema/src/py_utils.rs
index 7f1875a..8411b1e 100644
--- a/pywr-schema/src/py_utils.rs
+++ b/pywr-schema/src/py_utils.rs
@@ -20,6 +20,8 @@ use std::collections::HashMap;
 #[cfg(all(feature = "core", feature = "pyo3"))]
 use std::ffi::CString;
 #[cfg(all(feature = "core", feature = "pyo3"))]
+use std::hash::{DefaultHasher, Hash, Hasher};
+#[cfg(all(feature = "core", feature = "pyo3"))]
 use std::path::Path;
 use std::path::PathBuf;
 use strum_macros::{Display, EnumDiscriminants, EnumIter, EnumString, IntoStaticStr};
@@ -53,7 +55,7 @@ impl PythonSource {
                 .unwrap();
 
                 let file_name = CString::new(path.file_name().unwrap().to_str().unwrap()).unwrap();
-                let module_name = CString::new(path.file_stem().unwrap().to_str().unwrap()).unwrap();
+                let module_name = CString::new(unique_module_name(path)).unwrap();
                 PyModule::from_code(py, &code, &file_name, &module_name)
             }
         }?;
@@ -62,6 +64,19 @@ impl PythonSource {
     }
 }
 
+/// The name under which to load the Python file at `path`.
+///
+/// Python keeps one module for each name. The name is made from the whole path because files in other directories
+/// (or modules that Python has imported) may have the same stem; loading them would replace each other's objects.
+#[cfg(all(feature = "core", feature = "pyo3"))]
+fn unique_module_name(path: &Path) -> String {
+    let mut hasher = DefaultHasher::new();
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf()).hash(&mut hasher);
+
+    let stem = path.file_stem().unwrap().to_str().unwrap();
+    format!("{stem}_{:016x}", hasher.finish())
+}
+
 /// Try to load optional positional arguments for a Python function from a JSON value.
 ///
 /// If `args` is `None`, an empty tuple is returned. If `args` is `Some`, each value is converted
-- 
2.43.0


From 69ca93dac33dac73e56abd025c69949d25674201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 62/67] fix: refuse Python files with null bytes with an error

---
 pywr-schema/src/py_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-schema/src/py_utils.rs b/pywr-schema/src/py_utils.rs
index 8411b1e..c719e6a 100644
--- a/pywr-schema/src/py_utils.rs
+++ b/pywr-schema/src/py_utils.rs
@@ -52,7 +52,7 @@ impl PythonSource {
                     path: path.to_path_buf(),
                     error,
                 })?)
-                .unwrap();
+                .map_err(PyErr::from)?;
 
                 let file_name = CString::new(path.file_name().unwrap().to_str().unwrap()).unwrap();
                 let module_name = CString::new(unique_module_name(path)).unwrap();
-- 
2.43.0


From a74be26f2a6b5fbf1088a22d07223d30773d8e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:48 +0000
Subject: [PATCH 63/67] fix: errors of parallel and multi-scenario runs are
 returned instead of a panic

---
 pywr-core/src/network.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/pywr-core/src/network.rs b/pywr-core/src/network.rs
index b8ead57..973bf07 100644
--- a/pywr-core/src/network.rs
+++ b/pywr-core/src/network.rs
@@ -829,8 +829,8 @@ impl Network {
     where
         S: Solver,
     {
-        // Collect all the timings from each parallel solve
-        let step_times: Vec<_> = scenario_indices
+        // Collect all the timings, or the error, from each parallel solve
+        let step_times: Vec<Result<_, NetworkStepError>> = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -841,14 +841,13 @@ impl Network {
                     // TODO clear the current parameter values state (i.e. set them all to zero).
 
                     let start_p_calc = Instant::now();
-                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)
-                        .unwrap();
+                    self.compute_components(timestep, scenario_index, current_state, p_internal_state, None)?;
 
                     // State now contains updated parameter values BUT original network state
                     let mut parameter_calculation = start_p_calc.elapsed();
 
                     // Solve determines the new network state
-                    let solve_timings = solver.solve(self, timestep, current_state).unwrap();
+                    let solve_timings = solver.solve(self, timestep, current_state)?;
                     // State now contains updated parameter values AND updated network state
 
                     // Now run the "after" method on all components
@@ -860,18 +859,18 @@ impl Network {
                         p_internal_state,
                         ms_internal_state,
                         None,
-                    )
-                    .unwrap();
+                    )?;
 
                     parameter_calculation += start_p_after.elapsed();
 
-                    (parameter_calculation, solve_timings)
+                    Ok((parameter_calculation, solve_timings))
                 },
             )
             .collect();
 
         // Add them all together
-        for (parameter_calculation, solve_timings) in step_times.into_iter() {
+        for step_time in step_times.into_iter() {
+            let (parameter_calculation, solve_timings) = step_time?;
             timings.component_timings.total += parameter_calculation;
             timings.solve += solve_timings;
         }
@@ -893,7 +892,7 @@ impl Network {
     {
         // First compute all the updated state
 
-        let p_calc_timings: Vec<_> = scenario_indices
+        let p_calc_timings: Vec<Result<_, NetworkStepError>> = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -901,26 +900,25 @@ impl Network {
                 // TODO clear the current parameter values state (i.e. set them all to zero).
 
                 let start_p_calc = Instant::now();
-                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)
-                    .unwrap();
+                self.compute_components(timestep, scenario_index, current_state, p_internal_states, None)?;
 
                 // State now contains updated parameter values BUT original network state
-                start_p_calc.elapsed()
+                Ok(start_p_calc.elapsed())
             })
             .collect();
 
         for t in p_calc_timings.into_iter() {
-            timings.component_timings.total += t;
+            timings.component_timings.total += t?;
         }
 
         // Now solve all the LPs simultaneously
 
-        let solve_timings = solver.solve(self, timestep, &mut state.states).unwrap();
+        let solve_timings = solver.solve(self, timestep, &mut state.states)?;
         // State now contains updated parameter values AND updated network state
         timings.solve += solve_timings;
 
         // Now run the "after" method on all components
-        let p_after_timings: Vec<_> = scenario_indices
+        let p_after_timings: Vec<Result<_, NetworkStepError>> = scenario_indices
             .par_iter()
             .zip(&mut state.states)
             .zip(&mut state.parameter_internal_states)
@@ -935,15 +933,14 @@ impl Network {
                         p_internal_states,
                         ms_internal_states,
                         None,
-                    )
-                    .unwrap();
-                    start_p_after.elapsed()
+                    )?;
+                    Ok(start_p_after.elapsed())
                 },
             )
             .collect();
 
         for t in p_after_timings.into_iter() {
-            timings.component_timings.total += t;
+            timings.component_timings.total += t?;
         }
 
         Ok(())
-- 
2.43.0


From 672f1ca660ffa143d4642ac3a7e0a7258bac92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:26 +0000
Subject: [PATCH 64/67] fix: the dictionary of solver arguments passed from
 Python is left as it is

---
 pywr-core/src/solvers/cbc/settings.rs      | 3 +++
 pywr-core/src/solvers/clp/settings.rs      | 3 +++
 pywr-core/src/solvers/highs/settings.rs    | 3 +++
 pywr-core/src/solvers/ipm_simd/settings.rs | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pywr-core/src/solvers/cbc/settings.rs b/pywr-core/src/solvers/cbc/settings.rs
index d8c7c36..f4336fc 100644
--- a/pywr-core/src/solvers/cbc/settings.rs
+++ b/pywr-core/src/solvers/cbc/settings.rs
@@ -95,6 +95,9 @@ pub fn build_cbc_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResult<Cbc
     let mut builder = CbcSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The caller's dictionary is left as it is
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
             kwargs.del_item("threads")?;
diff --git a/pywr-core/src/solvers/clp/settings.rs b/pywr-core/src/solvers/clp/settings.rs
index 936a9b5..10267f5 100644
--- a/pywr-core/src/solvers/clp/settings.rs
+++ b/pywr-core/src/solvers/clp/settings.rs
@@ -95,6 +95,9 @@ pub fn build_clp_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResult<Clp
     let mut builder = ClpSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The caller's dictionary is left as it is
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
             kwargs.del_item("threads")?;
diff --git a/pywr-core/src/solvers/highs/settings.rs b/pywr-core/src/solvers/highs/settings.rs
index f98a9ba..9171b2f 100644
--- a/pywr-core/src/solvers/highs/settings.rs
+++ b/pywr-core/src/solvers/highs/settings.rs
@@ -93,6 +93,9 @@ pub fn build_highs_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResult<H
     let mut builder = HighsSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The caller's dictionary is left as it is
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
 
diff --git a/pywr-core/src/solvers/ipm_simd/settings.rs b/pywr-core/src/solvers/ipm_simd/settings.rs
index 2c49437..d8cd13b 100644
--- a/pywr-core/src/solvers/ipm_simd/settings.rs
+++ b/pywr-core/src/solvers/ipm_simd/settings.rs
@@ -147,6 +147,9 @@ pub fn build_ipm_simd_settings_py(kwargs: Option<&Bound<'_, PyDict>>) -> PyResul
     let mut builder = SimdIpmSolverSettingsBuilder::default();
 
     if let Some(kwargs) = kwargs {
+        // The caller's dictionary is left as it is
+        let kwargs = pyo3::types::PyDictMethods::copy(kwargs)?;
+
         if let Ok(threads) = kwargs.get_item("threads") {
             builder = builder.threads(threads.extract::<usize>()?);
 
-- 
2.43.0


From 7f22fc45cc8b217ee63bff6e796bf0b49895bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:36 +0000
Subject: [PATCH 65/67] fix: MultiNetworkModelResult has a representation in
 Python

---
 pywr-core/src/models/multi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-core/src/models/multi.rs b/pywr-core/src/models/multi.rs
index b1b8943..eb4a9e2 100644
--- a/pywr-core/src/models/multi.rs
+++ b/pywr-core/src/models/multi.rs
@@ -335,7 +335,7 @@ impl MultiNetworkModelResult {
             .cloned()
     }
 
-    fn __rep__(&self) -> String {
+    fn __repr__(&self) -> String {
         format!(
             "<MultiNetworkModelResult with {} network results; completed in {:.2} seconds with speed {:.2} time-steps/second>",
             self.network_results.len(),
-- 
2.43.0


From 4b16176e6b2e1d6c44fa7e88c94c9ed37049052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 66/67] fix: run-multi simulates with the number of threads
 asked for

---
 pywr-cli/src/main.rs | 82 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 10 deletions(-)

diff --git a/pywr-cli/src/main.rs b/pywr-cli/src/main.rs
index 859bce2..b3550a9 100644
--- a/pywr-cli/src/main.rs
+++ b/pywr-cli/src/main.rs
@@ -162,8 +162,14 @@ fn main() -> Result<()> {
             solver,
             data_path,
             output_path,
-            threads: _,
-        } => run_multi(model, solver, data_path.as_deref(), output_path.as_deref()),
+            threads,
+        } => run_multi(
+            model,
+            solver,
+            data_path.as_deref(),
+            output_path.as_deref(),
+            *threads,
+        ),
         Commands::RunRandom {
             num_systems,
             density,
@@ -379,7 +385,7 @@ fn run(
     .unwrap();
 }
 
-fn run_multi(path: &Path, solver: &Solver, data_path: Option<&Path>, output_path: Option<&Path>) {
+fn run_multi(path: &Path, solver: &Solver, data_path: Option<&Path>, output_path: Option<&Path>, threads: usize) {
     let data = std::fs::read_to_string(path).unwrap();
     let data_path = data_path.or_else(|| path.parent());
 
@@ -389,19 +395,75 @@ fn run_multi(path: &Path, solver: &Solver, data_path: Option<&Path>, output_path
     let model = builder.build().unwrap();
 
     match *solver {
-        Solver::Clp => model.run::<ClpSolver>(&ClpSolverSettings::default()),
+        Solver::Clp => {
+            let mut settings_builder = ClpSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run::<ClpSolver>(&settings)
+        }
         #[cfg(feature = "highs")]
-        Solver::Highs => model.run::<HighsSolver>(&HighsSolverSettings::default()),
+        Solver::Highs => {
+            let mut settings_builder = HighsSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run::<HighsSolver>(&settings)
+        }
         #[cfg(feature = "cbc")]
-        Solver::Cbc => model.run::<CbcSolver>(&CbcSolverSettings::default()),
+        Solver::Cbc => {
+            let mut settings_builder = CbcSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run::<CbcSolver>(&settings)
+        }
         #[cfg(feature = "ipm-ocl")]
-        Solver::CLIPMF32 => model.run_multi_scenario::<ClIpmF32Solver>(&ClIpmSolverSettings::default()),
+        Solver::CLIPMF32 => {
+            let mut settings_builder = ClIpmSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run_multi_scenario::<ClIpmF32Solver>(&settings)
+        }
         #[cfg(feature = "ipm-ocl")]
-        Solver::CLIPMF64 => model.run_multi_scenario::<ClIpmF64Solver>(&ClIpmSolverSettings::default()),
+        Solver::CLIPMF64 => {
+            let mut settings_builder = ClIpmSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run_multi_scenario::<ClIpmF64Solver>(&settings)
+        }
         #[cfg(feature = "ipm-simd")]
-        Solver::IpmSimd => model.run_multi_scenario::<SimdIpmF64Solver>(&SimdIpmSolverSettings::default()),
+        Solver::IpmSimd => {
+            let mut settings_builder = SimdIpmSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run_multi_scenario::<SimdIpmF64Solver>(&settings)
+        }
         #[cfg(feature = "microlp")]
-        Solver::Microlp => model.run::<MicroLpSolver>(&MicroLpSolverSettings::default()),
+        Solver::Microlp => {
+            let mut settings_builder = MicroLpSolverSettingsBuilder::default();
+            if threads > 1 {
+                settings_builder = settings_builder.parallel();
+                settings_builder = settings_builder.threads(threads);
+            }
+            let settings = settings_builder.build();
+            model.run::<MicroLpSolver>(&settings)
+        }
     }
     .unwrap();
 }
-- 
2.43.0


From 1c368d9f8af69dfec59f98994bedfc45277edc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:46 +0000
Subject: [PATCH 67/67] fix: settings of the microlp solver have an effect

---
 pywr-core/src/solvers/microlp/settings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/solvers/microlp/settings.rs b/pywr-core/src/solvers/microlp/settings.rs
index db8a6dc..6cd2883 100644
--- a/pywr-core/src/solvers/microlp/settings.rs
+++ b/pywr-core/src/solvers/microlp/settings.rs
@@ -16,15 +16,15 @@ impl Default for MicroLpSolverSettings {
 
 impl SolverSettings for MicroLpSolverSettings {
     fn parallel(&self) -> bool {
-        false
+        self.parallel
     }
 
     fn threads(&self) -> usize {
-        1
+        self.threads
     }
 
     fn ignore_feature_requirements(&self) -> bool {
-        false
+        self.ignore_feature_requirements
     }
 }
 
-- 
2.43.0

