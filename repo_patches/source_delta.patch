From e5bcd7c66af13ffa4ff55a13fc8599cff288627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 01/31] fix: let LUDecomposition represent bases of zero or one
 rows

---
 .../carry/lower_upper/decomposition/mod.rs           |  7 +++----
 .../inverse_maintenance/carry/lower_upper/mod.rs     | 12 ++++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..03e0f4a 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,13 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); m.saturating_sub(1)];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +105,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); m.saturating_sub(1)];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +116,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); m.saturating_sub(1)];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..430d202 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -68,8 +68,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
@@ -98,6 +98,14 @@ where
     ) -> SparseVector<Self::F, Self::F> {
         let m = self.m();
 
+        if m == 1 {
+            // There is no triangle to update, only a single diagonal value
+            let Self::ColumnComputationInfo { column, mut spike } = column;
+            let (_, diagonal) = spike.pop().expect("The basis would be singular otherwise.");
+            self.upper_diagonal[0] = diagonal;
+            return column;
+        }
+
         let pivot_column_index = {
             // Column with a pivot in `pivot_row_index` is leaving
             let mut pivot_column_index = pivot_row_index;
-- 
2.43.0


From ec76e8f3a59f0586ddc769bb9160e5bc6b0cea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:07 +0000
Subject: [PATCH 02/31] fix: handle an activity lower bound that equals the
 right-hand side of a range constraint

---
 .../general_form/presolve/rule/domain_propagation.rs   | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..408ba73 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -255,8 +255,8 @@ where
                 Err(LinearProgramType::Infeasible)
             },
 
-            // `l <= <a, x> (== <=) b == l`
-            (BoundDirection::Lower, Equal | Less, Ordering::Equal) |
+            // `l <= <a, x> (== =r= <=) b == l`
+            (BoundDirection::Lower, Equal | Range(_) | Less, Ordering::Equal) |
             // `u >= <a, x> (== >=) b = u`
             (BoundDirection::Upper, Equal | Greater, Ordering::Equal) => {
                 Ok(Some(ConstraintUpdate::SetVariablesToBound))
@@ -305,12 +305,6 @@ where
             (BoundDirection::Upper, Equal | Range(_) | Less | Greater, Ordering::Less) => {
                 Ok(None)
             },
-
-            // `l <= <a, x> =r= b == l`
-            (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
-            },
         }
     }
 
-- 
2.43.0


From af48d779890275c0dc052835082d974184d2eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/31] fix: subtract the range when a one-sided slack turns a
 range constraint into a lower bound

---
 .../general_form/presolve/rule/slack.rs       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..213cb81 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl | <a, x> >= b-r-cu | <a, x> =r + c(u-l)= b - cl |      |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,7 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= || <a, x> >= b-r-cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -91,6 +91,7 @@ where
 
         // Patterns are ordered left to right, top to bottom and then by coefficient (positive to
         // negative)
+        let mut range_shift = None;
         let (new_constraint_type, bound) = match (constraint_type, bounds, coefficient_sign) {
             // Remove both row and column
             (Greater, (Some(_), None), Positive) | (Less, (None, Some(_)), Positive) |
@@ -135,11 +136,17 @@ where
                 // <a, x> <= b - cl
                 (RangedConstraintRelation::Less, bound)
             },
-            (Equal | Greater | Range(_), (None, Some(bound)), Positive) | (Greater, (Some(_), Some(bound)), Positive) => {
+            (Range(range), (None, Some(bound)), Positive) | (Range(range), (Some(bound), None), Negative) => {
+                // c > 0: <a, x> >= b - r - cu
+                // c < 0: <a, x> >= b - r - cl
+                range_shift = Some(-range);
+                (RangedConstraintRelation::Greater, bound)
+            },
+            (Equal | Greater, (None, Some(bound)), Positive) | (Greater, (Some(_), Some(bound)), Positive) => {
                 // <a, x> >= b - cu
                 (RangedConstraintRelation::Greater, bound)
             },
-            (Equal | Greater | Range(_), (Some(bound), None), Negative) | (Greater, (Some(bound), Some(_)), Negative) => {
+            (Equal | Greater, (Some(bound), None), Negative) | (Greater, (Some(bound), Some(_)), Negative) => {
                 // <a, x> >= b - cl
                 (RangedConstraintRelation::Greater, bound)
             },
@@ -157,7 +164,10 @@ where
             },
         };
 
-        let change = -&coefficient * &bound;
+        let mut change = -&coefficient * &bound;
+        if let Some(range_shift) = range_shift {
+            change += range_shift;
+        }
 
         let removed = match constraint_type {
             Equal | Range(_) => {
-- 
2.43.0


From 6ad539674a700af53f7ae4c5ca1956c15c118bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:27 +0000
Subject: [PATCH 04/31] fix: keep the value of a slack removed from an
 inequality or range constraint within its bounds

---
 src/data/linear_program/general_form/mod.rs   | 70 ++++++++++++++++---
 .../general_form/presolve/rule/slack.rs       | 10 ++-
 .../general_form/presolve/updates.rs          | 26 ++++++-
 3 files changed, 94 insertions(+), 12 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..94e9ce7 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -102,6 +102,28 @@ enum OriginalVariable<F> {
     ///
     /// Probably by a presolve operation. An explicit value might not be known.
     Removed(RemovedVariable<F>),
+
+    /// Variable with bounds was removed because it could be viewed as a slack.
+    ///
+    /// The value is the affine function `constant - <coefficients, x>`, see the
+    /// `RemovedVariable::FunctionOfOthers` variant, or the bound that value violates. Only a slack
+    /// of an inequality or range constraint can violate a bound, in which case moving it to that
+    /// bound keeps the constraint satisfied.
+    RemovedSlack {
+        constant: F,
+        coefficients: SparseTupleVec<F>,
+        lower_bound: Option<F>,
+        upper_bound: Option<F>,
+    },
+}
+
+/// Move a value to the interval described by the (optional) bounds.
+fn clamp<F: Ord>(value: F, lower_bound: Option<F>, upper_bound: Option<F>) -> F {
+    match (lower_bound, upper_bound) {
+        (Some(lower), _) if value < lower => lower,
+        (_, Some(upper)) if value > upper => upper,
+        _ => value,
+    }
 }
 
 /// A variable from the original problem that was removed.
@@ -438,10 +460,6 @@ where
 
         self.fixed_cost += fixed_cost;
 
-        for (j, variable) in solved_variables {
-            self.original_variables[j].1 = OriginalVariable::Removed(variable);
-        }
-
         for ((j, direction), value) in bounds {
             let variable = &mut self.variables[j];
             *match direction {
@@ -449,6 +467,22 @@ where
                 BoundDirection::Upper => &mut variable.upper_bound,
             } = Some(value);
         }
+
+        for (j, removed) in solved_variables {
+            let variable = &self.variables[j];
+            let removed = match removed {
+                FunctionOfOthers { constant, coefficients } if !variable.is_free() => {
+                    OriginalVariable::RemovedSlack {
+                        constant,
+                        coefficients,
+                        lower_bound: variable.lower_bound.clone(),
+                        upper_bound: variable.upper_bound.clone(),
+                    }
+                },
+                other => OriginalVariable::Removed(other),
+            };
+            self.original_variables[j].1 = removed;
+        }
     }
 
     /// Remove a set of rows and columns from the constraint data.
@@ -721,7 +755,10 @@ where
         let mut new_solutions = vec![None; self.original_variables.len()];
         let mut changed = Vec::new();
         for (j, (_, variable)) in self.original_variables.iter().enumerate() {
-            if let OriginalVariable::Removed(FunctionOfOthers { .. }) = variable {
+            if matches!(
+                variable,
+                OriginalVariable::Removed(FunctionOfOthers { .. }) | OriginalVariable::RemovedSlack { .. },
+            ) {
                 if self.compute_solution_value(j, &mut new_solutions).is_some() {
                     changed.push(j);
                 }
@@ -761,13 +798,20 @@ where
             OriginalVariable::Active(_) => None,
             OriginalVariable::ActiveFree(_, _) => None,
             OriginalVariable::Removed(Solved(value)) => Some(value),
-            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) => {
+            OriginalVariable::Removed(FunctionOfOthers { constant, coefficients }) |
+            OriginalVariable::RemovedSlack { constant, coefficients, .. } => {
                 if new_solutions[variable].is_none() {
                     new_solutions[variable] = coefficients.iter().map(|(j, coefficient)| {
                         self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
                     })
                         .sum::<Option<OF>>()
-                        .map(|inner_product| constant - inner_product);
+                        .map(|inner_product| constant - inner_product)
+                        .map(|value| match &self.original_variables[variable].1 {
+                            OriginalVariable::RemovedSlack { lower_bound, upper_bound, .. } => {
+                                clamp(value, lower_bound.clone(), upper_bound.clone())
+                            },
+                            _ => value,
+                        });
                 }
 
                 new_solutions[variable].as_ref()
@@ -893,7 +937,7 @@ where
         reduced_solution: &SparseVector<G, G>,
     ) -> &'a G
     where
-        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero,
+        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero + Ord,
         for<'r> G: Add<&'r OF, Output=G>,
         for<'r> &'r G: Neg<Output=G> + Mul<&'r OF, Output=G> + Add<&'r OF, Output=G> + Sub<&'r G, Output=G>,
     {
@@ -925,7 +969,15 @@ where
                         self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
                     })
                     .sum::<G>() + constant
-            }
+            },
+            OriginalVariable::RemovedSlack { constant, coefficients, lower_bound, upper_bound } => {
+                let value = -coefficients.iter()
+                    .map(|(j, coefficient)| {
+                        self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
+                    })
+                    .sum::<G>() + constant;
+                clamp(value, lower_bound.clone().map(G::from), upper_bound.clone().map(G::from))
+            },
         };
 
         new_solutions[variable] = Some(new_solution);
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 213cb81..a966679 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -103,6 +103,9 @@ where
                 // they make about the state of counters, updates etc.
 
                 let solution = self.compute_removed_variable_solution(constraint, variable, &coefficient);
+                if !matches!(constraint_type, Equal) {
+                    self.updates.adopt_slack_bounds(variable);
+                }
 
                 let variables_to_scan = self.counters.iter_active_row(constraint)
                     .map(|(j, _)| j).collect::<Vec<_>>();
@@ -170,9 +173,14 @@ where
         }
 
         let removed = match constraint_type {
-            Equal | Range(_) => {
+            Equal => {
                 self.compute_removed_variable_solution(constraint, variable, &coefficient)
             }
+            Range(_) => {
+                let solution = self.compute_removed_variable_solution(constraint, variable, &coefficient);
+                self.updates.adopt_slack_bounds(variable);
+                solution
+            }
             Greater | Less => RemovedVariable::Solved(bound),
         };
         self.counters.variable[variable] -= 1;
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 90bf812..73a2d24 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -48,6 +48,12 @@ pub struct Updates<'a, F> {
     /// This collection is here only to avoid an extra scan over the `column_counters`.
     pub constraints_marked_removed: Vec<usize>,
 
+    /// Slacks that were removed from a constraint that is not an equality.
+    ///
+    /// Such a constraint doesn't determine the value of the slack, it only limits it, so the bounds
+    /// of the slack are necessary to compute its value later. They are kept in the `bounds` field.
+    bounded_slacks: HashSet<usize>,
+
     // Changes during presolving, might be discarded when computing final changes
     /// Activity variable bounds.
     ///
@@ -152,6 +158,7 @@ where
             // Variables that don't appear in any constraint are removed right away.
             removed_variables,
             constraints_marked_removed,
+            bounded_slacks: HashSet::new(),
 
             activity_bounds: HashMap::new(),
 
@@ -364,6 +371,19 @@ where
         }
     }
 
+    /// Make sure that the latest bounds of a slack that will be removed are exported.
+    ///
+    /// The value of a slack that is removed from a constraint that is not an equality is computed
+    /// using these bounds.
+    pub(super) fn adopt_slack_bounds(&mut self, variable: usize) {
+        for direction in [BoundDirection::Lower, BoundDirection::Upper] {
+            if let Some(bound) = self.activity_bounds.remove(&(variable, direction)) {
+                self.bounds.insert((variable, direction), bound);
+            }
+        }
+        self.bounded_slacks.insert(variable);
+    }
+
     /// Sets variables that can be optimized independently of all others to their optimal values.
     pub(super) fn optimize_column_independently(
         &mut self,
@@ -402,8 +422,10 @@ where
             self.constraints.remove(constraint);
         }
         for variable in self.removed_variables.iter().map(|&(j, _)| j) {
-            self.bounds.remove(&(variable, BoundDirection::Lower));
-            self.bounds.remove(&(variable, BoundDirection::Upper));
+            if !self.bounded_slacks.contains(&variable) {
+                self.bounds.remove(&(variable, BoundDirection::Lower));
+                self.bounds.remove(&(variable, BoundDirection::Upper));
+            }
 
             self.activity_bounds.remove(&(variable, BoundDirection::Lower));
             self.activity_bounds.remove(&(variable, BoundDirection::Upper));
-- 
2.43.0


From 605407289f2e583d03a6a450b9a0d9d04450ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 05/31] fix: mark the right original variable when presolving
 for a second time

---
 src/data/linear_program/general_form/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 94e9ce7..78ff01f 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -481,7 +481,7 @@ where
                 },
                 other => OriginalVariable::Removed(other),
             };
-            self.original_variables[j].1 = removed;
+            self.original_variables[self.from_active_to_original[j]].1 = removed;
         }
     }
 
-- 
2.43.0


From f728b3980efbc39812d2a444f04b01debe026ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 06/31] fix: negate the fixed cost too when turning a
 maximization into a minimization

---
 src/data/linear_program/general_form/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 78ff01f..e79cf41 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -661,6 +661,7 @@ where
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
+            self.fixed_cost *= -OF::one();
         }
     }
 
-- 
2.43.0


From cf46bf17cdd0242e7bf2d810303b38cfa1492577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 07/31] fix: don't call a problem unbounded in presolve before
 it is known to be feasible

---
 .../general_form/presolve/mod.rs              | 10 ++++--
 .../general_form/presolve/updates.rs          | 32 ++++++++++---------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..dd28a70 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -309,11 +309,15 @@ where
                 debug_assert!(self.updates.variable_feasible_value(variable).is_some());
 
                 let value = if self.general_form.variables[variable].cost.is_zero() {
-                    RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap())
+                    self.updates.variable_feasible_value(variable).map(RemovedVariable::Solved)
                 } else {
-                    self.updates.optimize_column_independently(variable)?
+                    self.updates.optimize_column_independently(variable)
                 };
-                self.remove_variable(variable, value);
+                // If there is no best value, the variable (without coefficients) stays, because
+                // the problem is only unbounded if the rest of the problem is feasible.
+                if let Some(value) = value {
+                    self.remove_variable(variable, value);
+                }
             },
             1 => if self.general_form.variables[variable].cost.is_zero() {
                 self.queues.slack.push(variable);
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 73a2d24..a825081 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -116,7 +116,7 @@ where
         let mut fixed_cost = OF::zero();
         let removed_variables = counters.variable.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
-            .map(|(j, _)| {
+            .filter_map(|(j, _)| {
                 let variable = &general_form.variables[j];
                 // There should be a feasible value, otherwise, reading of the problem should have
                 // been ended due to a trivial infeasibility.
@@ -125,6 +125,8 @@ where
                 let value = if variable.cost.is_zero() {
                     variable.get_feasible_value().unwrap()
                 } else {
+                    // If the objective can be improved indefinitely with this variable, it is not
+                    // yet known that the problem is unbounded: it might still be infeasible.
                     let value = optimize_independent_column(
                         general_form.objective,
                         &variable.cost,
@@ -134,8 +136,8 @@ where
                     value
                 };
 
-                Ok((j, RemovedVariable::Solved(value)))
-            }).collect::<Result<_, _>>()?;
+                Some((j, RemovedVariable::Solved(value)))
+            }).collect();
 
         let constraints_marked_removed = counters.constraint.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
@@ -385,20 +387,24 @@ where
     }
 
     /// Sets variables that can be optimized independently of all others to their optimal values.
+    ///
+    /// # Return value
+    ///
+    /// `None` if there is no optimal value, because the objective can be improved indefinitely.
     pub(super) fn optimize_column_independently(
         &mut self,
         variable: usize,
-    ) -> Result<RemovedVariable<OF>, LinearProgramType<OF>> {
+    ) -> Option<RemovedVariable<OF>> {
         debug_assert_ne!(self.general_form.variables[variable].cost, OF::zero());
 
         let new_value = self.get_optimized_value(variable)?;
         self.fixed_cost += &self.general_form.variables[variable].cost * &new_value;
 
-        Ok(RemovedVariable::Solved(new_value))
+        Some(RemovedVariable::Solved(new_value))
     }
 
     /// Gets the value that maximizes a column's contribution in the objective direction.
-    fn get_optimized_value(&self, variable: usize) -> Result<OF, LinearProgramType<OF>> {
+    fn get_optimized_value(&self, variable: usize) -> Option<OF> {
         let objective = self.general_form.objective;
         let cost = &self.general_form.variables[variable].cost;
         let lower_bound = self.variable_bound(variable, BoundDirection::Lower);
@@ -554,16 +560,12 @@ where
 /// # Returns
 ///
 /// The optimal value if the variable appears in the objective function. Otherwise, any feasible
-/// value.
-///
-/// # Errors
-///
-/// The problem might be unbounded.
+/// value. `None` if there is no optimal value, because there is no bound in the objective direction.
 fn optimize_independent_column<OF>(
     objective: Objective,
     cost: &OF,
     (lower_bound, upper_bound): (Option<&OF>, Option<&OF>),
-) -> Result<OF, LinearProgramType<OF>>
+) -> Option<OF>
 where
     OF: OrderedField,
     for<'r> &'r OF: OrderedFieldRef<OF>,
@@ -572,11 +574,11 @@ where
 
     match (objective, cost_sign) {
         (Objective::Minimize, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
-            lower_bound.ok_or(LinearProgramType::Unbounded)
+            lower_bound
         },
         (Objective::Maximize, Ordering::Greater) | (Objective::Minimize, Ordering::Less) => {
-            upper_bound.ok_or(LinearProgramType::Unbounded)
+            upper_bound
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-    }.map(OF::clone)
+    }.cloned()
 }
-- 
2.43.0


From ab078908aa2117004613f0662f28f5612f4281e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:56 +0000
Subject: [PATCH 08/31] fix: substitute all fixed variables before applying
 other presolve rules

---
 src/data/linear_program/general_form/presolve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index dd28a70..8c6ad38 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
-- 
2.43.0


From 779223858e4889d2cfe881f3fa87cc32a9a7b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 09/31] fix: recompute the activity bounds of a constraint
 after a variable was removed from it

---
 .../linear_program/general_form/presolve/rule/fixed_variable.rs | 2 ++
 src/data/linear_program/general_form/presolve/rule/slack.rs     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..803ffaf 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -30,6 +30,8 @@ where
 
         for (constraint, coefficient) in self.counters.iter_active_column(variable) {
             self.updates.change_b(constraint, -coefficient * &value);
+            // These include the contribution of this variable, which is now part of `b`.
+            self.activity_bounds[constraint] = (None, None);
         }
         self.updates.fixed_cost += &self.general_form.variables[variable].cost * &value;
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index a966679..94ebd14 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -191,6 +191,8 @@ where
         self.queue_constraint_by_counter(constraint).map(|_| ())?;
 
         self.updates.change_b(constraint, change);
+        // These include the contribution of the slack.
+        self.activity_bounds[constraint] = (None, None);
         self.updates.constraints.insert(constraint, new_constraint_type);
 
         Ok(())
-- 
2.43.0


From 99844845231c4f954be94446d8ce3bc0a07efdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 10/31] fix: report infeasibility when presolve derives
 conflicting variable bounds

---
 .../general_form/presolve/mod.rs              | 12 ++++++++-
 .../presolve/rule/bound_constraint.rs         |  9 +++----
 .../presolve/rule/domain_propagation.rs       | 26 ++++++++++---------
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 8c6ad38..3418ae0 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -176,18 +176,26 @@ where
     /// * `direction`: Whether the lower- or upper variable bound was updated.
     /// * `change`: Whether another bound was previously known, and the difference between the
     /// former and current bound.
+    ///
+    /// # Errors
+    ///
+    /// If the variable has no feasible value anymore.
     fn after_bound_change(
         &mut self,
         variable: usize,
         direction: BoundDirection,
         change: Option<OF>,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         debug_assert!(self.updates.removed_variables.iter().all(|&(j, _)| variable != j));
         debug_assert!(match direction {
             BoundDirection::Lower => change.as_ref().map_or(true, |v| v.is_positive()),
             BoundDirection::Upper => change.as_ref().map_or(true, |v| v.is_negative()),
         });
 
+        if self.updates.variable_feasible_value(variable).is_none() {
+            return Err(LinearProgramType::Infeasible);
+        }
+
         if self.updates.is_variable_fixed(variable).is_some() && self.counters.is_variable_still_active(variable) {
             self.queues.substitution.push(variable);
         }
@@ -196,6 +204,8 @@ where
             Some(difference) => self.update_activity_bounds(variable, direction, difference),
             None => self.update_activity_counters(variable, direction),
         }
+
+        Ok(())
     }
 
     /// Update an activity bound if it exists.
diff --git a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
index ab2ba64..8d7dd3d 100644
--- a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
+++ b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
@@ -74,14 +74,11 @@ where
         for (direction, bound_value) in changes {
             match self.updates.update_bound(variable, direction, bound_value) {
                 BoundChange::None => {}
-                BoundChange::NewBound => self.after_bound_change(variable, direction, None),
-                BoundChange::BoundShift(shift) => self.after_bound_change(variable, direction, Some(shift)),
+                BoundChange::NewBound => self.after_bound_change(variable, direction, None)?,
+                BoundChange::BoundShift(shift) => self.after_bound_change(variable, direction, Some(shift))?,
             }
         }
 
-        match self.updates.variable_feasible_value(variable) {
-            None => Err(LinearProgramType::Infeasible),
-            Some(_) => self.queue_variable_by_counter(variable),
-        }
+        self.queue_variable_by_counter(variable)
     }
 }
diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 408ba73..9b166fd 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -51,7 +51,7 @@ where
 
         match counter {
             0 => self.for_entire_constraint(constraint, direction),
-            1 => Ok(self.create_variable_bound(constraint, direction)),
+            1 => self.create_variable_bound(constraint, direction),
             _ => unreachable!("Constraint should not be added to the activity queue before the counter is 0 or 1."),
         }
     }
@@ -99,7 +99,7 @@ where
                     &activity_bound,
                     direction,
                     &mut most_meaningful_change,
-                );
+                )?;
             }
         }
 
@@ -332,7 +332,7 @@ where
         activity_bound: &OF,
         activity_direction: BoundDirection,
         made_change: &mut Change,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         let targets = self.counters.iter_active_row(constraint)
             .map(|(i, v)| (i, v.clone())) // TODO(ARCHITECTURE): Avoid this clone
             .collect::<Vec<_>>();
@@ -355,17 +355,19 @@ where
             match change {
                 BoundChange::None => {},
                 BoundChange::NewBound => {
-                    self.after_bound_change(variable, new_variable_bound_direction, None);
+                    self.after_bound_change(variable, new_variable_bound_direction, None)?;
                     *made_change = Change::Meaningful;
                 },
                 BoundChange::BoundShift(change) => {
-                    self.after_bound_change(variable, new_variable_bound_direction, Some(change));
+                    self.after_bound_change(variable, new_variable_bound_direction, Some(change))?;
                     if *made_change != Change::Meaningful {
                         *made_change = Change::NotMeaningful;
                     }
                 },
             }
         }
+
+        Ok(())
     }
 
     /// Apply domain propagation through activation bounds for a constraint where all but one of the
@@ -379,7 +381,7 @@ where
         &mut self,
         constraint: usize,
         activity_direction: BoundDirection,
-    ) -> Change {
+    ) -> Result<Change, LinearProgramType<OF>> {
         // We should be exactly one variable bound away from being able to compute an activity
         // bound, otherwise, a different rule should be applied.
         debug_assert_eq!(
@@ -391,7 +393,7 @@ where
         );
 
         let right_hand_side = match self.can_variable_rule_be_applied(constraint, activity_direction) {
-            None => return Change::None,
+            None => return Ok(Change::None),
             Some(value) => value,
         };
 
@@ -413,14 +415,14 @@ where
         let value = (right_hand_side - total_activity) / target_coefficient;
         let bound_direction = !activity_direction * target_coefficient.non_zero_signum();
         match self.updates.update_activity_variable_bound(target_column, bound_direction, value) {
-            BoundChange::None => Change::None,
+            BoundChange::None => Ok(Change::None),
             BoundChange::NewBound => {
-                self.after_bound_change(target_column, bound_direction, None);
-                Change::Meaningful
+                self.after_bound_change(target_column, bound_direction, None)?;
+                Ok(Change::Meaningful)
             },
             BoundChange::BoundShift(shift) => {
-                self.after_bound_change(target_column, bound_direction, Some(shift));
-                Change::NotMeaningful
+                self.after_bound_change(target_column, bound_direction, Some(shift))?;
+                Ok(Change::NotMeaningful)
             },
         }
     }
-- 
2.43.0


From e78c283e43504228047717aaa1dafe0a0edc966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 11/31] fix: keep derived variable bounds that were used to
 weaken or remove a constraint

---
 .../presolve/rule/domain_propagation.rs        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 9b166fd..c0c4dc6 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -166,6 +166,10 @@ where
     ) -> Result<(bool, bool), LinearProgramType<OF>> {
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
+            // The constraint is weakened or removed because of these bounds. They might in turn have
+            // been derived using this constraint, so they should not be lost.
+            self.adopt_activity_bounds(constraint, direction);
+
             let (remove_constraint, apply_variable_part) = match change {
                 ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
@@ -184,10 +188,6 @@ where
                             // TODO(ARCHITECTURE): Try to avoid this clone.
                             .clone();
 
-                        // Move the bound over to the "permanent" bound changes
-                        if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
-                            self.updates.bounds.insert((variable, variable_direction), bound_value);
-                        }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
                         if change == BoundChange::NewBound {
@@ -213,6 +213,16 @@ where
         }
     }
 
+    /// Move the variable bounds an activity bound is based on to the "permanent" bound changes.
+    fn adopt_activity_bounds(&mut self, constraint: usize, direction: BoundDirection) {
+        for (variable, coefficient) in self.counters.iter_active_row(constraint) {
+            let variable_direction = direction * coefficient.non_zero_signum();
+            if let Some(bound_value) = self.updates.activity_bounds.remove(&(variable, variable_direction)) {
+                self.updates.bounds.insert((variable, variable_direction), bound_value);
+            }
+        }
+    }
+
     /// Whether a constraint can be removed.
     ///
     /// We start with `<a, x> (== =r= <= >=) b`, `l <= <a, x>` or `<a, x> <= u` and `a (= < >) b`
-- 
2.43.0


From 13a6488357b6e14c2e045610260f0d0b68476b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 12/31] fix: allow scaling a linear program in which all values
 are zero or one

---
 .../general_form/presolve/scale/rational/mod.rs       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..083514c 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -55,7 +55,7 @@ where
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(scale_per_factor, self.b.len(), self.variables.len());
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -651,15 +651,16 @@ where
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize, nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
+    // There might be no factors at all, when all values are zero, one or minus one.
+    debug_assert!(scale_per_factor.iter().all(|(_, ((_, rows), columns))| {
+        rows.len() == nr_rows && columns.len() == nr_columns
+    }));
 
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
-- 
2.43.0


From 3759f85fc82c6448ac9ddcd44cad6994cb14963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:06 +0000
Subject: [PATCH 13/31] fix: report a trivial infeasibility when the bounds of
 a variable conflict

---
 src/io/mps/convert.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..8562f98 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -178,6 +178,16 @@ fn process_bounds<FI, FO: From<FI> + Zero + One + Ord + Clone>(
 
     fill_in_default_lower_bounds(variable_info, needs_default_lower_bound);
 
+    let any_without_feasible_value = variable_info.iter().any(|variable| {
+        match (&variable.lower_bound, &variable.upper_bound) {
+            (Some(lower), Some(upper)) => lower > upper,
+            _ => false,
+        }
+    });
+    if any_without_feasible_value {
+        return Err(Inconsistency::new("Trivial infeasibility: a variable has no feasible value."));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 471c34cf649116d481d0d75488ddcaac50e54eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:33 +0000
Subject: [PATCH 14/31] fix: display an inconsistency without recursing
 endlessly

---
 src/io/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..c20f969 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,12 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
 impl Error for Inconsistency {
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        None
     }
 }
-- 
2.43.0


From d9583f8b35be68d8c8eb62cdbc52ab3f52089883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 15/31] fix: don't panic on or misread number texts that can't
 be represented

---
 src/io/mps/number/parse.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..ee70c5e 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,14 +78,19 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, text) = match text.strip_prefix('-') {
+            Some(text) => (true, text),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
+        if !text.contains(|c: char| c.is_ascii_digit()) {
+            return Err(ParseError::new(format!("No digits in number text \"{}\".", text)));
+        }
 
         let parse = |text: &str, number_part| {
             if text.is_empty() {
                 Ok(0)
+            } else if text.starts_with('+') {
+                Err(ParseError::new(format!("Unexpected sign in {} \"{}\".", number_part, text)))
             } else {
                 text.parse()
                     .map_err(|error| ParseError::wrap_other(
@@ -104,7 +109,12 @@ impl TryFrom<&str> for Raw {
                 let integer_part = parse(&text[0..index], "integer part")?;
                 let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
+                let integer = 10_u64.checked_pow(from_right)
+                    .and_then(|power| power.checked_mul(integer_part))
+                    .and_then(|shifted| shifted.checked_add(mantissa_part))
+                    .ok_or_else(|| ParseError::new(format!("Too many digits in \"{}\".", text)))?;
+
+                (integer, from_right)
             },
         };
         
-- 
2.43.0


From 9fbdd5e4f77517d8b6766f893bbef2ab5adfb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 16/31] fix: apply the range of a row without a right-hand
 side, or with equal ones

---
 src/io/mps/convert.rs | 57 +++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 8562f98..3c0344a 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -474,27 +474,10 @@ where
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
     for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
         match &mut b[i] {
-            None => match &mut constraints[i] {
-                RangedConstraintRelation::Range(range) => {
-                    let range_sign = range.cmp(&&mut OFO::zero());
-                    if range < &mut OFO::zero() {
-                        *range = -&*range;
-                    }
-                    let value = value.into();
-                    let bound  = match (rows[i].constraint_type, range_sign) {
-                        (ConstraintRelation::Greater, _) => value + &*range,
-                        (ConstraintRelation::Less, _) => value,
-                        (ConstraintRelation::Equal, Ordering::Greater | Ordering::Equal) => value + &*range,
-                        (ConstraintRelation::Equal, Ordering::Less | Ordering::Equal) => value,
-                    };
-                    b[i] = Some(bound);
-                },
-                _ => b[i] = Some(value.into()),
-            }
+            None => b[i] = Some(apply_range(value.into(), &mut constraints[i], rows[i].constraint_type)),
+            // There can be at most one rhs value for each row that has a range, others are equal.
+            Some(_) if matches!(constraints[i], RangedConstraintRelation::Range(_)) => {},
             Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
-
                 let converted: OFO = value.into();
                 match rows[i].constraint_type {
                     ConstraintRelation::Equal => if &converted != current {
@@ -514,10 +497,42 @@ where
     }
 
     // Substitute the default value.
-    let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+    let b = b.into_iter().enumerate()
+        .map(|(i, value)| value.unwrap_or_else(|| {
+            apply_range(OFO::zero(), &mut constraints[i], rows[i].constraint_type)
+        }))
+        .collect();
     Ok(DenseVector::new(b, nr_rows))
 }
 
+/// Compute the upper bound of a constraint, and make its range (if it has one) positive.
+///
+/// See the documentation of the `Range` struct.
+fn apply_range<F: Zero + PartialOrd>(
+    value: F,
+    constraint: &mut RangedConstraintRelation<F>,
+    row_type: ConstraintRelation,
+) -> F
+where
+    for<'r> F: Add<&'r F, Output=F>,
+    for<'r> &'r F: Neg<Output=F>,
+{
+    match constraint {
+        RangedConstraintRelation::Range(range) => {
+            let is_negative = *range < F::zero();
+            if is_negative {
+                *range = -&*range;
+            }
+            match row_type {
+                ConstraintRelation::Greater => value + &*range,
+                ConstraintRelation::Less => value,
+                ConstraintRelation::Equal => if is_negative { value } else { value + &*range },
+            }
+        },
+        _ => value,
+    }
+}
+
 #[cfg(test)]
 #[allow(clippy::shadow_unrelated)]
 mod test {
-- 
2.43.0


From d125905cadb0605e63c3f79635e66de615f45eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 17/31] fix: don't store coefficients of a MPS that are
 explicitly zero

---
 src/io/mps/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 3c0344a..6f4381d 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,12 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            // Explicit zeros should not be part of the sparse representation
+            let values = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                .filter(|(_, v): &(usize, FO)| v.is_not_zero())
+                .collect();
+            (values, names)
         })
         .unzip();
 
-- 
2.43.0


From 8ce97294ead6aacaa3c964f3e8fbd03d9dbc8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 18/31] fix: return an error for bounds on semi-continuous
 variables instead of panicking

---
 src/io/mps/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..c1a3eda 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -741,7 +741,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous variables are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
-- 
2.43.0


From 89ebf86d7ed64cc547773c245fb9413fb4e34394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 19/31] fix: only accept exact row types and don't slice
 through characters of a MPS header

---
 src/io/mps/parse/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index c1a3eda..0856561 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -179,17 +179,14 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
                 return Err(ParseError::with_location("Line too short.", (number, line)));
             }
 
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
-                    format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
-                    ),
+                    format!("Expected a \"{}\" indicator at the start of the line", NAME),
                     (number, line),
                 ))
             }
@@ -821,7 +818,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word.trim() {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From 1e1a64e8b823f98e5709918fe1f4a4a3a72a27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 20/31] fix: reject duplicate columns and duplicate cost values

---
 src/io/mps/parse/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 0856561..f76f6c6 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -415,6 +415,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new(
+                                        format!("Duplicate cost value for column \"{}\"", column_name),
+                                    ).into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -496,19 +501,24 @@ fn save_to_column_collector<F>(
 ///
 /// A map assigning to each column name a value.
 ///
+/// # Errors
+///
+/// If there are columns with duplicate names, the MPS is considered inconsistent.
+///
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
-
-    columns.iter()
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let index = columns.iter()
         .enumerate()
         .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+        .collect::<HashMap<_, _>>();
+
+    if index.len() < columns.len() {
+        Err(Inconsistency::new("Not all column names are unique"))
+    } else {
+        Ok(index)
+    }
 }
 
 trait ListedInGroup {
-- 
2.43.0


From 2dba76c0ad28b37bab7bbd74812d838835e6ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 21/31] fix: read fixed format lines that are shorter than all
 fields, or contain multi-byte characters

---
 src/io/mps/parse/fixed.rs | 76 ++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..81bc866 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -42,10 +42,8 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
         if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
-
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
+            let type_text = field(line, FIELDS[1].clone())?;
+            let name = field(line, FIELDS[2].clone())?.trim_end();
             if name.is_empty() {
                 Err(ParseError::new("Empty row name."))
             } else {
@@ -58,18 +56,18 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
         if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
+            if field(line, FIELDS[3].clone())? == COLUMN_SECTION_MARKER {
                 if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
+                    Ok(ColumnLineContent::Marker([field(line, FIELDS[5].clone())?]))
                 } else {
                     Err(ParseError::new("Line is too short to be a marker line."))
                 }
             } else {
                 Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
+                    field(line, FIELDS[2].clone())?.trim_end(),
+                    field(line, FIELDS[3].clone())?.trim_end(),
+                    field(line, FIELDS[4].clone())?.trim(),
+                ], rest(line, FIELDS[4].end)?))
             }
         } else {
             Err(ParseError::new("Line is too short."))
@@ -79,43 +77,35 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
         if line.len() >= FIELDS[4].end {
             Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
+                field(line, FIELDS[2].clone())?.trim_end(),
+                field(line, FIELDS[3].clone())?.trim_end(),
+                field(line, FIELDS[4].clone())?.trim(),
+            ], rest(line, FIELDS[4].end)?))
         } else {
             Err(ParseError::new("Line is too short."))
         }
     }
 
     fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
-
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
-
-        Ok(result)
+        let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
+        let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
+
+        let five = field(line_after_first_four, five_start..five_end)?.trim_end();
+        let six = field(line_after_first_four, six_start..six_end)?.trim();
+        match (five.is_empty(), six.is_empty()) {
+            (true, true) => Ok(None),
+            (false, false) => Ok(Some([five, six])),
+            _ => Err(ParseError::new("Line has only one of the fifth and sixth elements.")),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
         if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
-
-            let rest = &line[FIELDS[3].end..];
+            let type_text = field(line, FIELDS[1].clone())?;
+            let name = field(line, FIELDS[2].clone())?.trim_end();
+            let column = field(line, FIELDS[3].clone())?.trim_end();
 
-            Ok(([type_text, name, column], rest))
+            Ok(([type_text, name, column], rest(line, FIELDS[3].end)?))
         } else {
             Err(ParseError::new("Line is too short."))
         }
@@ -125,7 +115,7 @@ impl<'a> ColumnRetriever<'a> for Fixed {
         let end_of_column = FIELDS[4].end - FIELDS[3].end;
         if rest_of_line.len() >= end_of_column {
             let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
+            let value_text = field(rest_of_line, start_of_column..end_of_column)?.trim();
             Ok([value_text])
         } else {
             Err(ParseError::new("Line doesn't contain another value, it's too short."))
@@ -133,6 +123,18 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 }
 
+/// Read (the part that is present of) a character range.
+fn field(line: &str, range: Range<usize>) -> ParseResult<&str> {
+    line.get(range.start.min(line.len())..range.end.min(line.len()))
+        .ok_or_else(|| ParseError::new("Line contains a character that crosses a field boundary."))
+}
+
+/// The part of the line after a number of characters.
+fn rest(line: &str, start: usize) -> ParseResult<&str> {
+    line.get(start.min(line.len())..)
+        .ok_or_else(|| ParseError::new("Line contains a character that crosses a field boundary."))
+}
+
 /// Character ranges for the different fields of the column.
 const FIELDS: [Range<usize>; 7] = [
     0..1,
-- 
2.43.0


From d55771d04fdf9a4cc04a1275fdf4bdc6aab450c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 22/31] fix: multiply a row of zeros with an explicit basis
 inverse

---
 .../inverse_maintenance/carry/basis_inverse_rows.rs      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..15a922b 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -165,8 +165,13 @@ where
     where
         Self::F: ops::Column<I::F>,
     {
-        let (index, factor) = row.next().unwrap();
-        let items = self.rows[index].iter().map(|(j, value)| (j, value * factor)).collect();
+        let items = match row.next() {
+            Some((index, factor)) => self.rows[index].iter()
+                .map(|(j, value)| (j, value * factor))
+                .collect(),
+            // The row contains only zeros
+            None => Vec::with_capacity(0),
+        };
         let mut total = SparseVector::new(items, self.m());
 
         for (index, factor) in row {
-- 
2.43.0


From b82e5f7143221f98099282939a7dd9fc70646bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 23/31] fix: don't cycle with the pivot rules that aren't
 steepest edge or first profitable

---
 .../two_phase/strategy/pivot_rule.rs          | 60 ++++++++++++++++++-
 1 file changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/two_phase/strategy/pivot_rule.rs b/src/algorithm/two_phase/strategy/pivot_rule.rs
index 77a8527..5866cc7 100644
--- a/src/algorithm/two_phase/strategy/pivot_rule.rs
+++ b/src/algorithm/two_phase/strategy/pivot_rule.rs
@@ -3,7 +3,7 @@
 //! Strategies for moving from basis to basis, whether primal or dual.
 use std::ops::Range;
 
-use num_traits::One;
+use num_traits::{One, Zero};
 
 use crate::algorithm::two_phase::matrix_provider::column::Column;
 use crate::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
@@ -108,8 +108,25 @@ where
     }
 }
 
+/// Whether the last pivot didn't move to a different point.
+///
+/// Rules that can cycle should select like the `FirstProfitable` rule after such a pivot: together
+/// with how the pivot row is selected, that is Bland's rule, which always leaves a degenerate point.
+fn is_degenerate_pivot<IM, K>(
+    info: &BasisChangeComputationInfo<IM::F>,
+    tableau: &Tableau<IM, K>,
+) -> bool
+where
+    IM: InverseMaintainer<F: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>>,
+    K: Kind,
+{
+    tableau.variable_value(info.pivot_column_index).is_zero()
+}
+
 /// Small modification w.r.t. the `FirstProfitable` rule; it starts the search from the last
 /// column selected.
+///
+/// To avoid cycling, after a degenerate pivot the search starts from the first column.
 pub struct FirstProfitableWithMemory {
     last_selected: Option<usize>,
 }
@@ -147,17 +164,37 @@ where
         self.last_selected = potential.as_ref().map(|&(i, _)| i);
         potential
     }
+
+    fn after_basis_update<IM, K>(
+        &mut self,
+        info: BasisChangeComputationInfo<IM::F>,
+        tableau: &Tableau<IM, K>,
+    )
+    where
+        IM: InverseMaintainer<F=F>,
+        K: Kind,
+        F: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
+    {
+        if is_degenerate_pivot(&info, tableau) {
+            self.last_selected = None;
+        }
+    }
 }
 
 /// Simply pivot on the column, which has the most negative relative cost.
-pub struct SteepestDescentAlongVariable;
+///
+/// To avoid cycling, after a degenerate pivot the first column with a negative relative cost is
+/// selected.
+pub struct SteepestDescentAlongVariable {
+    after_degenerate_pivot: bool,
+}
 impl<F> PivotRule<F> for SteepestDescentAlongVariable
 where
     F: im_ops::Field,
     for<'r> &'r F: Ord,
 {
     fn new<IM, K>(_tableau: &Tableau<IM, K>) -> Self {
-        Self
+        Self { after_degenerate_pivot: false }
     }
 
     fn select_primal_pivot_column<IM, K>(
@@ -169,6 +206,10 @@ where
         K: Kind,
         F: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
     {
+        if self.after_degenerate_pivot {
+            return FirstProfitable.select_primal_pivot_column(tableau);
+        }
+
         let mut smallest = None;
         for (j, cost) in (tableau.start_index()..tableau.nr_columns())
             .filter(|&column| !tableau.is_in_basis(column))
@@ -184,6 +225,19 @@ where
 
         smallest
     }
+
+    fn after_basis_update<IM, K>(
+        &mut self,
+        info: BasisChangeComputationInfo<IM::F>,
+        tableau: &Tableau<IM, K>,
+    )
+    where
+        IM: InverseMaintainer<F=F>,
+        K: Kind,
+        F: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
+    {
+        self.after_degenerate_pivot = is_degenerate_pivot(&info, tableau);
+    }
 }
 
 /// Goldfarb et. al's 1977 "A practicable steepest-edge simplex algorithm".
-- 
2.43.0


From b9e47880a09092fb3c8b10f3e2b0a689bc04d692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 24/31] fix: don't assert that vectors, bases and permutations
 are never empty

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs     | 2 +-
 .../inverse_maintenance/carry/lower_upper/decomposition/mod.rs  | 1 -
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs   | 2 +-
 src/data/linear_algebra/matrix.rs                               | 2 --
 src/data/linear_algebra/vector/dense.rs                         | 2 --
 src/data/linear_algebra/vector/sparse.rs                        | 1 -
 6 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index 15a922b..62159d1 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -220,7 +220,7 @@ where
 {
     fn remove_basis_part(&mut self, indices: &[usize]) {
         let old_m = self.m();
-        debug_assert!(indices.len() < old_m);
+        debug_assert!(indices.len() <= old_m);
 
         remove_indices(&mut self.rows, indices);
         // Remove the columns
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 03e0f4a..2f0a37b 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -276,7 +276,6 @@ fn swap<T>(
 /// Requires iterating over all values once.
 fn count_non_zeros<T>(rows: &[Vec<(usize, T)>]) -> (Vec<usize>, Vec<usize>) {
     let n = rows.len();
-    debug_assert!(n > 0);
     debug_assert!(rows.iter().all(|row| row.iter().all(|&(i, _)| i < n)));
 
     let nnz_row = rows.iter()
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..30baebd 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -25,7 +25,7 @@ impl Full {
     /// Computes the inverse by sorting.
     pub fn new(forward: Vec<usize>) -> Self {
         debug_assert_eq!(forward.iter().collect::<HashSet<_>>().len(), forward.len());
-        debug_assert!(*forward.iter().max().unwrap() < forward.len());
+        debug_assert!(forward.iter().all(|&i| i < forward.len()));
 
         let mut backward = forward.iter()
             .enumerate()
diff --git a/src/data/linear_algebra/matrix.rs b/src/data/linear_algebra/matrix.rs
index 04c2aea..fe8b020 100644
--- a/src/data/linear_algebra/matrix.rs
+++ b/src/data/linear_algebra/matrix.rs
@@ -544,8 +544,6 @@ where
 {
     /// Create a dense square identity matrix of size `len`.
     fn identity(len: usize) -> Self {
-        debug_assert_ne!(len, 0);
-
         SparseMatrix::from_major_ordered_tuples(
             (0..len)
                 .map(|i| vec![(i, F::one())])
diff --git a/src/data/linear_algebra/vector/dense.rs b/src/data/linear_algebra/vector/dense.rs
index 10d638a..b5c772d 100644
--- a/src/data/linear_algebra/vector/dense.rs
+++ b/src/data/linear_algebra/vector/dense.rs
@@ -37,8 +37,6 @@ impl<F> Dense<F> {
     where
         F: Clone,
     {
-        debug_assert_ne!(len, 0);
-
         Self { data: vec![value; len], }
     }
 
diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 77b0fd5..276eea0 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -91,7 +91,6 @@ where
         debug_assert!(data.iter().all(|&(i, _)| i < len));
         debug_assert!(data.is_sorted_by_key(|&(i, _)| i));
         debug_assert!(data.iter().all(|(_, v)| v.borrow().is_not_zero()));
-        debug_assert_ne!(len, 0);
         debug_assert!(data.len() <= len);
 
         Self {
-- 
2.43.0


From 36137de4ed2077ead0fdfe35a7a516a88e6531ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 25/31] fix: a row to delete should not have been deleted
 before

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From 86cf11f6c421dc368414e64dfda1370d0e8a96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 26/31] fix: don't panic on a marker that doesn't change the
 variable type

---
 src/io/mps/parse/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index f76f6c6..c0f41fa 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -384,7 +384,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                     )?;
 
                     // TODO(CORRECTNESS): Err when the type doesn't actually change?
-                    let previous_variable_type = active_variable_type;
                     active_variable_type = match marker_text {
                         START_OF_INTEGER => VariableType::Integer,
                         END_OF_INTEGER => VariableType::Continuous,
@@ -392,7 +391,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                             format!("Marker type \"{}\" unknown.", marker_text), (number, line),
                         ).into()),
                     };
-                    debug_assert_ne!(previous_variable_type, active_variable_type);
                 },
                 ColumnLineContent::Data([column_name, row_name, value_text], rest_of_line) => {
                     // Read the name of the group and save the group if necessary
-- 
2.43.0


From 71f7bf630e65c77d19a7322bb8ab1d74d5e29f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:41 +0000
Subject: [PATCH 27/31] fix: don't accept a value that is not a number

---
 src/io/mps/number/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index ee70c5e..8afc68a 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -29,7 +29,9 @@ impl Parse for f64 {
 
         let minimum_magnitude = 1e-10;
         let maximum_magnitude = 1e10;
-        if value.abs() < minimum_magnitude {
+        if value.is_nan() {
+            Err(ParseError::new(format!("Value text \"{}\" is not a number.", text)))
+        } else if value.abs() < minimum_magnitude {
             Err(ParseError::new(format!(
                 "Parsed value was {}, but can't be smaller than {}.", value, minimum_magnitude,
             )))
-- 
2.43.0


From 21dc5a6d33e0937afaa71f16b9d9c85ccc2a1a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 28/31] fix: allow removing all indices of a sparse vector

---
 src/data/linear_algebra/vector/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 276eea0..11b4430 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -150,7 +150,7 @@ where
         // All values are unique
         debug_assert!(indices.iter().collect::<HashSet<_>>().len() == indices.len());
         debug_assert!(indices.iter().all(|&i| i < self.len));
-        debug_assert!(indices.len() < self.len);
+        debug_assert!(indices.len() <= self.len);
 
         remove_sparse_indices(&mut self.data, indices);
         self.len -= indices.len();
-- 
2.43.0


From 768dae83880e00c8b79d5f6a51829efbe8b79d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 29/31] fix: separate all values of a displayed sparse vector

---
 src/data/linear_algebra/vector/sparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 11b4430..4ef7f15 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -386,11 +386,11 @@ where
 impl<F: SparseElement<C>, C: SparseComparator> Display for Sparse<F, C> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "[")?;
-        for (index, value) in &self.data {
-            write!(f, "({} {})", index, value)?;
-            if *index < self.data.len() - 1 {
+        for (position, (index, value)) in self.data.iter().enumerate() {
+            if position > 0 {
                 write!(f, ", ")?;
             }
+            write!(f, "({} {})", index, value)?;
         }
         write!(f, "]")
     }
-- 
2.43.0


From 1364624824bd196e1b6408410be4599491b501bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:37 +0000
Subject: [PATCH 30/31] fix: add and subtract arc directions exactly

---
 src/data/linear_program/network/representation.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/network/representation.rs b/src/data/linear_program/network/representation.rs
index 3a2d5b3..08a3f7d 100644
--- a/src/data/linear_program/network/representation.rs
+++ b/src/data/linear_program/network/representation.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
 
 use index_utils::remove_sparse_indices;
-use relp_num::{Field, Negateable, One};
+use relp_num::{Field, Negateable};
 use relp_num::NonZero;
 use relp_num::RationalBig;
 
@@ -210,8 +210,9 @@ impl AddAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn add_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self += One,
-            ArcDirection::Outgoing => *self -= One,
+            // Not with `relp_num::One`, adding that to some negative values yields zero.
+            ArcDirection::Incoming => *self += RationalBig::one(),
+            ArcDirection::Outgoing => *self -= RationalBig::one(),
         }
     }
 }
@@ -249,8 +250,8 @@ impl SubAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn sub_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self -= One,
-            ArcDirection::Outgoing => *self += One,
+            ArcDirection::Incoming => *self -= RationalBig::one(),
+            ArcDirection::Outgoing => *self += RationalBig::one(),
         }
     }
 }
-- 
2.43.0


From c71145073f046e996d338475cae5cce994fa03b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:09 +0000
Subject: [PATCH 31/31] fix: compare in the solution's own number type when
 shifting a value

Equality of a RationalBig with a Rational32 ignores the sign. With Rational32 data, undoing the
shift of a variable by its lower bound set a value to zero whenever it equalled that bound's
magnitude, and the solution returned was infeasible.
---
 src/data/linear_algebra/vector/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 4ef7f15..b0f89ac 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -307,7 +307,7 @@ where
         if value.is_not_zero() {
             match self.get_data_index(i) {
                 Ok(index) => {
-                    if self.data[index].1 == -&value {
+                    if self.data[index].1 == F::from(-&value) {
                         self.set_zero(i);
                     } else {
                         self.data[index].1 += value;
-- 
2.43.0

